"""Looks at the figures the repository draws.  Knows nothing about the right ones."""
import re
from worker import *


class Figures:
    """Every figure at the moment it is shown."""
    def __init__(self):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.plt, self.seen = plt, []
        me = self

        def show(*a, **k):
            for n in plt.get_fignums():
                me.look(plt.figure(n))
            plt.close("all")        # a window is gone once it was looked at

        def fshow(fig, *a, **k):
            me.look(fig)
        plt.show, Figure.show = show, fshow
        import pdb
        pdb.set_trace = lambda *a, **k: None      # the user types c

    def look(self, fig):
        lines, bars, title = [], [], "nan"
        for ax in fig.axes:
            for l in ax.get_lines():
                lines.append(dict(label=str(l.get_label()), x=[fl(v) for v in np.asarray(l.get_xdata(), dtype=float).reshape(-1)],
                                  y=[fl(v) for v in np.asarray(l.get_ydata(), dtype=float).reshape(-1)]))
            for q in ax.patches:
                if hasattr(q, "get_height"):
                    bars.append([fl(round(float(q.get_x() + q.get_width() / 2), 6)), fl(q.get_y()), fl(q.get_height())])
            m = re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", ax.get_title())
            if m:
                title = fl(float(m[-1]))
        self.seen.append(dict(lines=lines, bars=bars, title=title))


def job_stacked(job):
    import warnings
    warnings.simplefilter("ignore")
    import importlib.util
    f = Figures()
    out = []
    spec = importlib.util.spec_from_file_location("Plotting", os.path.join(REPO, job["path"]))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for c in job["cases"]:
        p = c["p"]
        ev = [dict(ev="snaps", p=p, snaps=c["snaps"])]
        f.seen.clear()
        y = np.array([[float(v) for v in s] for s in c["snaps"]])
        keep = y.copy()
        try:
            with quiet():
                m.stacked_bar([100.0 * (i + 1) for i in range(len(y))], y, p["nc"], p["nb"], np.array([float(v) for v in p["mw"]]), float(p["NA"]))
            ev += [dict(ev="plot", bars=g["bars"], title=g["title"]) for g in f.seen] + [dict(ev="drawn")]
            if not np.array_equal(keep, y):
                ev.append(dict(ev="failed", what="drawing changed the data"))
        except BaseException as e:
            ev.append(dict(ev="failed", what="%s: %s" % (type(e).__name__, e)))
        f.plt.close("all")
        out.append(ev)
    return out
