"""Runs one driver script of the repository with given settings, in its own process and
directory, under the scripted solver.  usage: driver_run.py JOB OUT  (cwd: the driver's directory)

A setting is a literal the script assigns to a name; it is replaced before the script runs."""
import ast, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


SHIPPED = {"MCM_APINENE", "MCM_yield"}


class Settings(ast.NodeTransformer):
    """Replaces literals: x = 1, x: float = 1, x, y = 1, 2, d['k'] = 1, d = {'k': 1}, d = dict(k=1), x = [1]*n, def f(x=1)."""
    def __init__(self, values):
        self.values, self.used = values, set()

    def literal(self, k, v):
        if k in self.values and isinstance(v, (ast.Constant, ast.UnaryOp)):
            self.used.add(k)
            return ast.copy_location(ast.Constant(self.values[k]), v)
        return v

    def assign(self, t, v):
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Constant):
            return self.literal("%s[%s]" % (t.value.id, t.slice.value), v)
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
            v.elts = [self.assign(x, y) for x, y in zip(t.elts, v.elts)]
        elif isinstance(t, ast.Name) and isinstance(v, ast.Dict):
            v.values = [self.literal("%s[%s]" % (t.id, k.value), x) if isinstance(k, ast.Constant) else x for k, x in zip(v.keys, v.values)]
        elif isinstance(t, ast.Name) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict":
            for k in v.keywords:
                k.value = self.literal("%s[%s]" % (t.id, k.arg), k.value)
        elif isinstance(t, ast.Name) and isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and isinstance(v.left, ast.List) and len(v.left.elts) == 1:
            v.left.elts = [self.literal(t.id, v.left.elts[0])]
        elif isinstance(t, ast.Name):
            return self.literal(t.id, v)
        return v

    def visit_Assign(self, node):
        if len(node.targets) == 1:
            node.value = self.assign(node.targets[0], node.value)
        return self.generic_visit(node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.assign(node.target, node.value)
        return self.generic_visit(node)

    def visit_FunctionDef(self, node):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        n = len(a.defaults)
        a.defaults = [self.literal(k, v) for k, v in zip(names[len(names) - n:], a.defaults)]
        a.kw_defaults = [self.literal(k.arg, v) if v is not None else v for k, v in zip(a.kwonlyargs, a.kw_defaults)]
        return self.generic_visit(node)


class FileName(ast.NodeTransformer):
    """The shipped mechanism's name, wherever it is written."""
    def __init__(self, name):
        self.name, self.used = name, False

    def visit_Constant(self, node):
        if isinstance(node.value, str) and node.value in SHIPPED:
            self.used = True
            return ast.copy_location(ast.Constant(self.name), node)
        return node


def main():
    job = json.load(open(sys.argv[1]))
    path = os.path.abspath(job["driver"])
    os.environ["VF_REPO"] = job["root"]
    from worker import stub_numba, quiet
    import compat, stubprop, work_sim
    compat.install()
    stubprop.install(job["table"])
    if job["kind_of"] == "numba" and not job.get("real"):
        stub_numba()
    s = work_sim.Script(job, dict(gas=job["gas"]))
    s.install()
    figs = None
    if job.get("figures"):
        from work_plot import Figures
        figs = Figures()
    plots = work_sim.no_plots() if figs is None else []
    src = open(path).read()
    tree = Settings(job["settings"])
    mod = tree.visit(ast.parse(src))
    if "filename" in tree.values and "filename" not in tree.used:
        f = FileName(tree.values["filename"])
        mod = f.visit(mod)
        tree.used |= {"filename"} if f.used else set()
    code = compile(ast.fix_missing_locations(mod), path, "exec")
    sys.path[0:1] = [os.path.dirname(path)]
    sys.path.append(HERE)
    sys.argv = [path]
    try:
        with quiet():
            exec(code, {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__})
        s.ev.append(dict(ev="over"))
        if figs is not None:
            work_sim.figure_events(s, figs, job["kind_of"] in ("numba", "f2py") or (job["kind_of"] == "aerosol" and "plot_mass" in tree.used and job["settings"]["plot_mass"]))
        for v in plots if job["kind_of"] != "numba" else []:
            s.ev.append(dict(ev="output", what="plotted", t=v[0], n=len(v[1]) if len(v) > 1 else 0))
        if job["save"]:
            work_sim.read_outputs(s, job["kind_of"], job["name"])
    except BaseException as e:
        import traceback
        what = "%s: %s: %s %s" % (job["kind_of"], type(e).__name__, e, traceback.format_exc()[-500:])
        s.ev.append(dict(ev="failed" if any(x["ev"] == "batch" for x in s.ev) else "refused", what=what))
    with open(sys.argv[2] if len(sys.argv) > 2 else job["out"], "w") as h:
        json.dump(dict(events=s.ev, used=sorted(tree.used)), h)


main()
