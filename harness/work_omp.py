"""Runs generated OpenMP code sequentially and in parallel; records units, accesses, results."""
from work_part import *

STUB = os.path.join(HERE, "omp", "ompstub.c")
WRAP = "-Wl,--wrap=memset,--wrap=memcpy,--wrap=memmove,--wrap=malloc,--wrap=free"
P = lambda a: a.ctypes.data_as(ctypes.c_void_p)


def sh(*cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("%s: %s" % (cmd[0], r.stderr[-600:]))


def compile_all(files, tag):
    """(sequential library, library whose threads the stand-in runtime runs, library with the real runtime)"""
    seq, hook, gomp = (os.path.abspath("lib_%s_%s.so" % (tag, k)) for k in ("seq", "hook", "gomp"))
    sh("gfortran", "-O0", "-shared", "-fPIC", "-o", seq, *files)
    sh("gfortran", "-O1", "-fopenmp", "-shared", "-fPIC", "-o", gomp, *files)
    objs = []
    for f in files:
        o = "%s_%s.o" % (f[:-4], tag)
        sh("gfortran", "-O0", "-g", "-fopenmp", "-fsanitize=thread", "-fPIC", "-c", "-o", o, f)
        objs.append(o)
    if not os.path.exists("ompstub.o"):
        sh("gcc", "-O1", "-fno-builtin", "-fPIC", "-c", "-o", "ompstub.o", STUB)
    sh("gcc", "-shared", "-o", hook, *objs, "ompstub.o", WRAP, "-lgfortran", "-lm")
    libs = [ctypes.CDLL(x) for x in (seq, hook, gomp)]
    for fn in ("vf_accesses", "vf_claims"):
        getattr(libs[1], fn).restype = ctypes.c_long
    return libs


KIND = ["thread", "single", "section", "chunk"]


class Call:
    """One call of a generated subroutine: named arguments, the last `outs` of them outputs."""
    def __init__(self, name, args, outs):
        self.name, self.args, self.outs = name, args, outs

    def run(self, lib, fill):
        bufs = []
        for i, (nm, v) in enumerate(self.args):
            a = np.array(v, ndmin=1)
            a = a.astype(np.int64) if a.dtype.kind == "i" else a.astype(float)
            if i >= len(self.args) - self.outs:
                a = guarded(a.size, fill)
            bufs.append(np.ascontiguousarray(a))
        getattr(lib, self.name + "_")(*[P(b) for b in bufs])
        self.bufs = bufs
        k = len(bufs) - self.outs
        return [(self.args[i][0], unguard(bufs[i], np.array(self.args[i][1]).size).copy()) for i in range(k, len(bufs))]

    def where(self, w):
        """A name for the 4-byte word with this number."""
        a = w << 2
        for (nm, _), b in zip(self.args, self.bufs):
            lo = b.ctypes.data
            if lo <= a < lo + b.nbytes:
                return "%s(%d)" % (nm, (a - lo) // 8 + 1)
        return "shared variable %d" % (w % 4096)


def trace(hook, be, call):
    """Events for the run the hooked library just did."""
    n = hook.vf_accesses(None, 0)
    b = np.zeros((max(n, 1), 6), dtype=np.int64)
    hook.vf_accesses(P(b), ctypes.c_long(n))
    b = b[:n]
    ids, names, units = {}, [], {}
    seen = {}
    for w, region, phase, kind, no, rw in b.tolist():
        seen.setdefault(w, set()).add((region, phase, kind, no))
    for w, region, phase, kind, no, rw in sorted(b.tolist()):
        if len(seen[w]) < 2:
            continue                        # only one unit touches it: it cannot conflict with another's
        nm = call.where(w)
        if nm not in ids:
            ids[nm] = len(names) + 1
            names.append(nm)
        u = units.setdefault((region, phase, kind, no), (set(), set()))
        u[rw].add(ids[nm])
    return names, units


def claims(hook):
    k = hook.vf_claims(None, 0)
    c = np.zeros((max(k, 1), 6), dtype=np.int32)
    hook.vf_claims(P(c), ctypes.c_long(k))
    return c[:k].tolist()


def explore(be, call, libs, scheds, ev, gomp=0):
    seq_lib, hook, gomp_lib = libs
    seq = call.run(seq_lib, 3.25)
    for s in scheds:
        sc = (ctypes.c_int * max(1, len(s["sched"])))(*s["sched"])
        hook.vf_setup(s["threads"], sc, len(s["sched"]), ctypes.c_long(s.get("seed", 1)), s.get("preempt", 0))
        par = call.run(hook, -11.5)
        cl = claims(hook)
        names, units = trace(hook, be, call)
        ev.append(dict(ev="run", be=be, names=names))
        for region, phase, kind, no, t, took in cl:
            ev.append(dict(ev="claim", be=be, region=region, phase=phase, kind=KIND[kind], no=no, took=bool(took)))
        regions = {}
        for (region, phase, kind, no), (r, w) in sorted(units.items()):
            regions.setdefault(region, []).append(dict(u="%s %d" % (KIND[kind], no), phase=phase, r=sorted(r), w=sorted(w)))
        for region, us in sorted(regions.items()):
            ev.append(dict(ev="region", be=be, threads=s["threads"], units=us))
        results(be, seq, par, s["threads"], ev)
    for k in range(gomp):
        results(be + "-gomp", seq, call.run(gomp_lib, -11.5), -1, ev)


def results(be, seq, par, threads, ev):
    for (nm, a), (_, b) in zip(seq, par):
        m = np.abs(a[np.isfinite(a)])
        ev.append(dict(ev="result", be=be, what=nm, threads=threads, scale=fl(m.max() if m.size else 0.0), seq=flat(a), par=flat(b)))


def job_mech(job):
    ev = []
    try:
        p = Pipeline(job)
        p.parse(job["text"])
        p.gen_fortran(list(FILES), True)
        libs = compile_all([FILES[w] for w in FILES], "m")
        y, r = p.vec(p.nsp, "unit"), p.vec(p.neq, "unit")
        n, q = p.nsp, p.neq
        F = float
        calls = dict(
            reactants=Call("reactants", [("y", y), ("reactants_conc", np.zeros(q))], 1),
            tendency=Call("loss_gain", [("r", r), ("loss_gain_array", np.zeros(n))], 1),
            jacobian=Call("jacobian", [("r", r), ("y", y), ("dy_dy", np.zeros(n * n))], 1),
            rates=Call("evaluate_rates", [("RO2", 3.1e9), ("H2O", 4.2e17), ("TEMP", 291.3), ("time", 40321.0), ("rate_values", np.zeros(q))], 1))
        for w in job["what"]:
            explore("omp-" + w, calls[w], libs, job["scheds"], ev, job.get("gomp", 0))
    except BaseException as e:
        ev.append(dict(ev="failed", what="parallel mechanism code: %s: %s" % (type(e).__name__, e)))
    return ev


def job_part(job):
    p, ev = job["p"], []
    try:
        generate(p, job.get("plain", False))
        libs = compile_all(["Partitioning.f90"], "p")
        nt = p["nsp"] + p["nc"] * p["nb"]
        for y in job["states"]:
            y = np.array([float(v) for v in y])
            got = []
            evaluator(p, lambda *a: got.append(a))(y)
            names = ("y ycore core_diss core_mass_array density_input core_density_array ignore_index mw_array Psat DStar_org "
                     "alpha_d_org C_g_i_t N_perbin gamma_gas Latent_heat GRAV Updraft sigma NA kb Rv R_gas Model_temp cp Ra Lv_water_vapour").split()
            args = list(zip(names, got[0])) + [("total_SOA_mass", 0.0), ("aw_array", np.zeros(p["nb"])), ("size_array", np.zeros(p["nb"])), ("dy_dt", np.zeros(nt))]
            explore("omp-partition", Call("dydt_partition", args, 4), libs, job["scheds"], ev, job.get("gomp", 0))
    except BaseException as e:
        ev.append(dict(ev="failed", what="parallel partitioning: %s: %s" % (type(e).__name__, e)))
    return ev
