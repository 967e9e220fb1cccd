"""Runs PyBox code on one job and records what it did.  usage: worker.py DIR

DIR/job.json says what to do; DIR/cwd is the working directory; DIR/out.json gets the
recorded events.  Nothing here knows what the right answers are."""
import contextlib, ctypes, io, json, os, random, subprocess, sys, types

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VF_REPO", "/repo")
import numpy as np
import compat
from common import fl


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ------------------------------------------------------------------ parsing

def parse_event(o):
    """Projection of extract_mechanism's result onto the specification's state."""
    n = o["max_equations"]
    sd, sa = o["species_dict"], o["species_dict2array"]
    order = [str(sd[i]) if i in sd else "?" for i in range(len(sd))]
    rxs = []

    def col(d, k):
        return [[str(s), fl(m[k])] for s, m in d.items() if k in m]
    ks = sorted(set(range(int(n))) | set(o["rate_dict"].keys()))
    for k in ks:
        rx = dict(loss=col(o["loss_dict"], k), gain=col(o["gain_dict"], k),
                  reac=[str(s) for s in (o["rate_dict_reactants"][k].values() if k in o["rate_dict_reactants"] else [])],
                  rate=str(o["rate_dict"].get(k, "?")))
        rxs.append(rx)
    return dict(ev="parse", n=int(n), order=order, num=[[str(s), int(i)] for s, i in sa.items()], rx=rxs)


def do_parse(pe, text, fn):
    with open(fn, "w") as h:
        h.write(text)
    with quiet():
        return pe.extract_mechanism(fn, {"Full_eqn": 0})


# ------------------------------------------------------------ Python backend

class _Any:
    """Stands for numba's decorators and type names: jit leaves functions alone."""
    def __getattr__(self, k): return _Any()
    def __getitem__(self, k): return _Any()
    def __call__(self, *a, **k):
        if len(a) == 1 and callable(a[0]) and not isinstance(a[0], _Any):
            return a[0]
        return _Any()


def stub_numba():
    m = types.ModuleType("numba")
    m.__getattr__ = lambda k: _Any()
    return m


def py_module(fn, real=False):
    src = open(fn).read()
    mod = types.ModuleType(os.path.basename(fn)[:-3])
    mod.__file__ = os.path.abspath(fn)
    if real:
        import importlib.util
        spec = importlib.util.spec_from_file_location(mod.__name__, os.path.abspath(fn))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        return mod
    keep = sys.modules.get("numba")
    sys.modules["numba"] = stub_numba()
    try:
        exec(compile(src, fn, "exec"), mod.__dict__)
    finally:
        if keep is None:
            del sys.modules["numba"]
        else:
            sys.modules["numba"] = keep
    return mod


# ----------------------------------------------------------- Fortran backend

class Fortran:
    """A generated .f90 compiled and called directly (arguments by reference)."""
    def __init__(self, files, tag, omp=False, opt="-O1"):
        so = os.path.abspath("lib_%s.so" % tag)
        mdir = os.path.abspath("mod_%s" % tag)
        os.makedirs(mdir, exist_ok=True)
        cmd = ["gfortran", opt, "-shared", "-fPIC", "-J", mdir, "-o", so] + (["-fopenmp"] if omp else []) + list(files)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("gfortran: " + r.stderr[-800:])
        self.lib = ctypes.CDLL(so)

    def call(self, name, *args):
        keep = []
        ptr = []
        for a in args:
            if isinstance(a, np.ndarray):
                ptr.append(a.ctypes.data_as(ctypes.c_void_p))
            elif isinstance(a, int):
                v = ctypes.c_longlong(a); keep.append(v); ptr.append(ctypes.byref(v))
            else:
                v = ctypes.c_double(a); keep.append(v); ptr.append(ctypes.byref(v))
        getattr(self.lib, name + "_")(*ptr)


GUARD = 64
SENTINEL = 7.25e77


def guarded(n, fill=0.0):
    a = np.full(n + GUARD, SENTINEL)
    a[:n] = fill
    return a


def unguard(a, n):
    if not np.all(a[n:] == SENTINEL):
        raise RuntimeError("wrote beyond the end of an output array")
    return a[:n]


# ------------------------------------------------------------------- the job

def sparse_rows(m):
    rows = []
    for i in range(m.shape[0]):
        nz = np.nonzero(m[i])[0]
        rows.append([[int(j), fl(m[i, j])] for j in nz])
    return rows


def load_sparse(fn):
    from scipy.sparse import csr_matrix
    z = np.load(fn)
    m = csr_matrix((z["data"], z["indices"], z["indptr"]), shape=tuple(z["shape"]))
    rows = []
    for i in range(m.shape[0]):
        r = m.getrow(i)
        d = {}
        for j, v in zip(r.indices, r.data):
            d[int(j)] = d.get(int(j), 0.0) + float(v)
        rows.append([[j, fl(v)] for j, v in sorted(d.items()) if v != 0])
    return [int(x) for x in z["shape"]], rows


class Pipeline:
    """The generation pipeline of the drivers, and the functions it generates."""
    def __init__(self, job):
        self.job = job
        self.pe = __import__("Parse_eqn_file")
        self.rc = __import__("rate_coeff_conversion")
        self.fn = job.get("name", "MECH")
        if job.get("cores"):
            import multiprocessing
            multiprocessing.cpu_count = os.cpu_count = lambda: job["cores"]
        self.rng = random.Random(job.get("seed", 1))

    def parse(self, text):
        self.o = do_parse(self.pe, text, self.fn + ".eqn.txt")
        self.neq = int(self.o["max_equations"])
        self.nsp = len(self.o["species_dict"])
        return self.o

    def gen_numba(self, what):
        o, pe = self.o, self.pe
        import copy
        with quiet():
            if "rates" in what:
                d = self.rc.convert_rate_mcm_numba(copy.deepcopy(o["rate_dict"]))
                pe.write_rate_file_numba(self.fn, d)
            if "reactants" in what:
                pe.write_reactants_indices(self.fn, self.neq, self.nsp, o["species_dict2array"], o["rate_dict_reactants"], o["loss_dict"])
            if "tendency" in what:
                pe.write_loss_gain_matrix(self.fn, self.neq, self.nsp, o["loss_dict"], o["gain_dict"], o["species_dict2array"])
            if "jacobian" in what:
                pe.write_gas_jacobian_numba(self.fn, self.neq, self.nsp, o["loss_dict"], o["gain_dict"], o["species_dict2array"], o["rate_dict_reactants"])

    def gen_fortran(self, what, omp):
        o, pe = self.o, self.pe
        import copy
        with quiet():
            if "rates" in what:
                d = self.rc.convert_rate_mcm_fortran(copy.deepcopy(o["rate_dict"]))
                pe.write_rate_file_fortran(self.fn, d, omp)
            if "reactants" in what:
                pe.write_reactants_indices_fortran(self.fn, self.neq, o["species_dict2array"], o["rate_dict_reactants"], o["loss_dict"], omp)
            if "tendency" in what:
                pe.write_loss_gain_fortran(self.fn, self.neq, self.nsp, o["loss_dict"], o["gain_dict"], o["species_dict2array"], omp)
            if "jacobian" in what:
                pe.write_gas_jacobian_fortran(self.fn, self.neq, self.nsp, o["loss_dict"], o["gain_dict"], o["species_dict2array"], o["rate_dict_reactants"], omp)

    def vec(self, n, kind):
        r = self.rng
        if kind == "unit":
            return np.array([round(r.uniform(0.3, 6.0), 3) for _ in range(n)])
        if kind == "zeros":
            return np.array([0.0 if r.random() < 0.4 else round(r.uniform(0.3, 6.0), 3) for _ in range(n)])
        if kind == "phys":
            return np.array([float("%.3e" % (10 ** r.uniform(4, 12))) for _ in range(n)])
        if kind == "signed":
            return np.array([round(r.uniform(-5.0, 6.0), 3) for _ in range(n)])
        raise ValueError(kind)


FILES = dict(rates="Rate_coefficients.f90", reactants="Reactants_conc.f90", tendency="Loss_Gain.f90", jacobian="Jacobian.f90")
PYFILES = dict(rates="Rate_coefficients_numba.py", reactants="Reactants_conc_numba.py", tendency="Loss_Gain_numba.py", jacobian="Jacobian_numba.py")


def job_mech(job):
    """Parse a mechanism (and prefixes of it), generate code for the wanted backends,
    run it on probe vectors."""
    ev = []
    p = Pipeline(job)
    what = job.get("what", [])
    for pre in job.get("prefixes", []):     # [number of reactions, text]
        try:
            o = do_parse(p.pe, pre[1], "PREFIX.eqn.txt")
            ev.append([pre[0], parse_event(o)])
        except BaseException as e:
            ev.append([pre[0], dict(ev="failed", what="parsing: %r" % (e,))])
    n = job["n"]
    if job.get("warm"):     # the same process generates code for another mechanism first
        try:
            p.parse(job["warm"])
            p.gen_numba(what)
            if any(b.startswith("fortran") for b in job.get("backends", [])):
                p.gen_fortran(what, False)
        except BaseException as e:
            ev.append([n, dict(ev="failed", what="another mechanism: %r" % (e,))])
            return ev
    try:
        p.parse(job["text"])
    except BaseException as e:
        ev.append([n, dict(ev="failed", what="parsing: %r" % (e,))])
        return ev
    if job.get("parse_event", True):
        ev.append([n, parse_event(p.o)])
    rec = lambda e: ev.append([n, e])

    probes = []
    for yk, rk in job.get("probes", [["unit", "unit"]]):
        probes.append((yk, p.vec(p.nsp, yk), p.vec(p.neq, rk)))

    def run(be, prod, tend, jac):
        for yk, y, r in probes:
            if prod:
                rec(dict(ev="reactants", be=be, y=[fl(v) for v in y], out=[fl(v) for v in prod(y.copy())]))
            if tend:
                rec(dict(ev="tendency", be=be, r=[fl(v) for v in r], out=[fl(v) for v in tend(r.copy())]))
            if jac and yk in ("unit", "phys"):
                m = jac(r.copy(), y.copy())
                rec(dict(ev="jacobian", be=be, y=[fl(v) for v in y], r=[fl(v) for v in r], rows=sparse_rows(m)))

    for be in job.get("backends", []):
        try:
            if be in ("numba", "numba-real"):
                p.gen_numba(what)
                real = be == "numba-real"
                mods = {w: py_module(PYFILES[w], real) for w in what}
                run(be,
                    (lambda y: mods["reactants"].reactants(y, p.neq, np.zeros(p.neq))) if "reactants" in what else None,
                    (lambda r: mods["tendency"].dydt(np.zeros(p.nsp), r)) if "tendency" in what else None,
                    (lambda r, y: mods["jacobian"].jacobian(r, y, np.zeros((p.nsp, p.nsp)))) if "jacobian" in what else None)
            else:
                omp = be.startswith("fortran-omp")
                p.gen_fortran(what, omp)
                lib = Fortran([FILES[w] for w in what], be.replace("-", "_"), omp)

                def f_re(y):
                    out = guarded(p.neq)
                    lib.call("reactants", np.ascontiguousarray(y), out)
                    return unguard(out, p.neq)

                def f_lg(r):
                    out = guarded(p.nsp)
                    lib.call("loss_gain", np.ascontiguousarray(r), out)
                    return unguard(out, p.nsp)

                def f_ja(r, y):
                    out = guarded(p.nsp * p.nsp)
                    lib.call("jacobian", np.ascontiguousarray(r), np.ascontiguousarray(y), out)
                    return unguard(out, p.nsp * p.nsp).reshape((p.nsp, p.nsp), order="F")
                for _ in range(job.get("repeat", 1)):
                    run(be, f_re if "reactants" in what else None, f_lg if "tendency" in what else None,
                        f_ja if "jacobian" in what else None)
        except BaseException as e:
            rec(dict(ev="failed", what="%s: %s: %s" % (be, type(e).__name__, e)))
    if job.get("files"):
        try:
            p.gen_numba(["reactants", "tendency"])
            shape, rows = load_sparse("loss_gain_" + p.fn + ".npz")
            rec(dict(ev="lgmatrix", shape=shape, rows=rows))
            shape, rows = load_sparse("reactants_indices_sparse_" + p.fn + ".npz")
            rec(dict(ev="rematrix", what="reactant-matrix", shape=shape, rows=rows))
            idx = np.load(p.fn + "_reactant_indices.npy", allow_pickle=True)
            sto = np.load(p.fn + "_reactants_stoich_indices.npy", allow_pickle=True)
            rows = [[[int(a), fl(b)] for a, b in zip(i, s)] if len(i) == len(s) else [] for i, s in zip(idx, sto)]
            rec(dict(ev="rematrix", what="reactant-index-file", shape=[], rows=rows))
        except BaseException as e:
            rec(dict(ev="failed", what="files: %s: %s" % (type(e).__name__, e)))
    if job.get("ro2"):
        try:
            with quiet():
                p.pe.write_RO2_indices(p.fn, p.o["species_dict2array"])
            idx = np.load(p.fn + "_RO2_indices.npy", allow_pickle=True)
            y = p.vec(p.nsp, "unit")
            rec(dict(ev="ro2", idx=[int(i) for i in idx], y=[fl(v) for v in y], sum=fl(np.sum(y[idx]))))
        except BaseException as e:
            rec(dict(ev="failed", what="RO2 indices: %s: %s" % (type(e).__name__, e)))
    return ev


KINDS = {"mech": job_mech}


def main():
    d = sys.argv[1]
    job = json.load(open(os.path.join(d, "job.json")))
    sys.path[:0] = [REPO, os.path.join(REPO, "Aerosol")]
    compat.install()
    kind = job["kind"]
    if kind in KINDS:
        fn = KINDS[kind]
    else:
        fn = getattr(__import__("work_" + kind.split(".")[0]), "job_" + kind.split(".")[1])
    try:
        res = {"events": fn(job)}
    except BaseException as e:
        import traceback
        res = {"crash": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()}
    tmp = os.path.join(d, "out.tmp")
    with open(tmp, "w") as h:
        json.dump(res, h)
    os.rename(tmp, os.path.join(d, "out.json"))


if __name__ == "__main__":
    main()
