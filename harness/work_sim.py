"""Runs the repository's run_simulation under a scripted solver and records what passed
between the two.  Knows nothing about the right values."""
import csv, glob, importlib.util, pickle
from worker import *
from concurrent.futures import ThreadPoolExecutor

SOLVERS = dict(numba="ODE_solver.py", f2py="f2py/ODE_solver.py", aerosol="Aerosol/f2py/ODE_solver.py",
               **{"yield": "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"})


def load(path, name, extra=None):
    d = os.path.dirname(os.path.join(REPO, path))
    if d not in sys.path:
        sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, path))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def flat(v):
    return [fl(x) for x in np.asarray(v, dtype=float).reshape(-1)]


class Script:
    """What the solver does, and the record of it."""
    def __init__(self, job, n_of):
        self.job, self.ev, self.k = job, [], 0
        self.rng = random.Random(job["seed"])
        self.n_of = n_of
        self.end_rhs = job.get("end_rhs", False)

    def state(self, c, y0):
        return np.array(self.job_state(c, len(y0)))

    def install(self):
        me = self

        class Explicit_Problem:
            def __init__(self, rhs=None, y0=None, t0=0.0, *a, **k):
                if rhs is not None:
                    self.rhs = rhs
                self.y0, self.t0 = y0, t0
                self.name = k.get("name", "")

        class Solver:
            def __init__(self, problem):
                self.problem = problem
                self.y0 = np.array(problem.y0, dtype=float).reshape(-1)
                self.t0 = float(problem.t0)
                self.usejac = True

            def simulate(self, tfinal, *a, **k):
                return me.batch(self, float(tfinal))
        a = types.ModuleType("assimulo")
        s = types.ModuleType("assimulo.solvers")
        s.__getattr__ = lambda k: Solver
        p = types.ModuleType("assimulo.problem")
        p.Explicit_Problem = Explicit_Problem
        p.__getattr__ = lambda k: Explicit_Problem
        a.solvers, a.problem = s, p
        sys.modules.update({"assimulo": a, "assimulo.solvers": s, "assimulo.problem": p})

    def rhs(self, sim, t, y):
        a = y.copy()
        out = sim.problem.rhs(t, a)
        self.ev.append(dict(ev="rhs", t=fl(t - sim.t0), y=flat(y), out=flat(out), mut=not np.array_equal(a, y)))

    def batch(self, sim, tfinal):
        dur = tfinal - sim.t0
        self.ev.append(dict(ev="batch", y0=flat(sim.y0)))
        steps = self.job["script"][self.k] if self.k < len(self.job["script"]) else [dict(o="end", q=4, c="unit")]
        self.k += 1
        if self.k > len(self.job["script"]) + 3:
            raise RuntimeError("the simulation does not stop")
        for s in steps:
            if s["o"] != "end":
                t, y = sim.t0 + dur * s["q"] / 4.0, self.job_state(s["c"] if s["o"] != "jac" or s["c"] != "zeros" else "unit", len(sim.y0))
                if s["o"] == "rhs":
                    self.rhs(sim, t, y)
                elif sim.usejac and getattr(sim.problem, "jac", None) is not None:
                    a = y.copy()
                    m = np.asarray(sim.problem.jac(t, a), dtype=float)
                    self.ev.append(dict(ev="jac", t=fl(t - sim.t0), y=flat(y), rows=sparse_rows(m)))
            else:
                y = self.job_state(s["c"], len(sim.y0))
                if self.end_rhs:
                    self.rhs(sim, tfinal, y)
                self.ev.append(dict(ev="end", dur=fl(dur), y=flat(y)))
                mid = self.job_state("unit", len(sim.y0))
                return [sim.t0, sim.t0 + dur / 2, tfinal], np.array([sim.y0, mid, y])

    def job_state(self, c, n):
        r, gas = self.rng, self.n_of["gas"]
        out = []
        for i in range(n):
            if c == "neg" and r.random() < 0.3:
                v = -r.uniform(1e-9, 1e-2)
            elif i >= gas:      # condensed phase: never empty bins of zero size, there is a core
                v = 0.0 if c == "zeros" and r.random() < 0.3 else (10 ** r.uniform(4, 10) if c == "phys" else 10 ** r.uniform(0, 6))
            elif c == "negative" and r.random() < 0.4:      # gas only
                v = -r.uniform(0.1, 3.0)
            elif c == "phys":
                v = 10 ** r.uniform(4, 12)
            elif c == "zeros" and r.random() < 0.4:
                v = 0.0
            else:
                v = r.uniform(0.3, 6.0)
            # every second state has all the digits a double can have
            out.append(float("%.4g" % v) if self.k % 2 else v)
        return np.array(out)


def f2py_build(mods, par=True):
    import importlib.machinery, importlib.util
    path = os.path.join(HERE, "bin", "f2py")
    ld = importlib.machinery.SourceFileLoader("f2pyshim", path)
    jobs = [[sys.executable, path, "-c", "-m", m, f] for m, f in mods]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs):
            if r.returncode:
                raise RuntimeError("f2py: " + r.stderr[-600:])
    sys.path.insert(0, os.getcwd())
    importlib.invalidate_caches()


def matrix(m):
    return [[fl(v) for v in np.asarray(row).reshape(-1)] for row in np.asarray(m)]


def read_csv(fn):
    with open(fn) as h:
        rows = list(csv.reader(h))
    return dict(ev="output", what="csv", columns=rows[0][1:], index=[r[0] for r in rows[1:]],
                rows=[[fl(float(v)) for v in r[1:]] for r in rows[1:]])


def no_plots():
    import matplotlib.pyplot as plt
    plots = []
    plt.plot = lambda *a, **k: plots.append([flat(v) for v in a[:2] if not isinstance(v, str)])
    plt.show = plt.legend = plt.title = plt.xlabel = plt.ylabel = lambda *a, **k: None
    return plots


def figure_events(s, figs, asked):
    s.ev.append(dict(ev="output", what="figures", n=len(figs.seen), asked=bool(asked)))
    for i, f in enumerate(figs.seen):
        s.ev.append(dict(f, ev="output", what="figure", f=i + 1))


def read_outputs(s, kind, fn):
    out = s.ev.append

    def pick(f):
        with open(f, "rb") as h:
            return pickle.load(h)
    if kind in ("numba", "f2py"):
        out(dict(ev="output", what="matrix", rows=matrix(np.load(fn + "_output.npy"))))
        out(read_csv(fn + "_output_matrix.csv"))
        with open(fn + "_output_names.csv") as h:
            out(dict(ev="output", what="names", pairs=[r for r in csv.reader(h) if r]))
    else:
        out(dict(ev="output", what="pickle", rows=matrix(pick(fn + "_y_output.pickle"))))
        out(dict(ev="output", what="times", t=flat(pick(fn + "_t_output.pickle"))))
        out(dict(ev="output", what="soa", rows=matrix(pick(fn + "_SOA_output.pickle"))))
        out(dict(ev="output", what="sizes", rows=matrix(pick(fn + "_size_output.pickle"))))
        out(dict(ev="output", what="include", index=[int(i) for i in pick(fn + "include_index.pickle")]))
        if kind == "yield":
            out(read_csv(fn + "_y_output.csv"))
            out(dict(ev="output", what="times", t=[r[0] for r in read_csv(fn + "_t_output.csv")["rows"]]))
            out(dict(ev="output", what="soa", rows=read_csv(fn + "_SOA_output.csv")["rows"]))
            out(dict(ev="output", what="sizes", rows=read_csv(fn + "_size_output.csv")["rows"]))


def job_sim(job):
    kind, fn = job["kind_of"], job.get("name", "MECH")
    part = job.get("part")
    p = Pipeline(dict(job, name=fn))
    gas = 0
    if kind != "yield":
        p.parse(job["text"])
        gas = p.nsp
    n_of = dict(gas=gas + (1 if kind == "aerosol" else 0) if kind != "yield" else part["nsp"])
    s = Script(job, n_of)
    s.install()
    ro2 = None
    if kind != "yield":
        with quiet():
            p.pe.write_RO2_indices(fn, p.o["species_dict2array"])
        ro2 = np.load(fn + "_RO2_indices.npy")
    what = ["rates", "reactants", "tendency", "jacobian"]
    if kind == "numba":
        p.gen_numba(what)
        for w in what:
            sys.modules[PYFILES[w][:-3]] = py_module(PYFILES[w], job.get("real", False))
    else:
        mods = []
        if kind != "yield":
            if kind == "aerosol":
                what = what[:3]
            p.gen_fortran(what, job.get("omp", False))
            mods = [(dict(rates="rate_coeff_f2py", reactants="reactants_conc_f2py", tendency="loss_gain_f2py",
                          jacobian="jacobian_f2py")[w], FILES[w]) for w in what]
        if part:
            with quiet():
                p.pe.write_partitioning_section_fortran_ignore(part["nsp"] + part["nc"] * part["nb"], part["nb"], part["nsp"],
                                                               part["nc"], list(part["inc"]))
            mods.append(("partition_f2py", "Partitioning.f90"))
        f2py_build(mods)
    F = float
    inp = {}
    ic = {k: F(v) for k, v in job["init"]}
    if kind != "yield":
        inp.update(species_dict=p.o["species_dict"], species_dict2array=dict(p.o["species_dict2array"]), species_initial_conc=ic,
                   equations=p.o["max_equations"])
    if part:
        a = lambda k: np.array([F(x) for x in part[k]])
        ign = np.zeros(part["nsp"])
        for g in range(part["nsp"]):
            if g not in part["inc"]:
                ign[g] = 1.0
        ign[-1] = 0.0
        inp.update(num_species=part["nsp"], num_species_condensed=part["nc"], y_density_array_asnumpy=a("rho"), y_mw=a("mw"),
                   sat_vp=[F(x) for x in part["psat"]], Delta_H=[0.0] * part["nc"], Latent_heat_asnumpy=np.zeros(part["nc"]),
                   DStar_org_asnumpy=a("D"), alpha_d_org_asnumpy=a("alpha"), gamma_gas_asnumpy=a("gamma"), Updraft=0.0,
                   GRAV=9.8, Rv=461.0, Ra=287.0, R_gas=F(part["R"]), R_gas_other=8.2057e-5, cp=1005, sigma=F(part["sigma"]),
                   NA=F(part["NA"]), kb=1.380648e-23, Lv_water_vapour=2.5e3, ignore_index=[g for g in range(part["nsp"] - 1) if g not in part["inc"]],
                   ignore_index_fortran=ign, ycore_asnumpy=a("core"), core_density_array_asnumpy=a("rhocore"),
                   y_cond_initial=[F(x) for x in job["cond"]], num_bins=part["nb"], core_molw_asnumpy=a("mwcore"),
                   core_dissociation=F(part["diss"]), N_perbin=a("N"), include_index=list(part["inc"]))
        if kind == "yield":
            inp.update(species_dict={i: "S%d" % i for i in range(part["nsp"])},
                       species_dict2array={"S%d" % i: i for i in range(part["nsp"])}, y_gas_initial=[F(x) for x in job["gas"]])
        else:
            inp["species_dict2array"]["H2O"] = part["nsp"] - 1
    args = dict(filename=fn, save_output=job["save"], start_time=F(job["start"]), temp=F(job["T"]), RH=0.5, H2O=F(job["W"]),
                input_dict=inp, simulation_time=F(job["sim"]), batch_step=F(job["batch"]))
    if kind != "yield":
        args["RO2_indices"] = ro2
    if part:
        args.update(PInit=98000, y_cond=inp["y_cond_initial"])
    if kind == "aerosol":
        args["plot_mass"] = job["seed"] % 2 == 0
    before = set(os.listdir("."))
    figs = None
    if job.get("figures"):
        from work_plot import Figures
        figs = Figures()
    plots = no_plots() if figs is None else []
    try:
        m = load(SOLVERS[kind], "ODE_solver" if kind != "yield" else "ODE_solver_fixedyield")
        with quiet():
            ret = m.run_simulation(**args)
    except BaseException as e:
        import traceback
        s.ev.append(dict(ev="failed", what="%s: %s: %s %s" % (kind, type(e).__name__, e, traceback.format_exc()[-400:])))
        return s.ev
    s.ev.append(dict(ev="over"))
    new = sorted(f for f in set(os.listdir(".")) - before if f.startswith(fn) or f.endswith((".npy", ".npz", ".pickle", ".csv")))
    s.ev.append(dict(ev="output", what="files", files=new))
    out = s.ev.append
    if figs is not None:
        figure_events(s, figs, kind == "f2py" or args.get("plot_mass", False))
    for v in plots:         # in the Fortran variants the plot is where the time axis shows
        out(dict(ev="output", what="plotted", t=v[0], n=len(v[1]) if len(v) > 1 else 0))
    try:
        if ret is not None:
            out(dict(ev="output", what="returned-times", t=flat(ret[0])))
            out(dict(ev="output", what="returned-matrix", rows=matrix(ret[1])))
        if job["save"]:
            read_outputs(s, kind, fn)
    except BaseException as e:
        out(dict(ev="failed", what="reading the output: %s: %s" % (type(e).__name__, e)))
    return s.ev
