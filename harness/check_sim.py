"""C08 (run time), C09, C10, C11, C20: whole simulations under a scripted solver against
Simulation, Kinetics, Rates and Partition."""
import math, random
from mechs import *

OWN = {
    "C08": {"rhs", "ro2-set", "ro2-once", "ro2-sum"},
    "C09": {"continuity", "coverage", "outside", "rhs", "jac"},
    "C10": {"rows", "times", "labels", "aerosol-row", "missing-output", "unasked-output"},
    "C11": {"initial-state"},
    "C20": {"rhs", "rhs-particle", "jac", "state-touched", "outside"},
}
EXPECT = {
    "numba": ["MECH_output.npy", "MECH_output_matrix.csv", "MECH_output_names.csv"],
    "f2py": ["MECH_output.npy", "MECH_output_matrix.csv", "MECH_output_names.csv"],
    "aerosol": ["MECH_y_output.pickle", "MECH_t_output.pickle", "MECH_SOA_output.pickle", "MECH_size_output.pickle", "MECHinclude_index.pickle"],
}
EXPECT["yield"] = EXPECT["aerosol"] + ["MECH_%s_output.csv" % k for k in ("y", "t", "SOA", "size")]
SPECIES = ["NO", "NO2", "O3", "OH", "HO2", "CO", "CH3O2", "C5H8", "APINENE", "APINAO2", "C107O2", "PINAL", "CH3CO3", "ISOPBO2", "BCARY", "O2", "PINONIC"]
BACKGROUND = ["O2", "AIR", "N2", "H2", "CH4", "SA", "CO2"]      # abundant or inert in the air, but species like any other here


def model(c):
    q = quick()
    k = dict(Sims={1, 2, 3, 5, 6}, Batches={1, 2, 3, 7}, Starts={0, 5, 11}, Day=12)
    if not q:
        k = dict(Sims=set(range(1, 25)), Batches=set(range(1, 13)), Starts=set(range(0, 24)), Day=24)
    r = run_tlc("MC_Simulation", cfg(constants=k, invariants=["OneIntegration", "TrueTime", "RowsAreBatches", "CoversTime"],
                                     properties=["Ends"]), "mcsim", workers=8)
    c.model("MC_Simulation", r, 100)


def plans(c, name, num, seed, **k):
    const = dict(RunKind="short", Starts={"0.0", "43200.0", "86399.5", "21600.25", "120000.0"},
                 Classes={"unit", "zeros", "phys"}, MaxCalls=3, JacToo=True)
    const.update(k)
    r = run_tlc("SimGen", cfg(constants=const), "sim_" + name, simulate=num, depth=3000, seed=seed)
    out = [json.loads(x) for x in r.lines("GEN")]
    if not out:
        raise MachineryError("no runs: " + tail(r.out))
    c.transitions += r.generated
    return out


def surroundings(rng):
    return dict(T=repr(round(rng.choice([298.15, 288.15, rng.uniform(230, 320)]), 2)),
                W=rng.choice(["0.0", "3.2E17", "1.27E17", "5.5E16"]))


def part_setup(rng, nsp, maxbins=4):
    """A particle population over nsp gas-phase compounds, water last."""
    inc = sorted(rng.sample(range(nsp - 1), rng.randint(0 if nsp < 2 else 1, min(5, nsp - 1)))) + [nsp - 1]
    nc, nb = len(inc), rng.choice([1, 2, 3, maxbins])
    f = lambda v: repr(float("%.5g" % v))
    mw = [f(rng.uniform(40, 400)) for _ in range(nc - 1)] + ["18.0"]
    D = [f(1.9 * float(m) ** (-2.0 / 3.0)) for m in mw]
    T = 298.15
    vel = [math.sqrt(8 * 8.3144598 * T / (math.pi * float(m) * 1e-3)) for m in mw]
    return dict(nsp=nsp, nc=nc, nb=nb, inc=inc, mw=mw, rho=[f(rng.uniform(800, 1900)) for _ in range(nc - 1)] + ["1000.0"],
                psat=[f(rng.uniform(-19, -6)) for _ in range(nc - 1)] + ["-1.5"], D=D,
                alpha=[f(rng.choice([0.1, 1.0, rng.uniform(0.02, 1)])) for _ in range(nc)],
                gamma=[f(3 * float(d) / (v * 1e2) * 1e-2) for d, v in zip(D, vel)],
                N=[f(10 ** rng.uniform(-1, 3)) for _ in range(nb)], core=[f(10 ** rng.uniform(7, 10)) for _ in range(nb)],
                rhocore=[f(rng.uniform(1200, 2200)) for _ in range(nb)], mwcore=[f(rng.choice([132.14, 58.44])) for _ in range(nb)],
                diss=rng.choice(["3.0", "1.0", "2.0"]), sigma="0.072", NA="6.0221409E23", R="8.3144598")


def species_of(m):
    seen = []
    for r in m["rx"]:
        for t in r["lhs"] + r["rhs"]:
            if t["n"] != "hv" and t["n"] not in seen:
                seen.append(t["n"])
    return seen


def build(c, pid, rng, kind, m, plan, i):
    job = dict(kind="sim.sim", kind_of=kind, name="MECH", seed=SEED * 1000 + i, cores=rng.choice([2, 3, 8]), **plan)
    job.update(surroundings(rng))
    setup = dict(ev="setup", kind=kind, expect=EXPECT[kind], gas=[], cond=[], part=dict(nsp=0), init=[])
    case = []
    if kind != "yield":
        sp = species_of(m)
        job["text"] = m["text"]
        case = [dict(ev="reaction", lhs=r["lhs"], rhs=r["rhs"], rate=r["rate"], a=r["a"]) for r in m["rx"]]
        pick = rng.sample(sp, rng.randint(0, len(sp)))
        pick += [s for s in sp if s in BACKGROUND and s not in pick]
        init = [[s, rng.choice(["0.0", "18.0", "30.0", repr(round(rng.uniform(0.001, 99), 3)), repr(float("%.4g" % 10 ** rng.uniform(-13, 9)))])] for s in pick]
        if kind == "aerosol":
            init.insert(rng.randint(0, len(init)), ["H2O", rng.choice(["0.0", "2.0E17"])])
        job["init"] = setup["init"] = init
        if kind == "aerosol":
            p = part_setup(rng, len(sp) + 1)
    else:
        p = part_setup(rng, rng.randint(2, 7))
        job["init"] = []
        job["gas"] = setup["gas"] = [repr(round(rng.uniform(0, 1e9), 2)) for _ in range(p["nsp"])]
    if kind in ("aerosol", "yield"):
        p["T"] = job["T"]
        job["part"] = setup["part"] = p
        job["cond"] = setup["cond"] = [repr(float("%.4g" % (10 ** rng.uniform(0, 8)))) if rng.random() < 0.7 else "0.0"
                                       for _ in range(p["nc"] * p["nb"])]
        job["end_rhs"] = True
    for k in ("sim", "batch", "start", "T", "W", "save"):
        setup[k] = job[k]
    if pid == "C20" and kind == "f2py" and i % 3 == 0:
        job["omp"] = True
    if kind == "numba" and i == 0:
        job["real"] = True
    return job, case + [setup]


def check(pid, extra=None, finish=True):
    c = Check(pid)
    model(c)
    if extra:
        extra(c)
    counts = {"C09": dict(numba=22, f2py=10, aerosol=8, **{"yield": 6}), "C10": dict(numba=20, f2py=10, aerosol=9, **{"yield": 6}),
              "C11": dict(numba=30, f2py=12, aerosol=10, **{"yield": 3}), "C20": dict(numba=26, f2py=16, aerosol=12, **{"yield": 5}),
              "C08": dict(numba=16, f2py=8, aerosol=6)}[pid]
    run_kinds(c, pid, counts, OWN[pid])
    return c.finish() if finish else c


def run_kinds(c, pid, counts, own):
    q = quick()
    rng = random.Random(SEED * 7 + int(pid[1:]))
    mode = {"C08": "ro2", "C09": "env", "C20": "mixed"}.get(pid, "const")
    k = 1 if q else 5
    n = sum(counts.values()) * k
    kw = dict(NameSets={frozenset(SPECIES), frozenset(SPECIES[3:11]), frozenset(BACKGROUND + SPECIES[6:9])}, MinRx=2, MaxRx=9, Wild=False, RateMode=mode, CoefClasses={"none", "int", "dec"})
    if pid == "C22":
        n *= 3
        kw.update(NameSets={frozenset(["APINENE", "PINONIC", "NO", "O3", "OH", "C107O2"])}, MinRx=5)
    if pid in ("C09", "C08"):
        kw.update(MaxL=1, MaxR=2, MinRx=4, CoefClasses={"none"})
    ms, r = gen("sim", 2 * n, SEED * 13, **kw)
    c.transitions += r.generated
    if pid == "C22":        # the curves drawn are those of two species
        ms = [m for m in ms if {"APINENE", "PINONIC"} <= set(species_of(m))]
        if not ms:
            raise MachineryError("no mechanism with the species that are drawn")
    rng.shuffle(ms)
    calls = dict(C10=1, C11=1, C20=6, C22=1).get(pid, 3)
    ps = plans(c, "short", 8 * n, SEED * 17, RunKind="short" if pid != "C11" else "tiny", MaxCalls=calls,
               Classes={"unit", "zeros", "phys"} | ({"negative"} if pid in ("C08", "C09") else set()))
    pl = plans(c, "long", max(4, n // 4), SEED * 19, RunKind="long", MaxCalls=1, Classes={"unit"}) if pid in ("C09", "C10") else []
    rng2 = random.Random(SEED * 29)
    lengths = {}
    for p in ps:
        lengths.setdefault((p["sim"], p["batch"]), []).append(p)
    for v in lengths.values():
        rng2.shuffle(v)
    # every kind of model gets every length of run, the peculiar ones first: past a day, and a last batch cut short
    peculiar = lambda l: (float(l[0]) <= 86400 and math.ceil(float(l[0]) / float(l[1])) <= float(l[0]) / float(l[1]) + 0.9, rng2.random())
    ls0 = sorted((p for p in ps if len(p["script"]) <= 3), key=lambda p: len(p["script"]))[:8]
    # mechanisms of many species
    many = []
    if pid in ("C09", "C10", "C11", "C20"):
        many, r = gen("simmany", 2 if q else 6, SEED * 23, NameSets={frozenset(SPECIES[:8] + ["Q%dX" % v for v in range(1, 301)])}, MinRx=120, MaxRx=140,
                      MaxL=2, MaxR=3, Wild=False, RateMode="const" if mode == "const" else "env", CoefClasses={"none", "none", "int"})
        c.transitions += r.generated
    jobs, cases = [], []
    i = 0
    for kind in counts:
        for m in many if kind != "yield" else []:
            plan = dict(ls0[i % len(ls0)], save=True)
            job, case = build(c, pid, rng, kind, m, plan, i + 1)
            job["figures"] = False
            jobs.append(job)
            cases.append(case)
            i += 1
    for kind, num in counts.items():
        order = sorted(lengths, key=peculiar)
        for j in range(num * k):
            if pl and j % 4 == 3:
                plan = pl[(i // 4) % len(pl)]
            else:
                ls = lengths[order[(j - j // 4 if pl else j) % len(order)]]
                plan = ls[i % len(ls)]
            if pid == "C10":
                plan = dict(plan, save=j % 5 != 4)
            job, case = build(c, pid, rng, kind, ms[i % len(ms)], plan, i)
            job["figures"] = pid == "C22"
            jobs.append(job)
            cases.append(case)
            i += 1
    res = work(jobs)
    for case, rs in zip(cases, res):
        case += [dict(ev="failed", what=rs["crash"])] if "crash" in rs else rs["events"]
    bad, g, steps = judge("TraceSim", cases, "sim", timeout=840)
    for ci, ei, clause, d in bad:
        if clause in own or clause in ("failed", "dimension"):
            c.violation(clause, "%s: %s" % (jobs[ci]["kind_of"], d), dict(job={k: v for k, v in jobs[ci].items() if k != "script"},
                                                                        event=cases[ci][ei] if len(json.dumps(cases[ci][ei])) < 4000 else None))
    c.states += g
    c.transitions += steps
    c.traces += len(cases)
    c.notes["simulations"] = {kd: sum(1 for j in jobs if j["kind_of"] == kd) for kd in SOLVERS_ORDER}
    for nm in ("rhs", "jac", "batch", "output"):
        c.notes[nm + "_events"] = sum(1 for cs in cases for e in cs if e["ev"] == nm)
    c.samples += [dict(kind=jobs[0]["kind_of"], sim=jobs[0]["sim"], batch=jobs[0]["batch"], script=jobs[0]["script"][:2], mechanism=jobs[0].get("text", "")[:300])]
    c.assumptions += ["the ODE solver package is replaced by a scripted solver that asks for tendencies and Jacobians at arbitrary states and moments of a batch and ends it in an arbitrary state",
                      "generated Fortran is built with numpy's own f2py wrapper generator and gfortran -O1"]


SOLVERS_ORDER = ["numba", "f2py", "aerosol", "yield"]
