"""Runs of the driver scripts: C17 (histories), C21 (set-up), and the drivers' part of C15."""
import random
from mechs import *
from check_sim import plans, species_of
from check_prop import SMI, lines

KINDS = ["numba", "f2py", "aerosol", "yield"]
NAMES = ["MCM_A", "MCM_AB"]
# setting in the scripts -> (field of the settings record, number?, value in the shipped scripts per kind)
FIELDS = {
    "temp": ("T", {"numba": "298.15", None: "288.15"}), "RH": ("RH", {None: "0.5"}), "hour_of_day": ("hour", {None: "12.0"}),
    "simulation_time": ("sim", {"numba": "10800.0", "f2py": "7200.0", None: "3600.0"}),
    "batch_step": ("batch", {"aerosol": "300.0", None: "100.0"}),
    "species_initial_conc[O3]": ("o3", {None: "18.0"}), "species_initial_conc[APINENE]": ("apinene", {None: "30.0"}),
    "num_bins": ("bins", {None: 16}), "total_conc": ("total", {None: "100"}), "std": ("std", {None: "2.2"}),
    "lowersize": ("lo", {None: "0.01"}), "uppersize": ("hi", {None: "1.0"}), "meansize": ("mean", {None: "0.2"}),
    "total_voc_mass": ("voc", {None: "30.0"}), "core_dissociation": ("diss", {None: "3.0"}), "sigma": ("sigma", {None: "72.0E-3"}),
    "core_density_array": ("rhocore", {None: "1770.0"}), "core_mw": ("mwcore", {None: "132.14"}),
}
SEL = {"vp_method": ("vp", {None: "nannoolal"}), "bp_method": ("bp", {"yield": "nannoolal", None: "joback_and_reid"}),
       "critical_method": ("critical", {None: "nannoolal"}), "density_method": ("density", {None: "girolami"}),
       "ignore_vp": ("drop", {"yield": False, None: True}), "vp_cutoff": ("cutoff", {None: "-6.0"})}
FROZEN = ["T", "sel", "bins", "lines", "db"]      # for drivers with particles these belong to the generated code


def settings_pool(c, num, seed, pool, name, **k):
    const = dict(Pool=set(pool), MaxSp=8, MinSp=2, MaxBins=5, MaxLines=6)
    const.update(k)
    r = run_tlc("DrvGen", cfg(spec="DSpec", constants=const), "drv_" + name, simulate=num, depth=100, seed=seed, timeout=600)
    c.transitions += r.generated
    out = lines(r)
    for s in out:
        if not s["sel"]["data"]:
            s["sel"]["data"] = {"": {"mw": "1.0"}}
    if not out:
        raise MachineryError("no settings: " + tail(r.out))
    return out


def model(c):
    k = dict(Names={"A", "B"}, MaxRuns=4 if quick() else 6, Cleans=True)
    r = run_tlc("Lifecycle", cfg(constants=k, invariants=["Together", "Current", "Usable"]), "life", workers=8, timeout=600, heap="6g")
    c.model("Lifecycle", r, 100)
    r = run_tlc("Lifecycle", cfg(constants=dict(k, Cleans=False), invariants=["Together"]), "lifebad", workers=4, timeout=600)
    if "Together is violated" not in r.out:
        raise MachineryError("the lifecycle model does not need clearing: " + tail(r.out))


def histories(c, n):
    r = run_tlc("Lifecycle", cfg(constants=dict(Names=set(NAMES), MaxRuns=n, Cleans=True), invariants=["Emit"]), "lifegen%d" % n, workers=1, timeout=600)
    out = lines(r)
    if not r.ok or not out:
        raise MachineryError("no histories: " + tail(r.out))
    c.states += r.distinct
    c.transitions += r.generated
    return sorted(out, key=json.dumps)


DRVNAMES = ["O3", "APINENE", "PINONIC", "NO2", "C107O2", "APINAO2", "HO2", "OH", "PINAL", "CH3O2"]


def mechanisms(c, num, seed):
    names = frozenset(DRVNAMES)
    ms, r = gen("drv", 4 * num, seed, NameSets={names}, MinRx=6, MaxRx=11, MaxL=2, MaxR=2, Wild=False, RateMode="env", CoefClasses={"none", "none", "int"})
    c.transitions += r.generated
    ms = [m for m in ms if {"O3", "APINENE", "PINONIC"} <= set(species_of(m))][:num]
    if len(ms) < 5:
        raise MachineryError("too few mechanisms fit the drivers")
    return ms


def build(kind, hist, st, ms, ps, rng, seed):
    """The job for one history, and what to judge every run by."""
    runs, heads, files, chosen = [], [], {}, []
    for i, h in enumerate(hist):
        s = dict(st[rng.randrange(len(st))])
        s["db"] = s.get("db") or []
        key = (h["name"], h["source"])
        if key not in files:
            files[key] = ms[rng.randrange(len(ms))] if kind != "yield" else st[rng.randrange(len(st))]
        if kind == "yield":
            s["sel"] = dict(s["sel"], data=files[key]["sel"]["data"])
        f = hist[h["by"] - 1]
        frozen = chosen[h["by"] - 1] if h["mode"] == "reuse" else None
        s["T"] = s["sel"]["T"]
        if frozen:
            if kind in ("aerosol", "yield"):
                for k in FROZEN:
                    s[k] = frozen[k]
        elif kind == "yield":
            s["lines"] = files[key]["lines"]
        if kind == "aerosol" and not frozen:
            # a database with the compounds of the table, oxidants and strangers
            smi = rng.sample([x for x in SMI], len(SMI)) + ["C" * n for n in range(2, 20)]
            names = sorted(s["sel"]["data"])
            s["smiles"] = {n: smi[j] for j, n in enumerate(names)}
            db = [dict(n=n, s=s["smiles"][n], miss="") for n in names]
            db += [dict(n=n, s=smi[len(names) + j], miss="") for j, n in enumerate(["OH", "O3", "STRANGER"]) if n not in names]
            db += [dict(n="NO2", s="", miss=rng.choice(["empty", "absent"]))] if "NO2" not in names else []
            rng.shuffle(db)
            s["db"] = db
        elif kind == "aerosol":
            s["smiles"] = frozen["smiles"]
        chosen.append(s)
        plan = ps[rng.randrange(len(ps))]
        m = files[(h["name"], h["expect"])] if (h["name"], h["expect"]) in files else files[key]
        val = {"files_exist": h["mode"] == "reuse", "filename": h["name"], "save_output": plan["save"], "openMP": rng.random() < 0.25, "plot_mass": rng.random() < 0.5}
        rec = dict(s, sim=plan["sim"], batch=plan["batch"])
        for k, (f_, d) in FIELDS.items():
            val[k] = rec[f_] if isinstance(rec[f_], int) else float(rec[f_])
        for k, (f_, d) in SEL.items():
            v = s["sel"][f_]
            val[k] = float(v) if f_ == "cutoff" else v
        gas = len(species_of(m)) + 1 if kind == "aerosol" else len(species_of(m)) if kind != "yield" else len({x["n"] for x in s["lines"]}) + 1
        table = {} if kind in ("numba", "f2py") else {(s["smiles"][n] if kind == "aerosol" else n): d for n, d in s["sel"]["data"].items() if n}
        if kind == "aerosol":       # everything in the database can be asked about
            anyd = next(iter(table.values()), None)
            for e in s["db"]:
                if e["s"] and e["s"] not in table and anyd:
                    table[e["s"]] = anyd
        src = files[key]
        run = dict(name=h["name"], settings=val, seed=seed * 100 + i, script=plan["script"], gas=gas, table=table, save=plan["save"], db=s["db"],
                   source=src["text"] if kind != "yield" else snapshot(src["lines"], rng))
        runs.append(run)
        sel = dict(s["sel"], data={k: v for k, v in s["sel"]["data"].items() if kind == "yield" or k not in ("",)} or {"": {"mw": "1.0"}})
        heads.append((m, dict(ev="settings", kind=kind, save=plan["save"], gone=h["refused"], sel=sel, lines=s["lines"] if kind == "yield" else [],
                              sim=plan["sim"], batch=plan["batch"],
                              **{f_: s[f_] for f_ in ("T", "RH", "hour", "o3", "apinene", "bins", "total", "std", "lo", "hi", "mean", "voc", "diss", "sigma", "rhocore", "mwcore")})))
    return dict(kind="drv.history", kind_of=kind, runs=runs, seed=seed), heads


def snapshot(ls, rng):
    return "".join("%s%s%s\n" % (x["n"], rng.choice([" ", "\t", "   "]), x["c"]) for x in ls)


def not_taken(head, used, kind):
    """Settings the script does not take from a literal keep the shipped value."""
    h = dict(head, sel=dict(head["sel"]))
    for k, (f, d) in FIELDS.items():
        if k not in used:
            h[f] = d.get(kind, d[None])
    for k, (f, d) in SEL.items():
        if k not in used:
            h["sel"][f] = d.get(kind, d[None])
    return h


def go(c, plans_, own, label, timeout=840, strict=True):
    """plans_: list of (job, heads).  Runs them and lets TLC judge every run."""
    res = work([j for j, _ in plans_], timeout=600)
    cases, where = [], []
    for (job, heads), rs in zip(plans_, res):
        evs = [dict(events=[dict(ev="failed", what=rs["crash"])], used=[])] * len(heads) if "crash" in rs else rs["events"]
        for i, ((m, head), e) in enumerate(zip(heads, evs)):
            if e["used"] or not e["events"] or e["events"][0]["ev"] != "failed":
                if not {"files_exist", "filename"} <= set(e["used"]):
                    c.notes["unsettable"] = c.notes.get("unsettable", 0) + 1
                    continue
                head = not_taken(head, e["used"], job["kind_of"])
            mech = [] if job["kind_of"] == "yield" else [dict(ev="reaction", lhs=r["lhs"], rhs=r["rhs"], rate=r["rate"], a=r["a"]) for r in m["rx"]]
            cases.append(mech + [head] + e["events"])
            where.append((job, i))
    if not cases and not strict:
        return
    if not cases:
        raise MachineryError("no driver could be run with our settings")
    bad, g, steps = judge("TraceDrv", cases, label, timeout=timeout, spec="DSpec")
    for ci, ei, clause, d in bad:
        if own is None or clause in own or clause in ("failed", "refused"):
            job, i = where[ci]
            c.violation(clause, "%s, run %d of %d: %s" % (job["kind_of"], i + 1, len(job["runs"]), d),
                        dict(kind=job["kind_of"], runs=[dict(name=r["name"], fresh=not r["settings"]["files_exist"], settings=r["settings"]) for r in job["runs"]],
                             source=job["runs"][i]["source"], run=i + 1))
    c.states += g
    c.transitions += steps
    c.traces += len(cases)
    c.notes.setdefault("driver_runs", {})
    for job, i in where:
        c.notes["driver_runs"][job["kind_of"]] = c.notes["driver_runs"].get(job["kind_of"], 0) + 1
    c.samples += [dict(kind=plans_[0][0]["kind_of"], history=[[r["name"], r["settings"]["files_exist"]] for r in plans_[0][0]["runs"]],
                       settings=plans_[0][0]["runs"][0]["settings"])]
    c.assumptions += ["a setting is a literal assigned in the driver script; it is replaced by the generated value before the script runs",
                      "UManSysProp is a table, the ODE solver package a script, f2py a shim around numpy's wrapper generator and gfortran"]
    return cases


def material(c, seed, n):
    ms = mechanisms(c, n, seed)
    st = settings_pool(c, n, seed + 1, DRVNAMES + ["X1"], "gas", MinSp=6, MaxSp=11)
    sy = [s for s in settings_pool(c, n, seed + 2, SMI, "yield") if s["lines"]]
    ps = plans(c, "drv", n, seed + 3, RunKind="tiny", MaxCalls=2)
    return ms, st, sy, ps


def single(c, kinds, counts, seed, own, strict=True, figures=False):
    """Fresh runs, one per directory."""
    rng = random.Random(seed)
    ms, st, sy, ps = material(c, seed, 40 if quick() else 200)
    h = [dict(name=NAMES[0], mode="fresh", source=1, expect=1, by=1, refused=False)]
    jobs = []
    for kind in kinds:
        for _ in range(counts[kind]):
            jobs.append(build(kind, h, sy if kind == "yield" else st, ms, ps, rng, len(jobs)))
            for r in jobs[-1][0]["runs"]:
                r["figures"] = figures
    go(c, jobs, own, "drv1", strict=strict)


def few(c, counts, own):
    """A few driver runs for a property that is not only the drivers' own."""
    k = 1 if quick() else 6
    single(c, list(counts), {kd: n * k for kd, n in counts.items()}, SEED * 59 + int(c.pid[1:]), own, strict=False)


def check_c17():
    c = Check("C17")
    model(c)
    rng = random.Random(SEED * 41)
    q = quick()
    ms, st, sy, ps = material(c, SEED * 43, 60 if q else 300)
    hs = [h for h in histories(c, 3) if h[0]["name"] == NAMES[0] and not h[0]["edited"] or not q]
    # histories in which something is at stake: a re-use, or a second generation
    hs = [h for h in hs if any(r["mode"] == "reuse" for r in h) or len({(r["name"], r["source"]) for r in h}) > 1]
    jobs = []
    for kind, n in dict(numba=64, f2py=12, aerosol=10, **{"yield": 10}).items() if q else dict(numba=400, f2py=90, aerosol=70, **{"yield": 70}).items():
        pick = hs[:] if n >= len(hs) else rng.sample(hs, n)
        for h in pick[:n]:
            jobs.append(build(kind, h, sy if kind == "yield" else st, ms, ps, rng, len(jobs)))
    # and some with the compiler itself rather than the decorators stood in for
    two = [h for h in hs if len(h) > 1 and h[0]["name"] == h[-1]["name"] and not h[-1]["edited"]] or hs
    for h in rng.sample(two, min(2 if q else 24, len(two))):
        jobs.append(build("numba", h, st, ms, ps, rng, len(jobs)))
        jobs[-1][0]["real"] = True
    c.notes["histories"] = len(jobs)
    c.notes["compiled_histories"] = sum(1 for j, _ in jobs if j.get("real"))
    go(c, jobs, None, "hist")
    return c.finish()


def check_c21():
    c = Check("C21")
    single(c, KINDS, dict(numba=40, f2py=16, aerosol=32, **{"yield": 28}) if quick() else dict(numba=200, f2py=80, aerosol=200, **{"yield": 200}), SEED * 47,
           {"initial-state", "rhs", "rhs-particle", "dimension", "jac", "times", "rows", "aerosol-row", "labels", "coverage"})
    return c.finish()
