"""C12, C13: the generated partitioning code against Partition; C12 also in whole simulations."""
import check_prop, check_sim
from mechs import *

OWN = {"C12": {"conserved", "untouched", "organic-mass"}, "C13": {"radius", "water-activity", "flux", "direction"}}


def model(c):
    inv = ["Conserved", "Untouched", "LayoutIsABijection", "WaterLast"]
    r = run_tlc("MC_Partition", cfg(constants=dict(MaxSp=3, MaxBins=2, Fluxes={0, 1, 3}, Depth=2), invariants=inv), "mcpart", workers=8)
    c.model("MC_Partition: 3 compounds, 2 bins, 2 steps", r, 100)
    k = dict(MaxSp=6, MaxBins=4, Fluxes={1}, Depth=1) if quick() else dict(MaxSp=4, MaxBins=3, Fluxes={0, 2}, Depth=1)
    r = run_tlc("MC_Partition", cfg(constants=k, invariants=inv), "mcpart2", workers=8, timeout=800, heap="8g")
    c.model("MC_Partition: %(MaxSp)d compounds, %(MaxBins)d bins" % k, r, 50)


def setups(c, name, num, seed, **k):
    const = dict(MinSp=1, MaxSp=6, MinBins=1, MaxBins=6, MaxStates=6 if quick() else 16)
    const.update(k)
    r = run_tlc("PartGen", cfg(constants=const), "part_" + name, simulate=num, depth=20000, seed=seed, timeout=800)
    out = [json.loads(x) for x in r.lines("GEN")]
    if not out:
        raise MachineryError("no set-ups: " + tail(r.out))
    c.transitions += r.generated
    return out


def plain(ps):
    """Every second set-up in which everything condenses is for the simpler generator."""
    n, out = 0, []
    for p in ps:
        full = p["p"]["nc"] == p["p"]["nsp"]
        n += full
        out.append(full and n % 2 == 1)
    return out


def check(pid):
    c = Check(pid)
    q = quick()
    rng = random.Random(SEED * 5 + int(pid[1:]))
    model(c)
    s = SEED * 41 + int(pid[1:])
    ps = setups(c, "mix", 60 if q else 500, s) + setups(c, "one", 16 if q else 60, s + 1, MaxSp=7, MaxBins=1) \
        + setups(c, "wide", 6 if q else 30, s + 2, MaxSp=14, MaxBins=16, MaxStates=2) \
        + setups(c, "huge", 2 if q else 8, s + 3, MinSp=66, MaxSp=90, MinBins=17, MaxBins=24, MaxStates=1)
    pl = plain(ps)
    c.notes["all_condense_variant"] = sum(pl)
    jobs = [dict(kind="part.part", p=p["p"], states=p["states"], plain=pl[i], omp=i % 2 == 1, env=dict(OMP_NUM_THREADS=str(rng.choice([1, 2, 3]))))
            for i, p in enumerate(ps)]
    res = work(jobs)
    cases = [[dict(ev="part", p=p["p"])] + ([dict(ev="failed", what=r["crash"])] if "crash" in r else r["events"]) for p, r in zip(ps, res)]
    bad, g, steps = judge("TracePart", cases, "part", timeout=840)
    for i, j, clause, d in bad:
        if clause in OWN[pid] or clause in ("failed", "dimension", "state-touched"):
            c.violation(clause, d, dict(setup=ps[i]["p"], event=str(cases[i][j])[:4000]))
    c.transitions += g
    c.traces += len(cases)
    c.notes["evaluations"] = sum(len(p["states"]) for p in ps)
    c.samples = [ps[0]["p"]]
    if pid == "C12":        # the step inside the simulation's right-hand side
        check_sim.run_kinds(c, "C12", dict(aerosol=8, **{"yield": 5}), {"rhs-particle", "aerosol-row"})
    if pid == "C13":        # ... and with the kinetic properties the simulation is given
        check_sim.run_kinds(c, "C13", dict(aerosol=6, **{"yield": 5}), {"rhs-particle"})
        check_prop.run(c, {"kinetic"}, check_prop.props(c)[:3])
    c.assumptions += ["particle states have a core and finite values; the single-precision Pi of the Fortran code is within tolerance (1e-6)",
                     "f2py is replaced by numpy's own wrapper generator and gfortran -O1"]
    return c.finish()
