"""C22: the figures a run shows against Plots."""
import check_drv, check_sim
from mechs import *

OWN = {"stack", "stated-mass", "figures", "curve"}
PATHS = ["Plotting.py", "Aerosol/f2py/Fixed_yield/Plotting.py"]


def check():
    c = Check("C22")
    q = quick()
    inv = ["Tiled", "Accepted", "Rejected", "WaterUnseen", "GasUnseen"]
    k = dict(MaxNc=3, MaxBins=2, MaxSnaps=1, Mws={"100.0"}, Amounts={"0.0", "2.0E10", "-3.0E9"})
    if not q:
        k.update(Amounts={"0.0", "2.0E10", "-3.0E9", "7.0E7"})
    r = run_tlc("PlotGen", cfg(constants=k, invariants=inv), "plots", workers=8, timeout=800, heap="6g")
    c.model("PlotGen: every small snapshot", r, 1000)
    cases = []
    for nm, num, kw in [("few", 60, dict(MaxNc=5, MaxBins=4, MaxSnaps=3)), ("many", 20, dict(MaxNc=12, MaxBins=16, MaxSnaps=2))]:
        const = dict(Amounts={"0.0", "-2.0E8", "4.0E9", "7.7E10", "1.3E11", "5.2E8"}, Mws={"46.03", "132.14", "250.5", "402.1"})
        r = run_tlc("PlotGen", cfg(constants=dict(const, **kw), invariants=inv), "plot_" + nm, simulate=num * (1 if q else 8), depth=1500, seed=SEED * 97 + num, timeout=600)
        c.transitions += r.generated
        cases += [json.loads(x) for x in r.lines("GEN")]
    if not cases:
        raise MachineryError("no snapshots: " + tail(r.out))
    jobs = [dict(kind="plot.stacked", path=p, cases=cases[i::4]) for p in PATHS for i in range(4)]
    evs = []
    for j, rs in zip(jobs, work(jobs)):
        evs += [[dict(ev="snaps", p=x["p"], snaps=x["snaps"]), dict(ev="failed", what=rs["crash"])] for x in j["cases"]] if "crash" in rs else rs["events"]
    bad, g, steps = judge("TracePlot", evs, "figs")
    c.states += g; c.transitions += steps; c.traces += len(evs)
    for i, j, clause, d in bad:
        c.violation(clause, d, dict(snapshots=evs[i][0]))
    c.notes["snapshot_sets"] = len(evs)
    c.samples = [cases[0]]
    check_sim.run_kinds(c, "C22", dict(f2py=10, aerosol=10, **{"yield": 12}), OWN)
    check_drv.single(c, ["numba", "f2py", "aerosol", "yield"], dict(numba=10, f2py=3, aerosol=4, **{"yield": 4}) if q else
                     dict(numba=60, f2py=20, aerosol=24, **{"yield": 24}), SEED * 61 + 22, OWN, strict=False, figures=True)
    c.assumptions += ["a figure is what matplotlib holds when it is shown: curves with their labels, bars, and the number its title states"]
    return c.finish()
