"""C14: generated parallel code against Omp: no conflicting units, each unit once, the sequential result."""
import check_part
from mechs import *


def model(c):
    inv, k = ["SameAsSequential", "OnceAtMost", "OnceInTheEnd"], dict(MaxReads=2, OnlySafe=True)

    def mc(name, text, privates, heap="6g", props=("Ends",), **kw):
        t = cfg(constants=dict(k, **kw), invariants=inv, properties=props, extra="CONSTANT Privates = %s\n" % privates)
        c.model("MC_Omp: " + text, run_tlc("MC_Omp", t, "mc_" + name, workers=8, timeout=800, heap=heap), 1000)
    mc("single", "single, 2 threads, 2 units of up to 2 assignments", "{{}}", Mode="single", T={1, 2}, Locs={1, 2, 3}, MaxStmt=2, NUnits=2, props=())
    mc("loop", "loop, 2 threads, private locations", "{{}, {1}}", Mode="loop", T={1, 2}, Locs={1, 2}, MaxStmt=2, NUnits=2)
    if not quick():
        mc("three", "single, 3 threads, 3 units", "{{}}", Mode="single", T={1, 2, 3}, Locs={1, 2, 3}, MaxStmt=1, NUnits=3, props=())
    # the condition is needed: without it the model leaves something else
    t = cfg(constants=dict(k, Mode="single", T={1, 2}, Locs={1, 2}, MaxStmt=1, NUnits=2, OnlySafe=False), invariants=inv, extra="CONSTANT Privates = {{}}\n")
    r = run_tlc("MC_Omp", t, "mc_unsafe", workers=4, timeout=300)
    if r.ok or "SameAsSequential is violated" not in r.out:
        raise MachineryError("the model with conflicting units should fail: " + tail(r.out))


def schedules(c, num, seed, **k):
    const = dict(MaxT=6, MaxK=8, Extra=3)
    const.update(k)
    r = run_tlc("OmpGen", cfg(constants=const), "omp_sched", simulate=num, depth=400, seed=seed, timeout=300)
    out = [json.loads(x) for x in r.lines("GEN")]
    if not out:
        raise MachineryError("no schedules: " + tail(r.out))
    c.transitions += r.generated
    return out


def check():
    c = Check("C14")
    q = quick()
    model(c)
    rng = random.Random(SEED * 7 + 14)
    sch = schedules(c, 300 if q else 1500, SEED * 61 + 1)

    def some(k, lo=2):
        ss = [dict(s, seed=rng.randrange(10 ** 6)) for s in rng.sample([s for s in sch if s["threads"] >= lo], k)]
        for s in ss[k // 2:]:
            s["preempt"] = rng.choice([1, 2, 5, 17])
        return ss
    mechs = []
    for name, num, kw in [("small", 14, dict(MaxRx=6)), ("mid", 22, dict(MaxRx=14, MinRx=4, NameSets={frozenset(WIDE)})),
                          ("back", 6, dict(MaxRx=8, NameSets={frozenset(BACK)})), ("big", 4, dict(MaxRx=40, MinRx=25, NameSets={frozenset(WIDE)}))]:
        ms, r = gen(name, num if q else 5 * num, SEED * 300 + len(mechs), **kw)
        mechs += ms
        c.transitions += r.generated
    for n in ["MCM_APINENE", "MCM_BCARY"]:
        mechs.append(shipped(n, pick=lambda k: rng.sample(range(k), 60 if q else 150)))
    jobs = []
    for m in mechs:
        big = len(m["rx"]) > 20
        jobs.append(dict(kind="omp.mech", text=m["text"], n=len(m["rx"]), seed=rng.randrange(10 ** 6), cores=rng.choice([1, 2, 3, 4, 5, 8, 13]),
                         what=["rates", "reactants", "tendency", "jacobian"], scheds=some(2 if big else 4), gomp=1 if big else 2,
                         env=dict(OMP_NUM_THREADS=str(rng.choice([2, 3, 5, 8])))))
    ps = check_part.setups(c, "mix", 16 if q else 100, SEED * 71, MaxStates=2) \
        + check_part.setups(c, "wide", 3 if q else 20, SEED * 71 + 1, MaxSp=9, MaxBins=12, MaxStates=2)
    for p, pl in zip(ps, check_part.plain(ps)):
        b = p["p"]["nb"]
        jobs.append(dict(kind="omp.part", p=p["p"], plain=pl, states=p["states"], gomp=2, env=dict(OMP_NUM_THREADS=str(rng.choice([2, 3, 5, 8]))),
                         scheds=[dict(s, threads=t) for s, t in zip(some(4), [b, max(2, b - 1), 2, b + 1])]))
    res = work(jobs)
    cases = [[dict(ev="failed", what=r["crash"])] if "crash" in r else r["events"] for r in res]
    bad, g, steps = judge("TraceOmp", cases, "omp", timeout=840)
    for i, j, clause, d in bad:
        c.violation(clause, d, dict(job={k: v for k, v in jobs[i].items() if k in ("text", "p", "cores", "scheds")}, event=_cut(cases[i][j])))
    c.transitions += g
    c.traces += len(cases)
    c.notes["runs"] = sum(e["ev"] == "run" for x in cases for e in x)
    c.notes["claims"] = sum(e["ev"] == "claim" for x in cases for e in x)
    c.samples = [dict(scheds=jobs[0]["scheds"], mechanism=jobs[0]["text"][:1000])]
    c.assumptions += ["units are identified and accesses recorded in unoptimised builds; threads go on one at a time (sequential consistency), switched at work-sharing points and at single accesses",
                     "the stand-in runtime implements OpenMP's single, sections and loops as libgomp does; some runs use libgomp itself"]
    return c.finish()


def _cut(e):
    return json.dumps(e)[:4000]
