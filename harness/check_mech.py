"""C01-C05, C08 (index files), C18: the mechanism pipeline against Mechanism/Kinetics."""
import random
import check_sim
from mechs import *

OWN = {
    "C01": {"count", "reactants", "products", "reactant-list", "rate-text"},
    "C02": {"numbering", "inverse-numbering"},
    "C03": {"reactant-product"},
    "C04": {"tendency"},
    "C05": {"derivative"},
    "C08": {"ro2-set", "ro2-once", "ro2-sum"},
    "C18": {"loss-gain-matrix", "matrix-shape", "reactant-matrix", "reactant-index-file"},
}
HUB = 700        # longest statements: the shipped mechanisms have OH in thousands of reactions
SHIPPED = ["MCM_APINENE", "MCM_mixed_test", "MCM_BCARY", "MCM_test"]


def have(name):
    return os.path.exists(os.path.join(REPO, "mechanism_files", name + ".eqn.txt"))


def model(c):
    """Exhaustive check of the specification itself."""
    deep = not quick()
    k = dict(Names={"A", "O2", "hv"}, Coefs={UNIT, 2 * UNIT}, MaxRx=1, MaxTerms=2, ProbeVals={1, 2, 3})
    inv = ["Numbering", "Covered", "NoPhoton", "FirstAppearance"]
    if c.pid in ("C03", "C04", "C05", "C18"):
        inv += ["JacIsDerivative", "Conservation", "BackgroundInert", "Uncoupled"]
        r = run_tlc("MC_Kinetics", cfg(constants=k, invariants=inv, properties=["AppendOnly"]), "mc1", workers=8)
        c.model("MC_Kinetics: 1 reaction, 2+2 terms, coefficients 1,2", r, 100)
        k = dict(Names={"A", "B"}, Coefs={UNIT, 2 * UNIT}, MaxRx=2, MaxTerms=1, ProbeVals={1, 2})
        r = run_tlc("MC_Kinetics", cfg(constants=k, invariants=inv, properties=["AppendOnly"]), "mc2", workers=8)
        c.model("MC_Kinetics: 2 reactions, 1+1 terms", r, 100)
        if deep:
            k = dict(Names={"A", "B", "C"}, Coefs={UNIT, 2 * UNIT}, MaxRx=1, MaxTerms=3, ProbeVals={1, 2})
            r = run_tlc("MC_Kinetics", cfg(constants=k, invariants=inv, properties=["AppendOnly"]), "mc3", workers=8, timeout=800)
            c.model("MC_Kinetics: 1 reaction, 3+3 terms, 3 species", r, 1000)
    else:
        k = dict(Names={"A", "B", "hv"}, Coefs={UNIT, UNIT // 2}, MaxRx=2 if not deep else 3, MaxTerms=2 if not deep else 1, ProbeVals={1})
        if not deep:
            k.update(Coefs={UNIT})
        r = run_tlc("MC_Kinetics", cfg(constants=k, invariants=inv, properties=["AppendOnly"]), "mc1", workers=8, timeout=800)
        c.model("Mechanism design", r, 50)


def enumerated(c):
    """Every one-reaction file in a small scope, merged into longer files."""
    rng = random.Random(SEED)
    ones, r = enum("a", NameSets={frozenset(["NO", "NO2"])}, CoefClasses={"none"}, MaxL=2, MaxR=2)
    c.states += r.distinct; c.transitions += r.generated
    twos, r = enum("b", NameSets={frozenset(["O3", "HO2"])}, CoefClasses={"int", "none"}, MaxL=2, MaxR=1)
    c.states += r.distinct; c.transitions += r.generated
    c.notes["enumerated_reactions"] = len(ones) + len(twos)
    out = merge(ones, 40, rng) + merge(twos, 60, rng)
    # species that take part in hundreds of reactions
    hub = merge(ones + twos, HUB, rng)[0]
    hub["profile"] = "hub"
    return out + [hub]


def generated(c):
    q = quick()
    out = []
    s = SEED * 100
    for name, num, kw in [
        ("wild", 40 if q else 300, {}),
        ("wide", 20 if q else 150, dict(NameSets={frozenset(WIDE)}, MaxRx=14, MinRx=6, RateMode="mixed")),
        ("plainrep", 20 if q else 150, dict(NameSets={frozenset(["NO", "HO2", "O3"])}, CoefClasses={"none"}, Wild=False, MaxL=3, MaxR=4, MinRx=3, MaxRx=8)),
        ("products", 6 if q else 60, dict(NameSets={frozenset(WIDE)}, MinRx=3, MaxRx=8, MaxL=2, MaxR=9)),
        ("back", 16 if q else 120, dict(NameSets={frozenset(BACK)}, MinRx=3, MaxRx=8, CoefClasses={"none", "int"}, Wild=False)),
        ("long", 4 if q else 30, dict(NameSets={frozenset(WIDE)}, MinRx=60, MaxRx=130, CoefClasses={"none", "none2", "int"}, Wild=False, MaxL=2)),
        ("many", 8 if q else 60, dict(NameSets={frozenset(WIDE[:14])}, MinRx=5, MaxRx=9, MaxL=7, MaxR=2, CoefClasses={"none"}, MaxOrder=9, Photons=False)),
        ("order", 10 if q else 60, dict(MinRx=2, MaxRx=6, MaxL=2, MaxR=2, CoefClasses={"dec", "int"}, MaxOrder=13)),
        ("huge", 0 if q else 3, dict(NameSets={frozenset(WIDE)}, MinRx=300, MaxRx=500, CoefClasses={"none"}, Wild=False, MaxL=2)),
    ]:
        if not num:
            continue
        kw = dict(kw)
        if "none2" in kw.get("CoefClasses", ()):
            kw["CoefClasses"] = {"none", "int"}
        ms, r = gen(name, num, s, **kw)
        s += 1
        c.transitions += r.generated
        for m in ms:
            m["profile"] = name
        out += ms
    return out


def ships(c):
    q = quick()
    out = []
    for n in SHIPPED:
        if not have(n):
            continue
        m = shipped(n)
        m["profile"] = "shipped " + n
        if len(m["rx"]) > (400 if q else 1500) and c.pid != "C01" or len(m["rx"]) > 2500:
            rng = random.Random(SEED)
            size = 350 if q else 1200
            start = rng.randrange(0, max(1, len(m["rx"]) - size))
            keep = set(range(start, start + size))
            m = shipped(n, pick=lambda N: [i for i in keep if i < N])
            m["profile"] = "shipped part of " + n
        out.append(m)
    return out


def check(pid):
    c = Check(pid)
    model(c)
    mechs = enumerated(c) + generated(c) + ships(c)
    q = quick()
    jobs = []
    for i, m in enumerate(mechs):
        job = dict(kind="mech", text=m["text"], n=len(m["rx"]), seed=SEED * 1000 + i, name="MECH")
        big = len(m["rx"]) > 150
        probes = [["unit", "unit"], ["zeros", "signed"], ["phys", "unit"]]
        if big and q:
            probes = probes[:1]
        cores = [8, 2, 3, 5, 16, 1, 4, 7][i % 8]
        if pid in ("C01", "C02"):
            job["prefixes"] = prefixes(m) if len(m["rx"]) <= 20 else prefixes(m, 37 if not big else 500)
        if i % 3 == 1 and pid not in ("C01", "C08"):
            job["warm"] = next((o["text"] for o in mechs[i + 1:] + mechs[:i] if len(o["rx"]) <= 60 and o["text"] != m["text"]), None)
        if pid == "C02":
            job.update(what=["reactants", "tendency", "jacobian"], probes=probes[:1], ro2=True,
                       backends=["numba"] + (["fortran"] if i % 5 == 0 or not q else []), files=True)
        if pid == "C03":
            job.update(what=["reactants"], probes=probes, cores=cores,
                       backends=["numba", "fortran"] + (["fortran-omp"] if i % 2 == 0 or not q else []))
        if pid == "C04":
            job.update(what=["tendency"], probes=probes, cores=cores,
                       backends=["numba", "fortran"] + (["fortran-omp"] if i % 2 == 0 or not q else []))
        if pid == "C05":
            job.update(what=["jacobian"], probes=[p for p in probes if p[0] != "zeros"], cores=cores,
                       backends=["numba", "fortran"] + (["fortran-omp"] if i % 2 == 0 or not q else []))
        if pid == "C18":
            job.update(what=["tendency", "reactants"], probes=probes[:1], backends=["numba"], files=True)
        if pid in ("C03", "C04", "C05") and i == len(mechs) // 2 and m.get("profile") != "long":
            job["backends"] = job["backends"] + ["numba-real"]
        jobs.append(job)
    res = work(jobs)
    cases = cases_of(mechs, res)
    bad, gen_, steps = judge("TraceKin", cases, "kin", timeout=840)
    own = set(OWN[pid])
    if pid == "C02":
        own |= {"reactant-product", "tendency", "derivative", "loss-gain-matrix", "reactant-matrix",
                "reactant-index-file", "ro2-set", "matrix-shape"}
    report(c, mechs, cases, bad, own)
    c.states += gen_
    c.transitions += steps
    c.traces += len(cases)
    c.notes["events_judged"] = steps
    c.notes["reactions_driven"] = sum(len(m["rx"]) for m in mechs)
    c.notes["backend_runs"] = sum(len(j.get("backends", [])) for j in jobs)
    prof = {}
    for m in mechs:
        k = m.get("profile", "enumerated")
        prof[k] = prof.get(k, 0) + 1
    c.notes["mechanisms_by_profile"] = prof
    c.samples = [mechs[len(mechs) // 3]["text"][:600], mechs[0]["text"][:300]]
    c.assumptions = ["the generated Numba functions are executed without JIT compilation (numba.jit leaves a function's meaning unchanged), one of them with the real Numba",
                     "floating-point results are compared at relative tolerance 1e-6 (Fortran literals are single precision)"]
    if pid == "C02":        # the labels and indices of whole simulations
        check_sim.run_kinds(c, "C02", dict(numba=5, f2py=3), {"labels", "ro2-set", "ro2-once"})
    return c.finish()
