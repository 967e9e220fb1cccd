"""C08: the saved peroxy-radical indices (every name of the MCM list, decoys, none) and the
run-time sum in whole simulations."""
import random
import check_sim
from mechs import *
from check_mech import have, SHIPPED, prefixes


def names():
    with open(os.path.join(SPEC, "ro2.json")) as h:
        return json.loads(h.readline())["names"]


def decoys(rng, ro2):
    s = set(ro2)
    out = set(["NO", "NO2", "O3", "O2", "HO2", "HO2NO2", "RO2", "H2O2", "APINENE", "CH3OH", "AIR", "H2O", "CO2", "SO2"])
    for n in rng.sample(ro2, 60):
        for d in (n + "A", n[:-1], n[1:], n + "2", n.replace("O2", "O"), n.replace("O2", "OOH"), n.lower(), n + "O2"):
            if d and d[0].isalpha() and d.isalnum() and d != "hv":
                out.add(d)
    return sorted(out - s)


def chunk_mech(rng, sp):
    """Every given species appears; order of first appearance is a random permutation."""
    rng.shuffle(sp)
    rx, i = [], 0
    while i < len(sp):
        a = [dict(c=UNIT, n=n) for n in sp[i:i + rng.choice([1, 2])]]; i += len(a)
        b = [dict(c=UNIT, n=n) for n in sp[i:i + rng.choice([0, 1, 3])]]; i += len(b)
        if rng.random() < 0.4 and i > 3:
            b.append(dict(c=UNIT, n=rng.choice(sp[:i])))
        rx.append(dict(lhs=a, rhs=b, rate="%d.0" % (len(rx) + 1)))
    t = "".join("{%d.} %s = %s : %s ;\n" % (k + 1, " + ".join(x["n"] for x in r["lhs"]), " + ".join(x["n"] for x in r["rhs"]), r["rate"])
                for k, r in enumerate(rx))
    return dict(text=t, rx=rx)


def index_part(c):
    q = quick()
    rng = random.Random(SEED)
    ro2 = names()
    dec = decoys(rng, ro2)
    mechs = []
    for rep in range(1 if q else 6):
        l = list(ro2)
        rng.shuffle(l)
        size = [40, 13, 90, 5, 200, 1][rep]
        for i in range(0, len(l), size):
            mechs.append(chunk_mech(rng, l[i:i + size] + rng.sample(dec, min(len(dec), rng.choice([0, 3, 20])))))
    mechs += [chunk_mech(rng, rng.sample(dec, rng.choice([1, 2, 12, 40]))) for _ in range(6)]      # none of them
    mechs += [chunk_mech(rng, [rng.choice(ro2)] + rng.sample(dec, k)) for k in (0, 1, 5)]
    ms, r = gen("ro2", 20 if q else 150, SEED * 31, NameSets={frozenset(rng.sample(ro2, 6) + rng.sample(dec, 5)),
                                                             frozenset(WIDE)}, MaxRx=12, MinRx=3)
    c.transitions += r.generated
    mechs += ms
    for n in SHIPPED:
        if have(n):
            m = shipped(n)
            if len(m["rx"]) > 2000:
                start = rng.randrange(0, len(m["rx"]) - 1200)
                m = shipped(n, pick=lambda N: range(start, start + 1200))
            mechs.append(m)
    jobs = [dict(kind="mech", text=m["text"], n=len(m["rx"]), seed=SEED * 77 + i, name="MECH", what=[], backends=[], ro2=True,
                 parse_event=False, prefixes=[]) for i, m in enumerate(mechs)]
    res = work(jobs)
    cases = cases_of(mechs, res)
    bad, g, steps = judge("TraceKin", cases, "ro2")
    report(c, mechs, cases, bad, check_sim.OWN["C08"])
    c.states += g; c.transitions += steps; c.traces += len(cases)
    c.notes["index_mechanisms"] = len(mechs)
    c.notes["peroxy_names_covered"] = len(ro2)
    c.notes["decoy_names"] = len(dec)


def check():
    return check_sim.check("C08", extra=index_part)
