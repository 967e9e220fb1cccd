"""C15 (property calculation), C16 (size distribution), C19 (structures and snapshots)."""
from mechs import *

OWN = {"C15": {"classes", "alignment", "kinetic"}, "C16": {"sizes", "numbers", "total"},
       "C19": {"structure", "snapshot-number", "concentration"}}
POOL = ["NO", "NO2", "APINENE", "APINAO2", "APINBOOH", "C107O2", "C107OOH", "PINAL", "C96O2", "HCHO", "PINONIC", "BCARY", "X1", "CO"]
SMI = ["C", "c", "CC(=O)OO", "O=CCC1CC(C(=O)C)C1(C)C", "C[C@H]1CC", "OO", "[O-][N+](=O)O", "CC(C)=C", "C1CCCCC1", "c1ccccc1", "C/C=C/C", "C/C=C\\C", "O", "CCO", "OCC"]


def chunks(l, k):
    return [l[i:i + k] for i in range(0, len(l), k)]


def lines(r):
    return [json.loads(x) for x in r.lines("GEN")]


def sizes(c):
    inv = ["OnePerBin", "TotalKept", "NonNegative", "Increasing", "InRange", "EvenInLog", "OneMode"]
    k = dict(Ns={1, 2, 3, 8, 16, 33, 100}, Totals={"100.0", "2.5", "1.0E6"}, Medians={"0.2", "0.013", "3.0"}, Widths={"2.2", "1.2", "3.9", "1.04", "30.0"},
             Los={"0.01", "0.0015", "0.11"}, Ratios={"100.0", "1.7", "12.5"})
    if not quick():
        k.update(Ns=set(range(1, 41)), Totals={"100.0", "2.5", "1.0E6", "1.0E-3"}, Widths={"2.2", "1.2", "3.9", "1.6", "1.04", "30.0"}, Ratios={"100.0", "1.7", "12.5", "1000.0"})
    r = run_tlc("SizeGen", cfg(constants=k, invariants=inv), "size", workers=4, timeout=800, heap="6g")
    c.model("SizeGen: every population of a grid", r, 100)
    ds = lines(r)
    # only populations the distribution has room for: some number in every requested range
    return [dict(kind="prop.size", ds=d) for d in chunks(ds, 120)]


def big(us, k):
    """A few set-ups with hundreds of species, put together from the others."""
    out = []
    for first in us[::len(us) // 3][:3]:
        part = [u for u in us if u["data"]][:k] if not out else [u for u in us if u["data"]][-k * len(out):][:k]
        out.append(dict(first, order=["%sx%d" % (s, i) for i, u in enumerate(part) for s in u["order"]],
                        data={"%sx%d" % (s, i): d for i, u in enumerate(part) for s, d in u["data"].items()}))
    return out


def props(c):
    inv = ["Split", "Done", "CutOff", "Attached", "OneEach", "OnlyOurs"]
    k = dict(Names={"A", "B", "C"}, Structs={"C", "CC"}, MaxSp=2, MaxDb=2) if quick() else dict(Names={"A", "B", "C"}, Structs={"C", "CC"}, MaxSp=3, MaxDb=3)
    r = run_tlc("MC_Selection", cfg(constants=k, invariants=inv), "mcsel", workers=8, timeout=800, heap="6g")
    c.model("MC_Selection", r, 100)
    us = []
    for name, num, kw in [("few", 60, dict(MaxSp=5, MinSp=0)), ("many", 40, dict(MaxSp=14, MinSp=8))]:
        r = run_tlc("SelGen", cfg(constants=dict(dict(Pool=set(POOL)), **kw)), "sel_" + name, simulate=(5 if quick() else 40) * num, depth=60,
                    seed=SEED * 91 + len(us), timeout=800)
        c.transitions += r.generated
        us += lines(r)
    us += big(us, 40)
    for u in us:
        if not u["data"]:
            u["data"] = {"": 0}     # an empty function reads back as a sequence
    return [dict(kind="prop.props", us=u, seed=SEED * 1000 + i) for i, u in enumerate(chunks(us, 25))]


def attach(c):
    inv = ["Split", "Done", "CutOff", "Attached", "OneEach", "OnlyOurs"]
    k = dict(Names={"A", "B", "C"}, Structs={"C", "CC"}, MaxSp=2, MaxDb=3)
    r = run_tlc("MC_Selection", cfg(constants=k, invariants=inv), "mcsel", workers=8, timeout=800, heap="6g")
    c.model("MC_Selection", r, 100)
    out = []
    for name, num, kw in [("few", 60, dict(MaxSp=4, MaxDb=4, MaxLines=4)), ("many", 40, dict(MaxSp=13, MaxDb=16, MaxLines=16))]:
        r = run_tlc("AttachGen", cfg(constants=dict(dict(Pool=set(POOL), Smiles=set(SMI)), **kw)), "att_" + name, simulate=(5 if quick() else 40) * num,
                    depth=80, seed=SEED * 93 + len(out), timeout=800)
        c.transitions += r.generated
        out += lines(r)
    n = len(out)
    for k in range(0, n - 40, n // 2 - 21):     # a few with hundreds of species and lines
        part = out[k:k + 40]
        tag = lambda x, i: x if x in ("OH", "HO2", "O3") else "%sx%d" % (x, i)
        db, seen = [], set()
        for i, a in enumerate(part):
            for e in a["db"]:
                nm = tag(e["n"], i)
                if nm not in seen:
                    seen.add(nm)
                    db.append(dict(e, n=nm, s=e["s"] and e["s"] + "C" * i))
        out.append(dict(species=[tag(x, i) for i, a in enumerate(part) for x in a["species"]], db=db,
                        lines=[dict(x, n=x["n"] + "C" * (i % 13)) for i, a in enumerate(part) for x in a["lines"]]))
    return [dict(kind="prop.attach", cases=u, seed=SEED * 1000 + i) for i, u in enumerate(chunks(out, 25))]


def run(c, own, jobs):
    res = work(jobs)
    cases = [[dict(ev="failed", what=r["crash"])] if "crash" in r else r["events"] for r in res]
    bad, g, steps = judge("TraceProp", cases, "prop", timeout=840)
    for i, j, clause, d in bad:
        if clause in own or clause == "failed":
            st = [e for e in cases[i][:j + 1] if e["ev"] == "setup"]
            c.violation(clause, d, dict(setup=st[-1] if st else None, event=cases[i][j]))
    c.transitions += steps
    c.traces += sum(e["ev"] not in ("setup", "failed") for x in cases for e in x)
    c.samples += [next(e for e in cases[0] if e["ev"] != "setup")]


def check(pid):
    c = Check(pid)
    jobs = dict(C15=props, C16=sizes, C19=attach)[pid](c)
    if not jobs or not any(j.get("ds") or j.get("us") or j.get("cases") for j in jobs):
        raise MachineryError("nothing generated")
    run(c, OWN[pid], jobs)
    return c
