"""C06 (rate expressions) and C07 (named constants, photolysis): generated rate modules
against Rates."""
import random, re
from common import *
from mechs import shipped
from check_mech import have, SHIPPED

LEAVES = {"wild", "plain", "int", "name", "input", "J", "overT", "Tover"}
OPS = {"+", "-", "*", "/", "**", "neg", "EXP", "LOG", "LOG10", "SQRT", "ABS", "DLOG", "DSQRT", "DABS"}


def gen_rates(name, num, seed, **k):
    const = dict(Ops=OPS, Leaves=LEAVES, MaxOps=7, MaxStack=3, MaxLen=85, NumExprs=12)
    const.update(k)
    r = run_tlc("RateGen", cfg(constants=const), "rg_" + name, simulate=num, depth=3000, seed=seed)
    out = [json.loads(x) for x in r.lines("GEN")]
    if not out:
        raise MachineryError("no expressions: " + tail(r.out))
    return [e for o in out for e in o], r


def enum_rates(name, **k):
    const = dict(Ops=OPS, Leaves=LEAVES, MaxOps=1, MaxStack=2, MaxLen=85, NumExprs=1)
    const.update(k)
    r = run_tlc("RateGen", cfg(constants=const), "re_" + name, workers=4)
    if not r.ok:
        raise MachineryError(tail(r.out))
    out = [json.loads(x) for x in r.lines("GEN")]
    return [e for o in out for e in o], r


# ------------------------------------------- reader of rate text (for shipped files)
_tok = re.compile(r"\s*(?:((?:\d+\.?\d*|\.\d+)(?:[EeDd][+-]?\d+)?)|([A-Za-z][A-Za-z0-9]*)|(\*\*|[-+*/()]))")


def read_rate(s):
    toks, p = [], 0
    while p < len(s):
        m = _tok.match(s, p)
        if not m:
            raise ValueError(s)
        toks.append(m.groups())
        p = m.end()
    pos = [0]

    def peek(): return toks[pos[0]] if pos[0] < len(toks) else (None, None, None)

    def eat(o=None):
        t = peek(); pos[0] += 1
        if o and t[2] != o: raise ValueError(s)
        return t

    def expr():
        if peek()[2] in ("-", "+"):
            o = eat()[2]; a = term()
            a = dict(o="neg", a=a) if o == "-" else a
        else:
            a = term()
        while peek()[2] in ("+", "-"):
            o = eat()[2]; a = dict(o=o, a=a, b=term())
        return a

    def term():
        a = power()
        while peek()[2] in ("*", "/"):
            o = eat()[2]; a = dict(o=o, a=a, b=power())
        return a

    def power():
        a = atom()
        if peek()[2] == "**":
            eat()
            if peek()[2] == "-":
                eat(); return dict(o="**", a=a, b=dict(o="neg", a=power()))
            return dict(o="**", a=a, b=power())
        return a

    def atom():
        t = eat()
        if t[0]: return dict(o="lit", t=t[0])
        if t[1]:
            n = t[1]
            if n == "J":
                eat("("); k = int(eat()[0]); eat(")"); return dict(o="J", n=k)
            u = n.upper().lstrip("D") if n.lower() in ("dlog", "dsqrt", "dabs") else n
            if u in ("EXP", "LOG", "LOG10", "SQRT", "ABS"):
                eat("("); a = expr(); eat(")"); return dict(o=u, a=a)
            return dict(o="var", t=n)
        if t[2] == "(":
            a = expr(); eat(")"); return a
        raise ValueError(s)
    a = expr()
    if pos[0] != len(toks): raise ValueError(s)
    return a


def shipped_rates(c):
    seen = {}
    for n in SHIPPED:
        if have(n):
            for x in shipped(n)["rx"]:
                seen.setdefault(x["rate"], None)
    out = []
    for r in sorted(seen):
        try:
            out.append(dict(rate=r, a=read_rate(r)))
        except (ValueError, TypeError, IndexError):
            raise MachineryError("cannot read shipped rate " + r)
    return out


def mech_text(rates):
    return "".join("{%d.} NO = NO2 : %s ;\n" % (i + 1, r) for i, r in enumerate(rates))


def inputs(rng, n):
    base = [dict(T=298.15, W=3.2e17, R=2.5e8, tt=43200.0), dict(T=262.3, W=0.0, R=0.0, tt=1800.0)]
    out = base[:n]
    while len(out) < n:
        out.append(dict(T=round(rng.uniform(205, 325), 2), W=rng.choice([0.0, 1.0e15, 4.7e16, 6.1e17]),
                        R=rng.choice([0.0, 1.3e6, 5.5e9]), tt=round(rng.uniform(0, 5 * 86400), 1)))
    return out


def run_groups(c, groups, jobs, name):
    res = work(jobs)
    cases = []
    for g, r in zip(groups, res):
        case = [dict(ev="expr", rate=e["rate"], a=e["a"]) for e in g]
        case += [dict(ev="failed", what=r["crash"])] if "crash" in r else r["events"]
        cases.append(case)
    bad, gen, steps = judge("TraceRates", cases, name)
    c.states += gen; c.transitions += steps; c.traces += len(cases)
    c.notes["expressions"] = c.notes.get("expressions", 0) + sum(map(len, groups))
    c.notes["evaluations_judged"] = c.notes.get("evaluations_judged", 0) + sum(
        len(e["out"]) for k in cases for e in k if e["ev"] == "rates")
    return cases, bad


def check_c06():
    c = Check("C06")
    q = quick()
    rng = random.Random(SEED)
    r = run_tlc("RateConv", cfg(constants=dict(MaxConv=4), invariants=["Preserved"]), "conv")
    c.model("RateConv", r, 5)
    hists = sorted(set("".join(re.findall(r'"([FN])"', h)) for h in r.lines("HIST")))
    # the code is generated and evaluated after each step, so only the longest histories need running
    hists = [h for h in hists if h != "N" and not any(g != h and g.startswith(h) for g in hists)]
    exprs = []
    for nm, k in [("numbers", dict(Leaves={"number"}, Ops={"*"}, MaxOps=0, MaxStack=1)),
                  ("lits", dict(Leaves={"wild", "plain", "int", "input"}, Ops={"*"})),
                  ("fun", dict(Leaves={"overT", "Tover"}, MaxOps=2, MaxStack=1, Ops=OPS if not q else {"neg", "EXP", "**", "SQRT", "LOG", "LOG10"})),
                  ("names", dict(Leaves={"name", "J", "int"}, Ops={"SQRT", "ABS", "neg", "DABS", "LOG"}, MaxStack=1, MaxOps=1 if q else 2))]:
        e, r = enum_rates(nm, **k)
        c.states += r.distinct; c.transitions += r.generated
        if nm != "numbers" and q and len(e) > 260:
            e = rng.sample(sorted(e, key=lambda x: x["rate"]), 260)
        exprs += e
    c.notes["enumerated_expressions"] = len(exprs)
    e, r = gen_rates("mix", 40 if q else 500, SEED * 10)
    c.transitions += r.generated
    exprs += e
    for j, (nm, num, k) in enumerate([
            ("deep", 25 if q else 250, dict(MaxOps=12, MaxLen=92, NumExprs=8, Ops=OPS - {"ABS", "DABS", "neg"})),
            ("poly", 20 if q else 200, dict(Ops={"+", "-", "*", "/", "**"}, MaxOps=8)),
            ("chain", 10 if q else 100, dict(Ops={"*", "+"}, Leaves={"fn", "J"}, MaxOps=8, MaxStack=2, MaxLen=108)),
            ("exps", 20 if q else 200, dict(Ops={"*", "EXP", "+", "neg"}, Leaves={"wild", "overT", "Tover", "input", "name"}, MaxOps=6))]):
        e, r = gen_rates(nm, num, SEED * 10 + 1 + j, **k)
        c.transitions += r.generated
        exprs += e
    seen, uniq = set(), []
    for e in exprs:
        if e["rate"] not in seen:
            seen.add(e["rate"]); uniq.append(e)
    for e in uniq:      # the reader and the generator must agree on what text means
        if read_rate(e["rate"]) is None:
            raise MachineryError("reader")
    c.samples = [e["rate"] for e in uniq[::max(1, len(uniq) // 5)]]
    rng.shuffle(uniq)
    groups, p = [], 0
    while p < len(uniq):
        n = rng.choice([1, 3, 9, 24, 40, 40])
        groups.append(uniq[p:p + n]); p += n
    sh = shipped_rates(c)
    if q:
        sh = rng.sample(sh, min(300, len(sh)))
    groups += [sh[i:i + 150] for i in range(0, len(sh), 150)]
    c.notes["shipped_expressions"] = len(sh)
    jobs = []
    hists = sorted(hists, key=lambda h: (len(h), "N" not in h))
    short = hists[:2] * 3 + hists if q else hists
    runs = [(g, h) for i, g in enumerate(groups) for h in ("N", short[i % len(short)])]
    groups = [g for g, h in runs]
    for i, (g, h) in enumerate(runs):
        jobs.append(dict(kind="rates.rates", text=mech_text([e["rate"] for e in g]), history=h,
                         omp=[[False], [True], [False]][i % 3], cores=[8, 2, 5, 16, 3][i % 5],
                         inputs=inputs(rng, 4 if q else 8)))
    cases, bad = run_groups(c, groups, jobs, "c06")
    for i, j, clause, d in bad:
        c.violation(clause, d, dict(rates=[e["rate"] for e in groups[i]], history=jobs[i]["history"]))
    c.assumptions = ["integer-by-integer division and literal-only arithmetic outside single-precision range are not generated",
                     "tolerance: four times the error bound the specification propagates for single-precision Fortran literals"]
    return c.finish()


NAMES = ["M", "N2", "O2", "KRONO2", "KRO2NO", "KRO2HO2", "KAPHO2", "KAPNO", "KRO2NO3", "KNO3AL", "KDEC", "KROSEC",
         "KALKOXY", "KALKPXY", "KROPRIM", "KCH3O2", "K298CH3O2", "K14ISOM1", "KFPAN", "KBPAN", "KBPPN"] + \
        ["KMT%02d" % i for i in range(1, 19)]
JS = list(range(1, 9)) + list(range(11, 25)) + list(range(31, 36)) + [41] + list(range(51, 58)) + [61]


def check_c07():
    c = Check("C07")
    q = quick()
    rng = random.Random(SEED)
    r = run_tlc("MC_Photo", cfg(spec="Spec", invariants=["Daily", "Night", "NonNegative"]), "photo", workers=4)
    c.model("MC_Photo: time of day on a grid over three days", r, 50)
    es = [dict(rate=n, a=dict(o="var", t=n)) for n in NAMES] + \
         [dict(rate="J(%d)" % n, a=dict(o="J", n=n)) for n in JS] + \
         [dict(rate=n, a=dict(o="var", t=n)) for n in ("TEMP", "H2O", "RO2")]
    groups, jobs = [], []
    nb = 8 if q else 32
    per = 30 if q else 90
    for b in range(nb):
        g = list(es)
        rng.shuffle(g)
        ins = []
        for k in range(per):
            ins.append(dict(T=rng.choice([180.0, 273.15, 298.0, 298.15, 300.0, 350.0]) if k % 7 == 0 else round(rng.uniform(190, 340), 3),
                            W=rng.choice([0.0, 1e14, 3.1e16, 5.9e17, 2.1e18]), R=rng.choice([0.0, 7.7e8]),
                            tt=float(round((k + rng.random()) * 86400.0 / per + 86400 * rng.choice([0, 0, 1, 2, 9, 40]), 1))))
        if b == 0:
            ins += [dict(T=298.15, W=1e17, R=0.0, tt=float(t)) for t in (0, 43200, 86400, 86400 + 43200, 2 * 86400)]
        groups.append(g)
        jobs.append(dict(kind="rates.rates", text=mech_text([e["rate"] for e in g]), history="FN", omp=[b % 2 == 1],
                         cores=[8, 2, 5, 3][b % 4], inputs=ins, real=(b == 0)))
    cases, bad = run_groups(c, groups, jobs, "c07")
    for i, j, clause, d in bad:
        c.violation(clause, d, dict(rates=[e["rate"] for e in groups[i]]))
    c.samples = [jobs[0]["inputs"][0], jobs[0]["inputs"][1]]
    c.assumptions = ["the MCM definitions written down in Rates.tla (MCM v3.3.1 generic coefficients, AtChem2 photolysis parameterisation, day 150, 51.51N 0.13E)"]
    return c.finish()
