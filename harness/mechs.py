"""Mechanisms to drive the code with: generated by TLC from MechGen, or shipped."""
import json, os, random, re
from common import *

UNIT = 3000000          # Kinetics!Unit
SMALL = ["NO", "NO2", "O3", "HO2", "CH3O2"]
WIDE = ["NO", "NO2", "NO3", "N2O5", "O3", "OH", "HO2", "H2O2", "CO", "HCHO", "CH3O2", "C5H8", "APINENE",
        "APINAO2", "C107O2", "PINAL", "C96OOH", "X", "A1B2C3", "ISOPBO2", "BCARY", "CH3CO3", "N",
        "Cl", "ClO", "CO2", "Co", "no2_s", "hvX", "Hg0", "N2", "M", "H2", "SA"]
BACK = ["O2", "H2O", "AIR", "NO", "NO2", "O", "O3", "N2"]


def gen(name, num, seed, timeout=300, **c):
    """Behaviours of MechGen as (text, reactions) pairs, by TLC simulation."""
    const = dict(MaxRx=6, MinRx=1, MaxL=3, MaxR=3, NameSets={frozenset(SMALL)},
                 CoefClasses={"none", "int", "dec"}, Wild=True, Photons=True, RateMode="const", MaxOrder=5)
    const.update(c)
    r = run_tlc("MechGen", cfg(constants=const), "gen_" + name, simulate=num, depth=4000, seed=seed, timeout=timeout)
    out, seen = [], set()
    for ln in r.lines("GEN"):
        j = json.loads(ln)
        if j["text"] not in seen:
            seen.add(j["text"])
            out.append(j)
    if not out:
        raise MachineryError("no mechanisms generated: " + tail(r.out))
    return out, r


def enum(name, timeout=300, **c):
    """Every behaviour of MechGen with one reaction in a small scope (breadth first)."""
    const = dict(MaxRx=1, MinRx=1, MaxL=2, MaxR=2, NameSets={frozenset(["NO", "NO2"])},
                 CoefClasses={"none", "int"}, Wild=False, Photons=True, RateMode="const", MaxOrder=5)
    const.update(c)
    r = run_tlc("MechGen", cfg(constants=const), "enum_" + name, workers=4, timeout=timeout)
    if not r.ok:
        raise MachineryError("enum: " + tail(r.out))
    out, seen = [], set()
    for ln in r.lines("GEN"):
        j = json.loads(ln)
        if j["text"] not in seen:
            seen.add(j["text"])
            out.append(j)
    out.sort(key=lambda j: j["text"])
    return out, r


def merge(ones, size, rng=None):
    """Concatenate one-reaction files into mechanisms of the given size."""
    ones = list(ones)
    if rng:
        rng.shuffle(ones)
    res = []
    for i in range(0, len(ones), size):
        part = ones[i:i + size]
        res.append(dict(text="".join(p["text"] for p in part), rx=[x for p in part for x in p["rx"]]))
    return res


def prefixes(m, step=1):
    """Prefix texts of a mechanism: cut after the k-th ';' of the reactions."""
    ends = [i + 1 for i, ch in enumerate(m["text"]) if ch == ";"]
    res = []
    if len(ends) != len(m["rx"]):
        return res
    for k in range(1, len(ends)):
        if k % step == 0:
            res.append([k, m["text"][:ends[k - 1]]])
    return res


_term = re.compile(r"^\s*([A-Za-z][A-Za-z0-9]*)\s*$")


def shipped(name, limit=None, pick=None):
    """A shipped mechanism, read by an independent line reader; these files hold no
    coefficients, which is asserted here."""
    text = open(os.path.join(REPO, "mechanism_files", name + ".eqn.txt"), "r", errors="replace").read()
    return shipped_text(text, limit, pick)


def shipped_text(text, limit=None, pick=None):
    rx, pieces = [], []
    for m in re.finditer(r"\{[^{}]*\}([^{};]*);", text, re.S):
        body = m.group(1)
        eqn, rate = body.split(":", 1)
        lhs, rhs = eqn.split("=", 1)

        def side(s):
            ts = []
            for t in s.split("+"):
                if not t.strip():
                    continue
                g = _term.match(t.replace("\t", ""))
                if not g:
                    raise MachineryError("unexpected term %r" % t)
                ts.append(dict(c=UNIT, n=g.group(1)))
            return ts
        rx.append(dict(lhs=side(lhs), rhs=side(rhs), rate="".join(rate.split())))
        pieces.append(m.group(0))
    if pick is not None:
        sel = sorted(pick(len(rx)))
        rx = [rx[i] for i in sel]
        pieces = [pieces[i] for i in sel]
        text = "\n".join(pieces) + "\n"
    elif limit is not None and limit < len(rx):
        rx, pieces = rx[:limit], pieces[:limit]
        text = "\n".join(pieces) + "\n"
    return dict(text=text, rx=rx)


def cases_of(mechs, results):
    """Interleave the reactions of each mechanism with the recorded events."""
    cases = []
    for m, res in zip(mechs, results):
        if "crash" in res:
            evs = [[len(m["rx"]), dict(ev="failed", what=res["crash"])]]
        else:
            evs = res["events"]
        case = []
        evs = sorted(evs, key=lambda t: t[0])
        q = 0
        for k in range(0, len(m["rx"]) + 1):
            if k > 0:
                case.append(dict(ev="reaction", **m["rx"][k - 1]))
            while q < len(evs) and evs[q][0] == k:
                case.append(evs[q][1])
                q += 1
        cases.append(case)
    return cases


def report(check, mechs, cases, bad, own):
    """Turn failing clauses into violations; `own` is the set of clauses of the property.
    'failed' and 'dimension' always count: the code must handle every valid mechanism."""
    for i, j, clause, detail in bad:
        if clause in own or clause in ("failed", "dimension"):
            check.violation(clause, detail, dict(mechanism=mechs[i]["text"][:20000], event=_short(cases[i][j])))


def _short(e):
    s = json.dumps(e)
    return e if len(s) < 4000 else s[:4000]
