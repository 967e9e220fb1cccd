"""Calls the property calculation, the size distribution and the database and snapshot readers."""
from work_sim import *
import stubprop


def job_size(job):
    ev = []
    sys.path.insert(0, os.path.join(REPO, "Aerosol"))
    import Size_distributions
    for d in job["ds"]:
        try:
            with quiet():
                N, x = Size_distributions.lognormal(d["n"], *[float(d[k]) for k in ("total", "M", "s", "lo", "hi")])
            ev.append(dict(ev="size", d=d, N=flat(N), x=flat(x)))
        except BaseException as e:
            ev.append(dict(ev="failed", what="size distribution %s: %s: %s" % (d, type(e).__name__, e)))
    return ev


def job_props(job):
    ev, us, table = [], [], {}
    known = lambda u: {} if not u["data"] else {s: d for s, d in u["data"].items() if s}
    for i, u in enumerate(job["us"]):
        # every set-up has structures of its own; some are looked at again under other conditions, in the same process
        smiles = {s: "C" * (k + 1) + "O" * (i + 1) for k, s in enumerate(sorted(known(u)))}
        table.update({smiles[s]: d for s, d in known(u).items()})
        v = job["us"][(i + 1) % len(job["us"])]
        again = [] if i % 2 else [dict(u, T=v["T"])] if i % 4 else [dict(u, **{k: v[k] for k in ("T", "vp", "bp", "critical", "density", "drop", "cutoff")})]
        us += [(x, smiles) for x in ([u] + again if i % 3 else again + [u])]
    stubprop.install(table)
    sys.path.insert(0, os.path.join(REPO, "Aerosol"))
    try:
        import Property_calculation as pc
    except BaseException as e:
        return [dict(ev="failed", what="property module: %s: %s" % (type(e).__name__, e))]
    for i, (u, smiles) in enumerate(us):
        ev.append(dict(u, ev="setup"))
        rng = random.Random(job["seed"] + i)
        try:
            mk = list(smiles.items())
            rng.shuffle(mk)
            mol = {v: compat.Molecule(v) for _, v in mk}
            n = len(u["order"])
            with quiet():
                r = pc.Pure_component1(n, dict(enumerate(u["order"])), {s: k for k, s in enumerate(u["order"])}, mol, dict(mk), float(u["T"]),
                                       u["vp"], u["bp"], u["critical"], u["density"], u["drop"], float(u["cutoff"]))
            ints = lambda a: [int(v) for v in a]
            ev.append(dict(ev="props", include=ints(r["include_index"]), ignore=ints(r["ignore_index"]), flags=flat(r["ignore_index_fortran"]),
                           density=flat(r["y_density_array"]), mw=flat(r["y_mw"]), vp=flat(r["sat_vp"]), oc=flat(r["o_c"]), hc=flat(r["h_c"]),
                           dh=flat(r["Delta_H"]), lh=flat(r["Latent_heat_gas"])))
            mw = [18.0] + [float(rng.choice(["46.03", "92.09", "300.5", "18.0"])) for _ in range(rng.randrange(6) if n < 100 else 2 * n)]
            with quiet():
                k = pc.Pure_component2(len(mw), mw, 8.3144598, float(u["T"]))
            ev.append(dict(ev="kinetic", mw=flat(mw), T=u["T"], R="8.3144598", D=flat(k["DStar_org"]), vel=flat(k["mean_them_vel"]),
                           gamma=flat(k["gamma_gas"]), alpha=flat(k["alpha_d_org"])))
        except BaseException as e:
            ev.append(dict(ev="failed", what="properties: %s: %s" % (type(e).__name__, e)))
    return ev


def database(db, rng):
    """A species database laid out like the MCM's XML export."""
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<mechanism>\n<species_defs>\n']
    for i, e in enumerate(db):
        att = ['species_name="%s"' % e["n"], 'species_number="%d"' % (i + 1)]
        rng.shuffle(att)
        kids = {"": ["<smiles>%s</smiles>" % e["s"]], "empty": ["<smiles></smiles>"], "absent": [], "other": ["<formula>C</formula>"]}[e["miss"]]
        kids = kids + rng.choice([[], ["<inchi>InChI=1S/%s</inchi>" % e["n"]], ["<mass>%d.1</mass>" % (20 + i)]])
        rng.shuffle(kids)
        sep = rng.choice(["", "\n  "])
        out.append("<species %s>%s%s</species>%s" % (" ".join(att), "".join(sep + k for k in kids), sep and "\n", rng.choice(["", "\n"])))
    return "".join(out) + "\n</species_defs>\n</mechanism>\n"


def job_attach(job):
    ev = []
    pe = __import__("Parse_eqn_file")
    for i, a in enumerate(job["cases"]):
        rng = random.Random(job["seed"] + i)
        ev.append(dict(ev="setup", species=a["species"], db=[dict(n=e["n"], s=e["s"]) for e in a["db"]], lines=a["lines"]))
        try:
            with open("db.xml", "w") as h:
                h.write(database(a["db"], rng))
            with quiet():
                o = pe.extract_smiles_species(dict(species_dict=dict(enumerate(a["species"]))), "db.xml")
            ev.append(dict(ev="attach", smiles=[[str(k), str(v)] for k, v in o["SMILES_dict"].items()],
                           objects=[[str(k), v.smiles] for k, v in o["Pybel_object_dict"].items()]))
        except BaseException as e:
            ev.append(dict(ev="failed", what="attaching structures: %s: %s" % (type(e).__name__, e)))
        try:
            with open("snap.txt", "w") as h:
                for ln in a["lines"]:
                    h.write("%s%s%s%s\n" % (ln["n"], rng.choice(["  ", " ", "\t"]), ln["c"], rng.choice(["", "   "])))
            with quiet():
                o = pe.extract_species("snap.txt")
            prs = lambda d: [[str(k), str(v)] for k, v in d.items()]
            ev.append(dict(ev="snapshot", n=int(o["species_number"]), dict=prs(o["species_dict"]), dict2array=prs(o["species_dict2array"]),
                           array=[str(s) for s in o["smiles_array"]], smiles=prs(o["SMILES_dict"]),
                           objects=[[str(k), v.smiles] for k, v in o["Pybel_object_dict"].items()], concs=flat(o["concentration_array"]),
                           byobject=[[[k.smiles, fl(v)] for k, v in o[w].items()] for w in ("concentration_dict", "Pybel_object_activity")]))
        except BaseException as e:
            ev.append(dict(ev="failed", what="reading a snapshot: %s: %s" % (type(e).__name__, e)))
    return ev
