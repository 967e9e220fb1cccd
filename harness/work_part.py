"""Generates, compiles and evaluates the partitioning code; records inputs and outputs."""
from work_sim import *


def generate(p, plain=False):
    pe = __import__("Parse_eqn_file")
    with quiet():
        if plain:       # the variant for when everything condenses
            pe.write_partitioning_section_fortran(p["nsp"] + p["nc"] * p["nb"], p["nb"], p["nsp"])
            return
        pe.write_partitioning_section_fortran_ignore(p["nsp"] + p["nc"] * p["nb"], p["nb"], p["nsp"], p["nc"], list(p["inc"]))


def evaluator(p, fn):
    F = float
    a = lambda k: np.array([F(x) for x in p[k]])
    ign = np.zeros(p["nsp"], dtype=np.int64)
    for g in range(p["nsp"]):
        if g not in p["inc"]:
            ign[g] = 1
    psat = np.power(10.0, a("psat"))
    NA = F(p["NA"])
    core = a("core")
    core_mass = (core / NA) * a("mwcore")
    lat = np.zeros(p["nc"])

    def run(y):
        cg = y[np.array(p["inc"])]
        return fn(y, core, F(p["diss"]), core_mass, a("rho"), a("rhocore"), ign, a("mw"), psat, a("D"), a("alpha"), cg, a("N"),
                  a("gamma"), lat, 9.8, 0.0, F(p["sigma"]), NA, 1.380648e-23, 461.0, F(p["R"]), F(p["T"]), 1005.0, 287.0, 2.5e3)
    return run


def job_part(job):
    p, ev = job["p"], []
    try:
        generate(p, job.get("plain", False))
        cmd = [sys.executable, os.path.join(HERE, "bin", "f2py"), "-c", "-m", "partition_f2py", "Partitioning.f90"]
        if job.get("omp"):
            cmd += ["--f90flags=-fopenmp", "-lgomp"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("compiling: " + r.stderr[-600:])
        sys.path.insert(0, os.getcwd())
        import partition_f2py
        run = evaluator(p, partition_f2py.dydt_partition)
        for y in job["states"]:
            y = np.array([float(v) for v in y])
            z = y.copy()
            soa, aw, size, out = run(z)
            ev.append(dict(ev="eval", y=flat(y), soa=fl(soa), aw=flat(aw), size=flat(size), out=flat(out), mut=not np.array_equal(y, z)))
    except BaseException as e:
        ev.append(dict(ev="failed", what="partitioning: %s: %s" % (type(e).__name__, e)))
    return ev
