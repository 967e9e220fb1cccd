"""Histories of driver runs in a scratch copy of the repository's scripts."""
from work_sim import *
from work_prop import database

DRIVERS = dict(numba="Gas_simulation.py", f2py="f2py/Gas_simulation_f2py.py", aerosol="Aerosol/f2py/Aerosol_simulation_f2py.py",
               **{"yield": "Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py"})


def copy_tree(to):
    import shutil
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "test", "docs", "images", "__pycache__", "mechanism_files")]
        o = os.path.join(to, os.path.relpath(d, REPO))
        os.makedirs(o, exist_ok=True)
        for f in fs:
            if f.endswith(".py"):
                shutil.copy(os.path.join(d, f), o)
    os.makedirs(os.path.join(to, "mechanism_files"), exist_ok=True)


def job_history(job):
    root = os.path.join(os.getcwd(), "PyBox")
    copy_tree(root)
    kind = job["kind_of"]
    driver = os.path.join(root, DRIVERS[kind])
    env = dict(os.environ, PATH=os.path.join(HERE, "bin") + ":" + os.environ["PATH"])
    if kind != "numba":
        import numpy.f2py, sysconfig
        o = os.path.join(os.getcwd(), "fortranobject.o")
        inc = numpy.f2py.get_include()
        subprocess.check_call(["gcc", "-c", "-fPIC", "-O0", "-w", "-I" + inc, "-I" + np.get_include(), "-I" + sysconfig.get_paths()["include"],
                               "-o", o, os.path.join(inc, "fortranobject.c")])
        env["VF_F2PY_OBJ"] = o
    out = []
    for k, r in enumerate(job["runs"]):
        if "source" in r:
            f = os.path.join(os.path.dirname(driver), r["name"] + ".txt") if kind == "yield" else \
                os.path.join(root, "mechanism_files", r["name"] + ".eqn.txt")
            with open(f, "w") as h:
                h.write(r["source"])
        if kind == "aerosol":
            with open(os.path.join(root, "Aerosol", "MCM.xml"), "w") as h:
                h.write(database(r["db"], random.Random(r["seed"])))
        j = dict(r, kind_of=kind, driver=driver, root=root, out=os.path.join(os.getcwd(), "out%d.json" % k), end_rhs=kind in ("aerosol", "yield"),
                 real=job.get("real", False))
        jf = os.path.join(os.getcwd(), "run%d.json" % k)
        with open(jf, "w") as h:
            json.dump(j, h)
        p = subprocess.run([sys.executable, os.path.join(HERE, "driver_run.py"), jf], cwd=os.path.dirname(driver), env=dict(env, PYTHONHASHSEED=str(job["seed"] % 50 * 7 + k)), capture_output=True, text=True, timeout=300)
        if os.path.exists(j["out"]):
            with open(j["out"]) as h:
                out.append(json.load(h))
        else:
            out.append(dict(events=[dict(ev="failed", what="the driver ended with %s: %s" % (p.returncode, p.stderr[-600:]))], used=[]))
    return out
