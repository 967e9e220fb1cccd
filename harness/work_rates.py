"""Executes generated rate modules; knows nothing about the right values."""
from worker import *


def job_rates(job):
    """Parse, convert along the given history, generate, evaluate at the given inputs."""
    ev = []
    p = Pipeline(job)
    p.parse(job["text"])
    d = dict(p.o["rate_dict"])
    n = len(d)
    omp_of = job.get("omp", [False])
    done = ""
    for h in job["history"]:
        done += h
        try:
            with quiet():
                d = (p.rc.convert_rate_mcm_fortran if h == "F" else p.rc.convert_rate_mcm_numba)(d)
            if h == "N":
                with quiet():
                    p.pe.write_rate_file_numba(p.fn, d)
                for real in ([False, True] if job.get("real") else [False]):
                    m = py_module("Rate_coefficients_numba.py", real)
                    for i in job["inputs"]:
                        out = m.evaluate_rates(i["tt"], i["R"], i["W"], i["T"], np.zeros(n), np.zeros(63))
                        ev.append(rec(done + (" numba-jit" if real else " numba"), i, out))
            else:
                for omp in omp_of:
                    with quiet():
                        p.pe.write_rate_file_fortran(p.fn, d, omp)
                    lib = Fortran(["Rate_coefficients.f90"], "rates_%d_%s" % (len(done), omp), omp)
                    for i in job["inputs"]:
                        out = guarded(n)
                        lib.call("evaluate_rates", float(i["R"]), float(i["W"]), float(i["T"]), float(i["tt"]), out)
                        ev.append(rec(done + (" fortran-omp" if omp else " fortran"), i, unguard(out, n)))
        except BaseException as e:
            ev.append(dict(ev="failed", what="%s: %s: %s" % (done, type(e).__name__, e)))
    return ev


def rec(be, i, out):
    return dict(ev="rates", be=be, T=fl(i["T"]), W=fl(i["W"]), R=fl(i["R"]), tt=fl(i["tt"]), out=[fl(v) for v in out])
