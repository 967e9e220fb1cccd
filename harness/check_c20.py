import check_drv, check_sim


def check():
    c = check_sim.check("C20", finish=False)
    check_drv.few(c, dict(numba=6, f2py=3, aerosol=3, **{"yield": 2}), {"rhs", "rhs-particle", "jac"})
    return c.finish()
