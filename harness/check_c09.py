import check_drv, check_sim


def check():
    c = check_sim.check("C09", finish=False)
    check_drv.few(c, dict(numba=8, f2py=3, aerosol=3, **{"yield": 2}), {"rhs", "coverage", "continuity"})
    return c.finish()
