import check_drv, check_sim


def check():
    c = check_sim.check("C11", finish=False)
    check_drv.few(c, dict(numba=8, f2py=3, aerosol=5, **{"yield": 4}), {"initial-state"})
    return c.finish()
