import check_drv, check_prop


def check():
    c = check_prop.check("C16")
    check_drv.few(c, dict(aerosol=6, **{"yield": 6}), {"initial-state", "rhs-particle"})
    return c.finish()
