import check_drv, check_prop


def check():
    c = check_prop.check("C19")
    check_drv.few(c, dict(aerosol=5, **{"yield": 8}), {"initial-state"})
    return c.finish()
