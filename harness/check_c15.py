import check_drv, check_prop
from common import SEED, quick


def check():
    c = check_prop.check("C15")
    check_drv.single(c, ["aerosol", "yield"], dict(aerosol=16, **{"yield": 8}) if quick() else dict(aerosol=120, **{"yield": 60}), SEED * 53,
                     {"initial-state", "rhs-particle", "dimension", "labels"})
    return c.finish()
