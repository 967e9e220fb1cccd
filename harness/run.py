"""run.py ID : run the check of one property (tier from VERIF_TIER)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import common
pid = sys.argv[1]
if pid in ("C01", "C02", "C03", "C04", "C05", "C18"):
    import check_mech
    common.main(lambda: check_mech.check(pid))
else:
    mod = __import__("check_" + pid.lower())
    common.main(mod.check)
