import argparse
import importlib
import json
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
import build  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    build.setup_path()
    warnings.simplefilter("ignore")
    import vmc
    try:
        mod = importlib.import_module(a.property.lower())
    except ImportError as e:
        if getattr(e, "name", "") == a.property.lower():
            raise
        # the package of the current tree cannot be imported: nothing it promises is observable
        chk = vmc.Check(a.property, "other", a.tier, seed)
        chk.violations.append(dict(explore="import", case={}, what=f"import failed: {e}", detail="", all=[]))
        return chk.finish()
    chk = vmc.Check(a.property, mod.LEVEL, a.tier, seed, getattr(mod, "ASSUMPTIONS", ()))
    chk.rule = getattr(mod, "RULE", "")
    if a.replay:
        with open(a.replay) as fh:
            chk.replay = json.load(fh)
        chk.jobs = 1
    mod.run(chk)
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
