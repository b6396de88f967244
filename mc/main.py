"""Usage: main.py PROPERTY quick|thorough [--replay FILE] [--only FAMILY,...]"""

import importlib
import os
import sys
import warnings

REPO = os.environ.get("ZB_REPO", "/repo")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np  # noqa

np.seterr(all="ignore")


def main(argv):
    prop, tier = argv[0], argv[1]
    import zoidberg

    where = os.path.realpath(zoidberg.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where
    from mc import engine

    mod = importlib.import_module(f"checks.{prop.lower()}")
    fams = mod.families(tier)
    warnings.simplefilter("ignore")
    if "--replay" in argv:
        return engine.replay(fams, argv[argv.index("--replay") + 1])
    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1].split(",")
    return engine.run_check(
        prop, fams, tier, assumptions=getattr(mod, "ASSUMPTIONS", ()), only=only
    )


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
