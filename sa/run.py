"""python3 -m sa.run C01 [--tier quick|thorough] [--debug]"""
import importlib
import os
import sys

from . import core, gurobi_model, cvxpy_model  # noqa: F401


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    pids = []
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        else:
            pids.append(argv[i])
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    rc = 0
    for pid in pids:
        m = importlib.import_module("sa.checks." + pid.lower())
        r = core.run(pid, m.check, m.TITLE, m.EXPLANATION, tier,
                     getattr(m, "ASSUMPTIONS", ()),
                     getattr(m, "MIN_OBS", 1))
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
