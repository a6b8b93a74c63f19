#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough] [--only SUBSTR]: decides one property of vecmat from its source."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import report, props  # noqa


def main(argv):
    only = None
    if "--only" in argv:
        k = argv.index("--only")
        only = argv[k + 1]
        del argv[k:k + 2]
    verbose = "-v" in argv
    argv = [a for a in argv if a != "-v"]
    pid = argv[0]
    if pid == "setup":
        from engine import build
        build.ensure_driver()
        return 0
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return report.run(pid, tier, seed, only, verbose)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
