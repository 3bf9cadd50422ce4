#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
from vk import core  # noqa: E402


def main():
    a = sys.argv[1:]
    if os.path.exists("/opt/venv/bin/python") and not sys.prefix.startswith("/opt/venv"):
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), *a])
    if a and a[0] == "--worker":
        prop, tier, seed, sf, i, out = a[1:7]
        only = a[7] if len(a) > 7 else None
        sys.path.insert(0, core.REPO)
        core.run_worker(prop, tier, int(seed), sf, int(i), out, only)
        return
    prop = a[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    it = iter(a[1:])
    for x in it:
        if x == "--tier":
            tier = next(it)
        elif x == "--seed":
            seed = int(next(it))
        elif x == "--replay":
            replay = next(it)
    sys.exit(core.main_check(prop, tier, seed, replay))


if __name__ == "__main__":
    main()
