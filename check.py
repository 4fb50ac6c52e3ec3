#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS]..."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver
import specs


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, props = [], []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only.append(args.pop(0))
        elif a == "--setup":
            driver.build_engine()
            return 0
        else:
            props.append(a)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rc = 0
    for p in props or sorted(specs.SPECS):
        print("== %s %s" % (p, specs.SPECS[p]["title"]), flush=True)
        try:
            rc = max(rc, driver.check(p, specs.SPECS[p], tier, seed, only))
        except driver.CheckError as e:
            print("ERROR %s" % e)
            rc = max(rc, 2)
    return rc


if __name__ == "__main__":
    sys.exit(main())
