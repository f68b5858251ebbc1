#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current tree."""
import os
import shutil
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
sys.dont_write_bytecode = True


def main():
    import common
    pid = sys.argv[1].upper()
    table = {}
    for name in ("cli", "cli2", "readers", "api", "fuzz", "faults", "growth"):
        if os.path.exists(os.path.join(ROOT, "checks", name + ".py")):
            mod = __import__(name)
            for k, f in vars(mod).items():
                if k[0] == "c" and k[1:].isdigit():
                    table[k.upper()] = f
    if pid not in table:
        print("unknown property " + pid)
        return 2
    try:
        return table[pid]()
    except common.BuildError as e:
        print("the tree does not build for this check:\n%s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
