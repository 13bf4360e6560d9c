#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property on /repo's sources."""
import importlib.util, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "rules"))
import chk


def load(pid):
    p = os.path.join(HERE, "rules", pid + ".py")
    spec = importlib.util.spec_from_file_location(pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


if __name__ == "__main__":
    rc = 0
    for pid in sys.argv[1:]:
        rc = max(rc, chk.main(pid, load(pid).run))
    sys.exit(rc)
