#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree. check.py --setup: builds everything once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from registry import PROPS

def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        done = set()
        for p, s in PROPS.items():
            for r in s["runs"]:
                k = (r["driver"], r["flavour"], r.get("cpp", False), tuple(r.get("extra", ())))
                if k not in done:
                    done.add(k)
                    vlib.driver(*k)
        print("built %d drivers" % len(done))
        return 0
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        print("usage: check.py <property>|--setup", file=sys.stderr)
        return 2
    return vlib.check(sys.argv[1], PROPS[sys.argv[1]])

try:
    rc = main()
except vlib.CheckError as e:
    print("CHECK-ERROR: %s" % e, file=sys.stderr)
    rc = 2
sys.exit(rc)
