#!/usr/bin/env python3
"""run.py PROP [--tier quick|thorough] [--only q1,q2] | run.py --replay PROP QUERY INPUTS"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import driver, spec  # noqa: E402


def main(av):
    if av[:1] == ["--replay"]:
        return driver.replay(av[1], spec.SPEC[av[1]], av[2], av[3])
    if av[:1] == ["--setup"]:
        print(driver.engine())
        return 0
    tier, only, props, jobs = os.environ.get("VERIF_TIER", "quick"), None, [], None
    i = 0
    while i < len(av):
        if av[i] == "--tier":
            tier = av[i + 1]; i += 1
        elif av[i] == "--only":
            only = av[i + 1].split(","); i += 1
        elif av[i] == "-j":
            jobs = int(av[i + 1]); i += 1
        else:
            props.append(av[i])
        i += 1
    rc = 0
    for p in props:
        r = driver.check(p, spec.SPEC[p], tier, only, jobs)
        rc = r if (rc == 0 or r == 1) else rc
    return rc


sys.exit(main(sys.argv[1:]))
