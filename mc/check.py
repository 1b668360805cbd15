#!/usr/bin/env python3
"""python3 /verif/mc/check.py C01 [--thorough]   (tier also from VERIF_TIER)"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import infra, checks
prop = sys.argv[1]
c = infra.Check(prop)
try:
    rc = checks.CHECKS[prop](c)
except infra.BuildBroken as e:
    if c.violations: rc = c.finish()
    else:
        print('ERROR property=%s: %s' % (prop, e))
        rc = 2
except Exception:
    traceback.print_exc()
    rc = c.finish() if c.violations else 2
sys.stdout.flush()
sys.exit(rc)
