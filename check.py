#!/usr/bin/env python3
"""check.py ID [--thorough]     decide property ID on /repo's current tree
   check.py --replay FILE        run a recorded counterexample against native builds of /repo's current tree"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
if sys.argv[1] == '--replay':
    sys.exit(vf.replay(sys.argv[2]))
import checks
pid = sys.argv[1]
tier = 'thorough' if '--thorough' in sys.argv else 'quick'
c = checks.CHECKS[pid]
sys.exit(vf.check(pid, c['jobs'](tier), tier, c['bounds'], c['outside'], c['stubs']))
