#!/usr/bin/env python3
"""run.py Cxx [quick|thorough]: decide one property; run.py --setup: check the tools are there"""
import sys, os, importlib, shutil
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'lib'))
sys.path.insert(0, os.path.join(here, 'checks'))
sys.dont_write_bytecode = True
prop = sys.argv[1]
if prop == '--setup':
    miss = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc') if not shutil.which(t)]
    print('missing: %s' % miss if miss else 'ok')
    sys.exit(1 if miss else 0)
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
try:
    rc = importlib.import_module(prop).main()
except Exception as e:
    print('NO ANSWER: %s' % e)
    rc = 2
sys.exit(rc)
