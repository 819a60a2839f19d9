#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: runs the check of one property."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(PY) and sys.prefix != '/opt/veriftools/pyvenv' and not os.environ.get('VERIF_NO_REEXEC'):
    os.environ['VERIF_NO_REEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'lib')); sys.path.insert(0, os.path.join(HERE, 'checks'))
import harness
prop = sys.argv[1]
tier = os.environ.get('VERIF_TIER', 'quick')
if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
sys.exit(harness.main(importlib.import_module(prop.lower()), prop, tier, seed))
