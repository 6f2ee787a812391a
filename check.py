#!/opt/venv/bin/python
"""Usage: check.py PROPERTY [--tier quick|thorough] [--budget S] [--only HARNESS]
          check.py --replay FILE"""
import argparse
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if p not in sys.path:
        sys.path.append(p)
os.environ.setdefault('DATASTORE_EMULATOR_HOST', 'localhost:1')

from symx import runner  # noqa: E402

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        sys.exit(runner.replay_file(a.replay))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(runner.run(a.property.upper(), a.tier, seed, a.budget, a.only))
