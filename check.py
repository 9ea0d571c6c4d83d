#!/opt/venv/bin/python
"""check.py <PROPERTY> : run the check of one property (VERIF_TIER, VERIF_SEED).
   check.py --replay FILE : rerun a reported counterexample on a build of the current tree."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import warnings
warnings.simplefilter('ignore')
from engine import runner

if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(runner.replay(sys.argv[2]))
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.exit(runner.main(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1')), a.case, a.v))
