#!/opt/veriftools/pyvenv/bin/python
"""run_check.py ID [quick|thorough] [--task NAME]... [-v]"""
import argparse
import importlib
import os
import sys
import warnings

warnings.simplefilter('ignore', SyntaxWarning)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?',
                    default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--task', action='append')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int)
    a = ap.parse_args()
    from symx import runner
    mod = importlib.import_module('checks.' + a.pid)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return runner.run(mod.check(a.tier), a.tier, seed, verbose=a.v,
                      only=a.task, nworkers=a.j)


if __name__ == '__main__':
    sys.exit(main())
