#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only JOB] [-v]   |   check.py --replay FILE"""
import argparse, os, sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    from engine import runner
    if a.replay:
        return runner.main_replay(a.replay)
    return runner.main_check(a.property, a.tier, a.seed, a.only, a.workers, a.v, a.seconds)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
