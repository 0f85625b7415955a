#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay DIR]

Decides one property: runs the real executive (built from /repo's current
tree) through scenarios, and has TLC judge what it did against /verif/spec.
Exit 0: the property held on everything explored.  Exit 1: a violation."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import engine


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        sys.exit(engine.replay(a.prop, a.replay))
    sys.exit(engine.run(a.prop, a.tier, a.seed))


if __name__ == '__main__':
    main()
