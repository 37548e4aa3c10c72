#!/usr/bin/env python3
"""run.py CNN [--tier quick|thorough] [--seed N] [--replay FILE] [--only i,j] [--limit N] [-v]"""
import argparse, os, sys
sys.dont_write_bytecode = True
if sys.executable != '/opt/venv/bin/python' and os.path.exists('/opt/venv/bin/python'):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import runner
p = argparse.ArgumentParser()
p.add_argument('prop')
p.add_argument('--tier')
p.add_argument('--seed', type=int)
p.add_argument('--replay')
p.add_argument('--only')
p.add_argument('--limit', type=int)
p.add_argument('-v', action='store_true')
a = p.parse_args()
only = [int(x) for x in a.only.split(',')] if a.only else None
sys.exit(runner.main(a.prop, replay=a.replay, tier=a.tier, seed=a.seed, only=only, limit=a.limit,
                     verbose=a.v or bool(a.replay)))
