#!/usr/bin/env python3
"""Replays a counterexample on the unmodified kiutils in /repo/src.

usage: replay.py FILE.json   (exit 1 and a description if the violation shows)
"""
import json
import os
import sys

sys.path.insert(0, os.environ.get('VSYM_SRC', '/repo/src'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vsym.concrete import run  # noqa: E402

if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        scn = json.load(f)
    seed = scn.get('hashseed')
    if seed is not None and os.environ.get('PYTHONHASHSEED') != str(seed):
        os.environ['PYTHONHASHSEED'] = str(seed)
        os.execv(sys.executable, [sys.executable] + sys.argv)
    err = run(scn)
    if err:
        print('violation reproduced on the real code: %s' % err)
        print('scenario: %s' % json.dumps(scn, ensure_ascii=True)[:3000])
        sys.exit(1)
    print('not reproduced')
    sys.exit(0)
