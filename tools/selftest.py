"""setup: the tools are there, the package loads, the solver answers"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3  # noqa: E402
from vsym import harness as H  # noqa: E402
import plan, checks  # noqa: E402,F401,E401

s = z3.Solver()
s.add(z3.Int('x') > 1, z3.Int('x') < 3)
assert s.check() == z3.sat
H.load()
r = H.run_job(dict(check='wr', cls='Net', base='max', k=1))
print('self test:', r['stats']['paths'], 'paths,', r['reached'], 'assertions')
