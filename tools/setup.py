#!/usr/bin/env python3
"""Builds the engine and warms the compile cache (contents are keyed by the preprocessed source, so a changed tree recompiles)."""
import os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check, registry
os.makedirs(check.CACHE, exist_ok=True)
check.engine()
jobs = []
start = time.time()
LIMIT = 1400  # what is not warmed by then is compiled by the checks themselves
def quiet(f):
    def g():
        if time.time() - start > LIMIT: return
        try: f()
        except Exception as e: print('warm-up:', str(e)[-300:])
    return g
for p in registry.PROPS:
    for r in registry.runs(p, 'quick'):
        jobs.append(quiet(lambda r=r: (check.build_bc(r), check.build_native(r))))
check.NJ = 8
check.parallel(jobs)
print('set up', len(jobs), 'runs')
