"""dev: dev_op.py <casefunc> <exe tu> n seed"""
import sys, time
from vlib import *
import cases
fn, tu, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
flt = sys.argv[5] if len(sys.argv) > 5 else ''
t0 = time.time()
R = Result(); by = {}
import os
A = os.environ.get("DEVARG")
for eq, c in getattr(cases, fn)(seed, n, *([A] if A else [])):
    if flt and flt not in c.name: continue
    c.opts['verbose'] = 1; c.opts['dbg'] = int(os.environ.get('DBG','0'))
    by.setdefault(eq, []).append(c)
for eq, cs in by.items():
    R.merge(run_cases('/verif/build/%s/sim_%s_%s' % (os.environ.get('VAR','opt'), eq, tu), cs))
for i in sorted(R.info)[:60]: print(i[:170])
for k in sorted(R.fails): print(k, R.fails[k][0], R.fails[k][1][:280])
for s in R.samples[:12]: print('  ', s[:160])
print(R.stats)
print(R.evals, R.nontriv, time.time() - t0)
