import sys,time
from vlib import *
import cases
n=int(sys.argv[1]); seed=int(sys.argv[2]) if len(sys.argv)>2 else 1
t0=time.time()
R=Result()
by={}
for eq,c in cases.march_cases(seed,n,None):
    c.opts['verbose']=1
    by.setdefault(eq,[]).append(c)
for eq,cs in by.items():
    R.merge(run_cases('/verif/build/opt/sim_%s_march'%eq,cs))
for i in sorted(R.info): print(i[:150])
for k in sorted(R.fails): print(k,R.fails[k][0],R.fails[k][1][:260])
print(R.evals,R.nontriv,time.time()-t0)
