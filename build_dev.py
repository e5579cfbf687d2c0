#!/usr/bin/env python3
"""development helper: build_dev.py target..."""
import sys, time
import targets
t0 = time.time()
b = targets.vbuild.Builder(verbose=True)
ts = [getattr(targets, a.split(':')[0])(b, *a.split(':')[1:]) for a in sys.argv[1:]]
try:
    b.build(ts)
except Exception as e:
    ls = [l for l in str(e).split('\n') if 'error' in l or 'undefined' in l]
    print('\n'.join(l[:300] for l in ls[:12]) or str(e)[-1500:])
    sys.exit(1)
print('\n'.join(map(str, ts)), '%.1fs' % (time.time() - t0))
