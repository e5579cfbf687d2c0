"""C10: the same configuration on different numbers of ranks and threads"""
import os, struct, array, math, shutil
from vlib import Case, Result, run_cases, scratch

VARIANTS = [(1, 1), (2, 1), (3, 1), (4, 2), (1, 4), (1, 8), (2, 3)]


def read(base, ranks):
    with open(base + '.tau') as f:
        head = f.read().split()
    pd = int(head[0])
    nums = [float(x) for x in head[1:]]
    rec = {}
    w = 8 * (pd + 3)
    dup = 0
    for r in range(ranks):
        data = open('%s.%d' % (base, r), 'rb').read()
        for o in range(0, len(data), w):
            k = data[o:o + 8]
            if k in rec:
                dup += 1
            rec[k] = struct.unpack('%dd' % (pd + 2), data[o + 8:o + w])
    return dict(pd=pd, taus=nums[:-3], measure=nums[-3], restarts=nums[-2], warnings=nums[-1], rec=rec, dup=dup)


def run(exe_of, configs, variants=VARIANTS, tol=1e-8):
    """exe_of: equation -> executable; configs of cases.dump_configs"""
    R = Result()
    tmp = scratch()
    try:
        by, table = {}, {}
        for eq, name, p, opts in configs:
            for v in variants + [(1, 1, 'again')]:
                ranks, thr = v[0], v[1]
                if opts['dim'] == 1 and ranks > 2:
                    continue
                base = os.path.join(tmp, '%s-%s' % (name, '-'.join(str(x) for x in v)))
                c = Case('%s@%dx%d' % (name, ranks, thr), p, ranks=ranks, threads=thr, out=base, **opts)
                by.setdefault(eq, []).append(c)
                table.setdefault((eq, name), []).append((v, base, c))
        for eq, cs in by.items():
            R.merge(run_cases(exe_of[eq], cs))
        for (eq, name), runs in table.items():
            ref = None
            for v, base, c in runs:
                replay = '# compared with one rank and one thread\n' + c.text()
                if not os.path.exists(base + '.tau'):
                    continue  # stopped: already reported
                d = read(base, v[0])
                if d['dup']:
                    R.fail('C10/owned-twice/%s' % c.name, '%d nodes owned by several ranks' % d['dup'], replay)
                if ref is None:
                    ref = d
                    continue
                compare(R, c, ref, d, tol, replay)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return R


def compare(R, c, a, b, tol, replay):
    R.evals += 1
    if set(a['rec']) != set(b['rec']):
        R.fail('C10/nodes/%s' % c.name, '%d nodes, %d expected, %d in common' % (
            len(b['rec']), len(a['rec']), len(set(a['rec']) & set(b['rec']))), replay)
        return
    if len(a['taus']) != len(b['taus']) or a['restarts'] != b['restarts'] or a['warnings'] != b['warnings']:
        R.fail('C10/steps/%s' % c.name, 'steps/restarts/warnings %s %s' % (
            (len(a['taus']), a['restarts'], a['warnings']), (len(b['taus']), b['restarts'], b['warnings'])), replay)
    dt = max([abs(x - y) / abs(x) for x, y in zip(a['taus'], b['taus'])] or [0.])
    R.stats['largest-relative-step-size-difference'] = max(R.stats.get('largest-relative-step-size-difference', 0.), dt)
    if not dt <= tol:
        R.fail('C10/tau/%s' % c.name, 'step sizes %s, expected %s' % (b['taus'], a['taus']), replay)
    if not abs(a['measure'] - b['measure']) <= 1e-12 * a['measure']:
        R.fail('C10/measure/%s' % c.name, 'measure of the domain %r, expected %r' % (b['measure'], a['measure']), replay)
    pd = a['pd']
    names = ['component %d' % k for k in range(pd)] + ['mass', 'alpha']
    sc = [max([abs(r[k]) for r in a['rec'].values()] + [1e-300]) for k in range(pd + 2)]
    sc[pd + 1] = 1.
    for k in range(pd + 2):
        worst = max(abs(a['rec'][key][k] - b['rec'][key][k]) if b['rec'][key][k] == b['rec'][key][k] else math.inf for key in a['rec'])
        rel = worst / sc[k]
        lim = 1e-12 if k == pd else tol * (100. if k == pd + 1 else 1.)
        st = 'largest-difference-%s' % ('state' if k < pd else names[k])
        R.stats[st] = max(R.stats.get(st, 0.), rel)
        if not rel <= lim:
            R.fail('C10/%s/%s' % (names[k].split()[0], c.name), '%s differs by %.3g relative to %.3g' % (names[k], rel, sc[k]), replay)
    if a['rec'] != b['rec'] or c.ranks * c.threads > 1:
        R.nontriv += 1
    if len(R.samples) < 6:
        R.samples.append('%s: %d nodes, step sizes differ by %.2g relative' % (c.name, len(a['rec']), dt))
