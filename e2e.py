"""Whole runs of the ryujin executable, observed through the event trace and the files they leave."""
import os, struct, array, shutil, math, re, glob
from vlib import run_cmd, mpi_cmd, prm_text, scratch

A = 'A - TimeLoop'

# instrumentation of the executable, if it has any: see san.py
SAN = None


class Run:
    """one run: its exit status, output, and the merged trace of its ranks"""

    def __init__(self, exe, cwd, params, ranks=1, threads=1, timeout=120, every=1, name='run', env=None, trace=True, plain=False):
        self.cwd, self.params, self.ranks = cwd, params, ranks
        os.makedirs(cwd, exist_ok=True)
        self.tdir = os.path.join(cwd, 'trace-' + name)
        shutil.rmtree(self.tdir, ignore_errors=True)
        os.makedirs(self.tdir)
        prm = os.path.join(cwd, name + '.prm')
        with open(prm, 'w') as f:
            f.write(params if isinstance(params, str) else prm_text(params))
        e = {'OMP_NUM_THREADS': str(threads), 'DEAL_II_NUM_THREADS': str(threads)}
        if trace:
            e.update(VERIF_TRACE=self.tdir, VERIF_TRACE_EVERY=str(every))
        e.update(env or {})
        san = None if plain else SAN
        if san:
            san.before(self, e)
        self.rc, self.out = run_cmd(mpi_cmd(exe, ranks) + [prm], cwd, timeout * (san.slow if san else 1), e, mem=None if san else 6 << 30)
        self.dead = self.rc is None
        self.ev = []
        if trace:
            self.ev = merge([parse(os.path.join(self.tdir, 'trace.%d' % r)) for r in range(ranks)])
            analytic = False
            for x in self.ev:
                if x.tag == 'O':
                    analytic = x.head[6] != 0.
                elif x.tag == 'P' and analytic:
                    x.tag = 'Q'
            shutil.rmtree(self.tdir, ignore_errors=True)
        if san:
            san.after(self)

    def sel(self, tag):
        return [e for e in self.ev if e.tag == tag]

    def tail(self):
        t = ' '.join(self.out.split())
        return t[-300:]


class Ev:
    __slots__ = ('tag', 'parts', 'head', 'off')

    def __init__(self, tag, parts, off):
        self.tag, self.parts, self.off = tag, parts, off
        self.head = list(parts[0][:off])

    def has_state(self):
        return any(len(p) > self.off for p in self.parts)


HEAD = {'P': 2, 'Q': 2, 'M': 4, 'L': 3, 'O': 7, 'S': 2, 'A': 1, 'B': 1, 'C': 2, 'E': 2}


def parse(path):
    r = []
    try:
        with open(path, 'rb') as f:
            b = f.read()
    except OSError:
        return r
    p = 0
    while p + 16 <= len(b):
        t, n = struct.unpack_from('<QQ', b, p)
        p += 16
        if p + 8 * n > len(b):
            break
        a = array.array('d')
        a.frombytes(b[p:p + 8 * n])
        r.append((chr(t), a))
        p += 8 * n
    return r


def merge(ranks):
    n = min(len(r) for r in ranks)
    out = []
    for k in range(n):
        tags = set(r[k][0] for r in ranks)
        if len(tags) != 1:
            out.append(Ev('!', [array.array('d', [k])], 1))
            break
        out.append(Ev(tags.pop(), [r[k][1] for r in ranks], HEAD[ranks[0][k][0]]))
    return out


class Mesh:
    """nodes of all ranks: keys[rank][i], pos, mass, constrained; boundary entries"""

    def __init__(self, ev):
        self.dim = int(ev.parts[0][0])
        self.keys, self.pos, self.mass, self.con, self.levels, self.bnd = [], [], [], [], [], []
        w = 2 * self.dim + 2
        for a in ev.parts:
            n, nl, nb = int(a[1]), int(a[2]), int(a[3])
            k, ps, ms, cs = [], [], [], []
            for i in range(n):
                o = 4 + i * w
                k.append(tuple(math.floor(c * 1e7 + .3137) for c in a[o:o + 2 * self.dim]))
                ps.append(tuple(a[o:o + self.dim]))
                ms.append(a[o + 2 * self.dim])
                cs.append(a[o + 2 * self.dim + 1] != 0.)
            o = 4 + n * w
            self.keys.append(k)
            self.pos.append(ps)
            self.mass.append(ms)
            self.con.append(cs)
            self.levels.append(list(a[o:o + nl]))
            o += nl
            wb = 4 + 2 * self.dim
            b = []
            for j in range(nb):
                q = a[o + j * wb:o + (j + 1) * wb]
                b.append((int(q[0]), tuple(q[1:1 + self.dim]), q[1 + self.dim], q[2 + self.dim], int(q[3 + self.dim]), tuple(q[4 + self.dim:])))
            self.bnd.append(b)

    def n(self):
        return sum(len(k) for k in self.keys)

    def state(self, ev):
        """key -> conserved state of the unconstrained nodes"""
        r = {}
        for rk, keys in enumerate(self.keys):
            a = ev.parts[rk]
            if not keys:
                continue
            nc = (len(a) - ev.off) // len(keys)
            for i, k in enumerate(keys):
                if not self.con[rk][i]:
                    r[k] = tuple(a[ev.off + i * nc:ev.off + (i + 1) * nc])
        return r

    def hanging(self, ev):
        """key -> what the vector holds at constrained nodes"""
        r = {}
        for rk, keys in enumerate(self.keys):
            a = ev.parts[rk]
            if not keys:
                continue
            nc = (len(a) - ev.off) // len(keys)
            for i, k in enumerate(keys):
                if self.con[rk][i]:
                    r.setdefault(k, []).append(tuple(a[ev.off + i * nc:ev.off + (i + 1) * nc]))
        return r

    def totals(self, ev):
        s = None
        m = None
        for rk, keys in enumerate(self.keys):
            a = ev.parts[rk]
            if not keys:
                continue
            nc = (len(a) - ev.off) // len(keys)
            if s is None:
                s, m = [0.] * nc, [0.] * nc
            for i in range(len(keys)):
                if not self.con[rk][i]:
                    w = self.mass[rk][i]
                    for c in range(nc):
                        v = a[ev.off + i * nc + c]
                        s[c] += w * v
                        m[c] += w * abs(v)
        return s, m


def with_mesh(events):
    """(event, mesh in force)"""
    m = None
    for e in events:
        if e.tag == 'M':
            m = Mesh(e)
        yield e, m


def distance(a, b):
    """largest relative difference of two states, None if the nodes differ"""
    if a.keys() != b.keys() or not a:
        return None
    nc = len(next(iter(a.values())))
    sc = [max(max(abs(v[c]) for v in a.values()), 1e-3) for c in range(nc)]
    worst = 0.
    for k, u in a.items():
        v = b[k]
        for c in range(nc):
            d = abs(u[c] - v[c]) / sc[c]
            if not d <= worst:
                if d != d:
                    return float('inf')
                worst = d
    return worst


# ------------------------------------------------------------------ monitors
def steps(run, R, name, P):
    """C21: the sequence of steps, ticks and outputs of one run"""
    K = 'C21/'
    t_final = float(P.get(A + '/final time', 5.))
    enforce = P.get(A + '/enforce final time', 'false') == 'true'
    g = float(P.get(A + '/timer granularity', .01))
    on = lambda k: P.get(A + '/' + k, 'false') == 'true'
    mult = lambda k: int(P.get(A + '/timer %s multiplier' % k, 1))
    L = run.sel('L')
    bad = lambda k, d: R.fail(K + k + '/' + name, d, name)
    if run.sel('!'):
        bad('ranks-disagree', 'the ranks went through different events')
        return
    t, cycle, tick, tau, outs = None, None, None, None, []
    expect = []
    resumed = on('resume')
    first = True
    tail_steps = 0
    for e in run.ev:
        R.evals += 1
        if e.tag == 'S':
            R.nontriv += 1
            tau, tn = e.head
            if not tau > 0.:
                bad('step-size', 'step of size %r at t = %r' % (tau, t))
            if t is not None and tn != t + tau:
                bad('time-increment', 'time %r after a step %r from %r' % (tn, tau, t))
            if enforce and tn > t_final * (1 + 1e-14):
                bad('beyond-final-time', 't = %r, final time %r' % (tn, t_final))
            t = tn
        elif e.tag == 'L':
            tl, tc, cy = e.head
            if first:
                if not resumed and (tl != 0. or tc != 0):
                    bad('start', 'first step at t = %r with output cycle %d' % (tl, tc))
                first = False
            else:
                if tl != t:
                    bad('time-carried', 't = %r instead of %r' % (tl, t))
                if cy != cycle + 1:
                    bad('cycle-count', '%d after %d' % (cy, cycle))
                if tc != want_tc:
                    bad('tick-count', 'output cycle %d instead of %d at t = %r' % (tc, want_tc, tl))
            t, cycle = tl, cy
            want_tc = tc
            if tl >= tc * g:
                expect.append((tl, tc))
                want_tc = tc + 1
        elif e.tag == 'O' and e.head[5]:
            outs.append((e.head[0], e.head[1]))
            tc = int(e.head[1])
            for i, (flag, m, nm) in enumerate((('enable output full', 'output full', 'full'), ('enable output levelsets', 'output levelsets', 'levelsets'),
                                               ('enable checkpointing', 'checkpoint', 'checkpoint'))):
                w = on(flag) and tc % mult(m) == 0
                if bool(e.head[2 + i]) != w:
                    bad('output-' + nm, '%s output at cycle %d: %s' % (nm, tc, bool(e.head[2 + i])))
    if outs != expect:
        k = 0
        while k < min(len(outs), len(expect)) and outs[k] == expect[k]:
            k += 1
        bad('ticks', 'outputs %s, expected %s' % (outs[k:k + 2], expect[k:k + 2]))
    E = run.sel('E')
    if not E:
        bad('end', 'the run did not reach its end')
        return
    te = E[0].head[0]
    R.evals += 1
    if te != t:
        bad('end-time', 'ended at %r after the step to %r' % (te, t))
    if enforce:
        if abs(te - t_final) > 3e-15 * max(1., abs(t_final)) * 10:
            bad('final-time', 'ended at %r instead of %r' % (te, t_final))
    elif te < t_final or (tau is not None and len(L) > 1 and te - tau >= t_final):
        bad('final-time', 'ended at %r with the last step %r, final time %r' % (te, tau, t_final))
    # what was promised is on disk
    b = os.path.join(run.cwd, P.get(A + '/basename', 'test'))
    def cycles(what):
        return sorted(set(int(x) for f in glob.glob(b + '-%s_*' % what) for x in re.findall(r'-%s_(\d+)\.' % what, f)))
    if not resumed:
        for what, flag, m in (('solution', 'enable output full', 'output full'), ('solution-levelsets', 'enable output levelsets', 'output levelsets')):
            lv = 'levelsets' in what
            want = sorted(set(tc for _, tc in outs if on(flag) and tc % mult(m) == 0 and (not lv or P.get('J - VTUOutput/manifolds'))))
            have = cycles(what)
            R.evals += 1
            if have != [int(x) for x in want]:
                bad('output-files', '%s files of the cycles %s instead of %s' % (what, have[:9], want[:9]))
    R.samples.append('%s: %d steps to t = %.6g, %d ticks, %d checkpoints' % (name, len(run.sel('S')), te, len(outs), len(run.sel('C'))))


def conclude(run, R, name, ok=True):
    """a run that was meant to finish"""
    if run.dead:
        R.fail('hang/' + name, run.tail(), name)
        return False
    if run.rc != 0:
        R.fail('crash/' + name, 'rc=%s %s' % (run.rc, run.tail()), name)
        return False
    return True


def plain_case(exe, c, R, cwd):
    """a run whose events nobody looks at"""
    return Run(exe, cwd, c.params, c.ranks, 1, timeout=60, every=10**9)


def memory_case(exe, c, R, cwd, other):
    """a run under the sanitizers, and the same run with other contents of fresh memory"""
    import san
    a = Run(exe, os.path.join(cwd, 'a'), c.params, c.ranks, 1, timeout=60, every=1)
    # (these draw from the random device of the system)
    lots = {'C - Discretization/mesh distortion': '0', 'E - InitialValues/perturbation': '0'}
    if c.ranks == 1 and not a.dead and all(float(c.params.get(k, v)) == 0. for k, v in lots.items()) \
            and c.params.get('F - HyperbolicModule/riemann solver/random entropies', 0) in (0, '0'):
        b, d = (Run(other, os.path.join(cwd, k), c.params, 1, 1, timeout=120, every=1, env=dict(MALLOC_PERTURB_=v), plain=True)
                for k, v in (('b', '85'), ('c', '254')))
        n, f = san.same_run(R, a, b, d, c.name)
        R.evals += n
        with SAN.lock:
            SAN.tot['compared'] += n
            SAN.tot['files_compared'] += f


def loop_case(exe, c, R, cwd, repro=False):
    run = Run(exe, cwd, c.params, c.ranks, 1, every=10**9)
    if not conclude(run, R, c.name):
        return
    steps(run, R, c.name, c.params)
    if repro:
        # the parameter file it wrote reproduces the run
        with open(os.path.join(cwd, 'run-parameters.prm')) as f:
            txt = f.read()
        d2 = cwd + '-again'
        run2 = Run(exe, d2, txt, c.ranks, 1, every=10**9)
        if run2.rc != 0:
            R.fail('C21/parameter-file/' + c.name, 'the parameter file of the run is refused: ' + run2.tail(), c.name)
        else:
            R.evals += 1
            a, b = run.sel('E')[0], run2.sel('E')[0]
            if [list(p) for p in a.parts] != [list(p) for p in b.parts] and (c.ranks == 1 or a.head[1] != b.head[1]):
                R.fail('C21/parameter-file/' + c.name, 'the run with the parameter file it wrote ends at t = %r with another state' % b.head[0], c.name)
        shutil.rmtree(d2, ignore_errors=True)


def resume_case(exe, c, R, cwd):
    N, mode = c.name, c.opts['mode']
    K = 'C08/'
    P = dict(c.params)
    a = Run(exe, os.path.join(cwd, 'a'), P, c.ranks, name='full')
    if not conclude(a, R, N):
        return
    bdir = os.path.join(cwd, 'b')
    P1 = dict(P)
    P1[A + '/final time'] = c.opts['stop']
    b = Run(exe, bdir, P1, c.ranks, name='first')
    if not conclude(b, R, N):
        return
    C = b.sel('C')
    if not C:
        return
    if mode == 'error':  # both the solution and the analytic one go through output()
        C = [e for e in C]
    tc, cc = C[-1].head
    ref = [(e, m) for e, m in with_mesh(a.ev) if e.tag == 'L']
    prepared = dict((e.head[0], e) for e in a.sel('P'))
    # a step computed with another partition differs by round-off, which the wave speed of a
    # scalar flux amplifies
    loose = 1e-5 if c.opts['eq'] == 'scalar_conservation' else 1e-8

    def resume(dirn, params, ranks, tag):
        r = Run(exe, dirn, params, ranks, name=tag)
        return r if conclude(r, R, N + '/resume') else None

    def compare(r, what):
        got = [(e, m) for e, m in with_mesh(r.ev) if e.tag == 'L']
        start = [k for k, (e, m) in enumerate(ref) if e.head[0] == tc]
        if not start:
            R.fail(K + 'prefix/' + N, 'the stopped run wrote a checkpoint at t = %r, which the full run does not pass' % tc, N)
            return
        # the checkpoint with the state of the uninterrupted run at that time
        if len(got) != len(ref) - start[0]:
            R.fail(K + what + '/steps/' + N, '%d steps instead of %d after the checkpoint at t = %g' % (len(got) - 1, len(ref) - start[0] - 1, tc), N)
        if got and got[0][0].head[:2] != [tc, cc]:
            R.fail(K + what + '/start/' + N, 'resumed at t = %r cycle %d instead of %r %d' % (got[0][0].head[0], got[0][0].head[1], tc, cc), N)
        worst, n = 0., 0
        want = ref[start[0]:]
        # a checkpoint holds the state with the boundary values of its time enforced
        want = [(prepared.get(tc, want[0][0]), want[0][1])] + want[1:]
        for (e, m), (f, w) in zip(got, want):
            R.evals += 1
            R.nontriv += n > 0
            tol = 1e-13 if n == 0 else loose
            d = distance(m.state(e), w.state(f))
            if d is None:
                R.fail(K + what + '/mesh/' + N, 'different nodes at t = %g (%d, %d)' % (e.head[0], m.n(), w.n()), N)
                return
            worst = max(worst, d)
            if not d <= tol:
                R.fail(K + what + '/state/' + N, '%d steps after the resume at t = %g the states differ by %g' % (n, tc, d), N)
                return
            if abs(e.head[0] - f.head[0]) > loose * .1 * max(1., f.head[0]) or n and e.head[1] != f.head[1]:
                R.fail(K + what + '/time/' + N, 'time %r output cycle %d instead of %r %d' % (e.head[0], e.head[1], f.head[0], f.head[1]), N)
                return
            n += 1
        R.samples.append('%s: stopped at t = %.4g, checkpoint at t = %.4g, %d steps compared, largest difference %.1e' % (N, c.opts['stop'], tc, n - 1, worst))

    P2 = dict(P)
    P2[A + '/resume'] = 'true'
    if mode == 'adapted':
        P2[A + '/enable mesh adaptivity'] = 'false'  # it has happened before the checkpoint
    if mode == 'zero':
        P2[A + '/resume at time zero'] = 'true'
        P2[A + '/final time'] = 2 * c.opts['g']
        r = resume(bdir, P2, c.ranks, 'second')
        if r is None:
            return
        e, m = [(e, m) for e, m in with_mesh(r.ev) if e.tag == 'L'][0]
        f, w = [(e, m) for e, m in ref if e.head[0] == tc][0]
        R.evals += 1
        R.nontriv += 1
        if e.head[0] != 0. or e.head[1] != 0:
            R.fail(K + 'zero/time/' + N, 'starts at t = %r cycle %d' % (e.head[0], e.head[1]), N)
        d = distance(m.state(e), w.state(prepared.get(tc, f)))
        if d is None or not d <= 1e-13:
            R.fail(K + 'zero/state/' + N, 'state differs by %s' % d, N)
        steps(r, Sub(R, K), N + '/zero', dict(P2, **{A + '/resume': 'false'}))
        return
    r = resume(bdir, P2, c.opts['ranks2'], 'second')
    if r is None:
        return
    if mode == 'repeat':
        first = lambda ev: next((k for k, e in enumerate(ev) if e.tag == 'L' and e.head[0] == tc), None)
        adapts = lambda ev: first(ev) is not None and next((e.tag for e in ev[first(ev) + 1:] if e.tag in 'ASLE'), 'E') == 'A'
        R.evals += 1
        R.nontriv += 1
        if adapts(r.ev) and not adapts(a.ev):
            R.fail(K + 'adaptation-repeated/' + N, 'the resumed run adapts the mesh at t = %g, the uninterrupted run did so before the checkpoint only' % tc, N)
            return
    compare(r, 'resume')
    if mode in ('again', 'counters'):
        # stop and resume the resumed run once more
        P3 = dict(P2)
        P3[A + '/final time'] = c.opts['stop'] + 2.1 * c.opts['g']
        ddir = os.path.join(cwd, 'd')
        b = Run(exe, ddir, P1, c.ranks, name='first')
        r1 = resume(ddir, P3, c.opts['ranks2'], 'second')
        if r1 is None or not r1.sel('C'):
            return
        tc, cc = r1.sel('C')[-1].head
        t1 = tc
        # compare() looks the time up in the full run, where round-off may differ
        near = [e.head[0] for e, m in ref if abs(e.head[0] - t1) < loose]
        r2 = resume(ddir, P2, c.ranks, 'third')
        if r2 is None:
            return
        e = [e for e in r2.ev if e.tag == 'L'][0]
        if e.head[:2] != [tc, cc]:
            R.fail(K + 'again/start/' + N, 'resumed at t = %r cycle %d instead of %r %d' % (e.head[0], e.head[1], tc, cc), N)
        ee, fe = r2.sel('E')[0], a.sel('E')[0]
        m2 = [m for e, m in with_mesh(r2.ev) if e.tag == 'E'][0]
        ma = [m for e, m in with_mesh(a.ev) if e.tag == 'E'][0]
        d = distance(m2.state(ee), ma.state(fe))
        R.evals += 1
        if d is None or not d <= loose or not near:
            R.fail(K + 'again/state/' + N, 'after two resumes the final states differ by %s' % d, N)
    if mode == 'counters':
        # the output files of the resumed run carry on with the numbers of the first part
        fa = sorted(os.path.basename(x) for x in glob.glob(os.path.join(cwd, 'a', 'run-solution_*.pvtu')))
        fb = sorted(os.path.basename(x) for x in glob.glob(os.path.join(bdir, 'run-solution_*.pvtu')))
        R.evals += 1
        if fa != fb:
            R.fail(K + 'output-numbers/' + N, '%s instead of %s' % (fb, fa), N)


class Sub:
    """report under another property"""

    def __init__(self, R, prefix):
        self.R, self.p = R, prefix

    evals = property(lambda s: s.R.evals, lambda s, v: setattr(s.R, 'evals', v))
    nontriv = property(lambda s: s.R.nontriv, lambda s, v: setattr(s.R, 'nontriv', v))
    samples = property(lambda s: s.R.samples)

    def fail(self, key, detail, replay=''):
        self.R.fail(self.p + key.split('/', 1)[1], detail, replay)


def adapt_case(exe, c, R, cwd):
    N, o = c.name, c.opts
    K = 'C16/'
    run = Run(exe, cwd, c.params, c.ranks)
    if not conclude(run, R, N):
        return
    ev = list(with_mesh(run.ev))
    pts = list(o['pts'])
    bad = lambda k, d: R.fail(K + k + '/' + N, d, N)
    before, adapted = None, 0
    last = None
    for k, (e, m) in enumerate(ev):
        if e.tag == 'L':
            # an adaptation is due iff a configured time has been reached
            t = e.head[0]
            due = [p for p in pts if p <= t]
            final = not any(x.tag == 'S' for x, _ in ev[k:])
            nxt = next((x.tag for x, _ in ev[k + 1:] if x.tag in 'ASLE'), 'E')
            R.evals += 1
            if not final and (nxt == 'A') != bool(due):
                bad('time-points', 'at t = %g: %s, time points left %s' % (t, 'adapted' if nxt == 'A' else 'not adapted', pts))
            if due:
                pts = [p for p in pts if p > t]
            if adapted and o['bc'] == 'slip' and last is not None:
                # the step after the adaptation conserves the totals
                s0, w0 = last
                s1, w1 = m.totals(e)
                d = int(c.opts['dim'])
                for q in range(len(s0)):
                    momentum = o['eq'] != 'scalar_conservation' and 1 <= q <= d
                    if momentum or o['eq'] == 'scalar_conservation':
                        continue  # walls exert pressure; scalar fluxes pass through them
                    if abs(s1[q] - s0[q]) > 1e-11 * (w0[q] + w1[q]):
                        bad('totals', 'component %d: %.15g after %.15g in the step to t = %g' % (q, s1[q], s0[q], t))
            last = m.totals(e)
        elif e.tag == 'A':
            before = (e, m, m.state(e))
        elif e.tag == 'B':
            adapted += 1
            R.nontriv += 1
            e0, m0, s0 = before
            s1 = m.state(e)
            last = m.totals(e)
            if len(s1) == len(s0) and o['strat'][0] == 'g':
                bad('refined', 'the mesh has %d nodes before and after' % len(s0))
            lv0, lv1 = sorted(x for l in m0.levels for x in l), sorted(x for l in m.levels for x in l)
            dim = m.dim
            if o['strat'][0] == 'g' and [x + 1 for x in lv0 for _ in range(2 ** dim)] != lv1:
                bad('refined', 'global refinement turned %d cells into %d' % (len(lv0), len(lv1)))
            nc = len(next(iter(s0.values())))
            lo = [min(v[q] for v in s0.values()) for q in range(nc)]
            hi = [max(v[q] for v in s0.values()) for q in range(nc)]
            convex = o['an'] in ('cG Q1', 'dG Q0', 'dG Q1')
            # what the old vector holds at its hanging nodes (known finding)
            raw = [v for vs in m0.hanging(e0).values() for v in vs]
            rlo = [min([lo[q]] + [v[q] for v in raw]) for q in range(nc)]
            rhi = [max([hi[q]] + [v[q] for v in raw]) for q in range(nc)]
            spoilt = [any(v[q] != v[q] for v in raw) for q in range(nc)]
            same = 0
            for key, v in s1.items():
                R.evals += 1
                for q in range(nc):
                    tol = 1e-12 * max(abs(lo[q]), abs(hi[q]), 1e-3)
                    if convex and not (lo[q] - tol <= v[q] <= hi[q] + tol):
                        bad('stale-hanging' if spoilt[q] or rlo[q] - tol <= v[q] <= rhi[q] + tol else 'range', 'component %d: %r outside of [%r, %r] at %s' % (q, v[q], lo[q], hi[q], key))
                    if o['uni'] and adapted == 1 and e.head[0] == 0. and not abs(v[q] - lo[q]) <= tol:
                        bad('uniform', 'component %d: %r instead of %r' % (q, v[q], lo[q]))
                    if key in s0 and o['an'] == 'cG Q1':
                        same += q == 0
                        if not abs(v[q] - s0[key][q]) <= tol:
                            bad('stale-hanging' if spoilt[q] and v[q] != v[q] else 'kept', 'component %d: %r instead of %r at a node of both meshes' % (q, v[q], s0[key][q]))
            if o['strat'][0] == 'g':
                fe_field(o, m0, s0, m, s1, R, bad)
                t0, w0 = m0.totals(e0)
                t1, w1 = m.totals(e)
                for q in range(nc):
                    if abs(t1[q] - t0[q]) > 1e-11 * (w0[q] + w1[q]):
                        bad('transfer-totals', 'component %d: %.15g becomes %.15g by refinement' % (q, t0[q], t1[q]))
            elif o['cf'] == 0. and o['an'] == 'cG Q1':
                midpoints(o, m0, s0, m, s1, R, bad)
            R.samples.append('%s: t = %.4g, %d -> %d nodes, %d of both, levels %d..%d' % (N, e.head[0], len(s0), len(s1), same, lv1[0], lv1[-1]))


def fe_field(o, m0, s0, m1, s1, R, bad):
    """global refinement of a uniform box: the new nodal values interpolate the old field"""
    an, dim = o['an'], m1.dim
    if an == 'dG Q0':
        # children carry the value of their parent: nearest old node, within half an old cell
        old = list(s0.items())
    h = [min_gap([p[d] for r in m0.pos for p in r]) for d in range(dim)]
    if an == 'cG Q1':
        grid = {}
        for key, v in s0.items():
            grid[key[:dim]] = v
        hi = [round(x * 1e7) for x in h]
        for key, v in s1.items():
            corners = [()]
            for d in range(dim):
                r = key[d] % hi[d]
                on = min(r, hi[d] - r) < hi[d] // 8
                nc = []
                for cc in corners:
                    if on:
                        nc.append(cc + (key[d],))
                    else:
                        nc.append(cc + (key[d] - hi[d] // 2,))
                        nc.append(cc + (key[d] + hi[d] // 2,))
                corners = nc
            vals = [lookup(grid, cc) for cc in corners]
            if any(x is None for x in vals):
                continue
            R.evals += 1
            R.nontriv += 1
            for q in range(len(v)):
                w = sum(x[q] for x in vals) / len(vals)
                if abs(v[q] - w) > 1e-12 * max(1e-3, max(abs(x[q]) for x in vals)):
                    bad('field', 'component %d: %r instead of %r at %s' % (q, v[q], w, key))
    elif an == 'dG Q0':
        hi = [round(x * 1e7) for x in h]
        grid = {k[:dim]: v for k, v in s0.items()}
        for key, v in s1.items():
            c = [lookup(grid, cc) for cc in offsets(key[:dim], [x // 4 for x in hi])]
            c = [x for x in c if x is not None]
            R.evals += 1
            if len(c) != 1:
                continue
            R.nontriv += 1
            for q in range(len(v)):
                if abs(v[q] - c[0][q]) > 1e-12 * max(1e-3, abs(v[q])):
                    bad('field', 'component %d: %r instead of the value of the parent %r' % (q, v[q], c[0][q]))


def midpoints(o, m0, s0, m1, s1, R, bad):
    """refinement without coarsening: every old free node keeps its value"""
    for key, v in s0.items():
        R.evals += 1
        if key not in s1:
            continue
        R.nontriv += 1
        for q in range(len(v)):
            if abs(v[q] - s1[key][q]) > 1e-12 * max(1e-3, abs(v[q])):
                bad('kept', 'component %d: %r instead of %r' % (q, s1[key][q], v[q]))
    lost = [k for k in s0 if k not in s1]
    R.stats['nodes-lost'] = R.stats.get('nodes-lost', 0) + len(lost)


def offsets(key, q):
    out = [()]
    for d in range(len(key)):
        out = [c + (key[d] + s * q[d],) for c in out for s in (-1, 1)]
    return out


def lookup(grid, key):
    if key in grid:
        return grid[key]
    # neighbouring roundings
    c = [()]
    for x in key:
        c = [a + (x + s,) for a in c for s in (0, -1, 1, 2, -2)]
    for k in c:
        if k in grid:
            return grid[k]
    return None


def min_gap(xs):
    s = sorted(set(round(x, 9) for x in xs))
    return min(b - a for a, b in zip(s, s[1:]) if b - a > 1e-7)


# ------------------------------------------------------------------ quantities
def primitive(eq, dim, U, P):
    B = 'B - Equation'
    if eq == 'scalar_conservation':
        return (U[0],)
    if eq == 'shallow_water':
        h = U[0]
        return (h,) + tuple(x / h for x in U[1:1 + dim])
    rho = U[0]
    v = [x / rho for x in U[1:1 + dim]]
    e = U[1 + dim] / rho - .5 * sum(x * x for x in v)
    if eq == 'euler_aeos':
        return (rho,) + tuple(v) + (e,)
    g = float(P.get(B + '/gamma', 1.4))
    return (rho,) + tuple(v) + ((g - 1.) * rho * e,)


def read_dat(path):
    with open(path) as f:
        L = f.read().split('\n')
    head = [x for x in L if x.startswith('#')]
    return head, [[float(x) for x in l.split()] for l in L if l and not l.startswith('#')]


def quantity_case(exe, c, R, cwd):
    N, o, P = c.name, c.opts, c.params
    K = 'C19/'
    # a file of an earlier run must not leak into the new series
    os.makedirs(cwd, exist_ok=True)
    for n, _, _ in o['inter'] + o['bound']:
        with open(os.path.join(cwd, 'run-%s-R0000-space_averaged_time_series.dat' % n), 'w') as f:
            f.write('9.9 stale\n')
    run = Run(exe, cwd, P, c.ranks)
    if not conclude(run, R, N):
        return
    bad = lambda k, d: R.fail(K + k + '/' + N, d, N)
    eq, dim = o['eq'], int(o['dim'])
    fn = os.path.join
    env = {'__builtins__': {}}

    def level(expr, x):
        return eval(expr, env, dict(zip('xyz', list(x) + [0., 0.])))

    compiled = {}
    segs = []   # (mesh, [(t, state ev)]) between mesh changes
    for e, m in with_mesh(run.ev):
        if e.tag == 'M':
            segs.append((m, []))
        elif e.tag == 'L':
            segs[-1][1].append(e)
    g = o['g']
    prepared = dict((e.head[0], e) for e in run.sel('P'))
    for kind, lst in (('interior', o['inter']), ('boundary', o['bound'])):
        for (name, expr, options) in lst:
            code = compile(expr, expr, 'eval')
            for si, (m, Ls) in enumerate(segs):
                pts = []   # per rank, in any order: (rank, node, weight, position, extra)
                for rk in range(run.ranks):
                    if kind == 'interior':
                        for i, x in enumerate(m.pos[rk]):
                            if not m.con[rk][i] and abs(level(code, x)) <= 1e-12:
                                pts.append((rk, i, m.mass[rk][i], x, (m.mass[rk][i],)))
                    else:
                        for (i, nrm, nm, bm, bid, x) in m.bnd[rk]:
                            if not m.con[rk][i] and abs(level(code, x)) < 1e-12:
                                pts.append((rk, i, bm, x, nrm + (nm, bm)))

                def value(e, p):
                    rk, i = p[0], p[1]
                    a = e.parts[rk]
                    nc = (len(a) - e.off) // len(m.keys[rk])
                    w = primitive(eq, dim, a[e.off + i * nc:e.off + (i + 1) * nc], P)
                    return w + tuple(x * x for x in w)

                hist = [(e.head[0], [value(e, p) for p in pts]) for e in Ls]
                if si + 1 < len(segs) and False:
                    pass
                series = [(t, avg(v, pts)) for t, v in hist]
                writes = [k for k, e in enumerate(Ls) if e.head[0] >= e.head[1] * g and int(e.head[1]) % o['mult'] == 0]
                if not writes:
                    continue
                R0 = int(Ls[writes[0]].head[1])
                tag = '%s/%s%s' % (name, options.replace(' ', '+'), '/after-adaptation' if si else '')
                inst = 'instantaneous' in options
                tavg = 'time_averaged' in options
                # nodes
                if inst or tavg:
                    f = fn(cwd, 'run-%s-R%04d-points.dat' % (name, R0))
                    if not os.path.exists(f):
                        bad('points-file', '%s: %s missing' % (tag, os.path.basename(f)))
                        continue
                    _, rows = read_dat(f)
                    want = sorted(tuple(p[3]) + tuple(p[4]) for p in pts)
                    rows_sorted = sorted(map(tuple, rows))
                    R.evals += 1
                    if not close_rows(rows_sorted, want, 1e-12):
                        bad('nodes', '%s: %d points listed, %d nodes on the manifold (or different data)' % (tag, len(rows), len(want)))
                        continue
                    # order of the points in the files: by position
                    order = [tuple(r[:dim]) + tuple(r[dim:]) for r in rows]
                    idx = match(rows, [tuple(p[3]) + tuple(p[4]) for p in pts], [p[0] for p in pts])
                else:
                    idx = None
                # averages in space
                if 'space_averaged' in options and pts:
                    f = fn(cwd, 'run-%s-R%04d-space_averaged_time_series.dat' % (name, R0))
                    if not os.path.exists(f):
                        bad('series-file', '%s: %s missing' % (tag, os.path.basename(f)))
                    else:
                        with open(f) as fh:
                            txt = fh.read()
                        R.evals += 1
                        if not txt.startswith('# time t') or 'stale' in txt:
                            bad('series-header', '%s: %s does not start with a header' % (tag, os.path.basename(f)))
                        else:
                            _, rows = read_dat(f)
                            # a finished run has flushed the series up to the last write-out
                            want = [(t,) + a for t, a in series[:writes[-1] + 1]]
                            if not close_rows(rows, want, 1e-11, strict=True):
                                k = next((i for i, (x, y) in enumerate(zip(rows, want)) if not close_rows([x], [y], 1e-11)), -1)
                                bad('series', '%s: %d rows, %d expected; row %d %s instead of %s' % (tag, len(rows), len(want), k, rows[k][:4] if rows else None, want[k][:4]))
                            R.nontriv += len(want)
                # point values and averages in time
                start = 0
                for k in writes:
                    cyc = int(Ls[k].head[1])
                    if inst:
                        f = fn(cwd, 'run-%s-R%04d-instantaneous.dat' % (name, cyc))
                        # a field without averages is evaluated after the output of the tick
                        now = hist[k][1]
                        if not tavg and 'space_averaged' not in options and hist[k][0] in prepared:
                            now = [value(prepared[hist[k][0]], p) for p in pts]
                        check_points(R, bad, f, 'instantaneous/' + tag, now, idx, 'at t = ', hist[k][0], None)
                    if tavg and k > start:
                        f = fn(cwd, 'run-%s-R%04d-time_averaged.dat' % (name, cyc))
                        T = hist[k][0] - hist[start][0]
                        acc = []
                        for j in range(len(pts)):
                            nq = len(hist[k][1][j])
                            s = [0.] * nq
                            for l in range(start, k):
                                dt = .5 * (hist[l + 1][0] - hist[l][0])
                                for q in range(nq):
                                    s[q] += dt * (hist[l][1][j][q] + hist[l + 1][1][j][q])
                            acc.append(tuple(x / T for x in s))
                        check_points(R, bad, f, 'time-averaged/' + tag, acc, idx, 'averaged from t = ', hist[start][0], hist[k][0])
                    if o['clear']:
                        start = k + 1
    vtu_files(run, R, N, P, cwd, eq, dim, o)


def avg(vals, pts):
    s = sum(p[2] for p in pts)
    if not vals or not s:
        return ()
    return tuple(sum(p[2] * v[q] for p, v in zip(pts, vals)) / s for q in range(len(vals[0])))


def close_rows(a, b, tol, strict=False):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        for u, v in zip(x, y):
            if not abs(u - v) <= tol * max(1., abs(u), abs(v)):
                return False
    return True


def match(rows, want, ranks):
    """for every row of the point file the index of its node; rows keep their order, duplicates are taken in order of the rank"""
    pool = {}
    for i, w in enumerate(want):
        pool.setdefault(tuple(math.floor(x * 1e7 + .3137) for x in w), []).append(i)
    out = []
    for r in rows:
        k = tuple(math.floor(x * 1e7 + .3137) for x in r)
        L = pool.get(k)
        out.append(L.pop(0) if L else None)
    return out


def check_points(R, bad, f, tag, vals, idx, label, t0, t1):
    R.evals += 1
    if not os.path.exists(f):
        bad(tag.split('/')[0] + '-file', '%s: %s missing' % (tag, os.path.basename(f)))
        return
    head, rows = read_dat(f)
    nums = [float(x) for x in re.findall(r't = ([-+0-9.e]+)', head[0])] if head else []
    want = [t0] if t1 is None else [t0, t1]
    if label not in head[0] or len(nums) != len(want) or any(abs(a - b) > 1e-12 * max(1., abs(b)) for a, b in zip(nums, want)):
        bad(tag.split('/')[0] + '-time', '%s: header %r, expected times %s' % (tag, head[0], want))
    if len(rows) != len(vals):
        bad(tag.split('/')[0], '%s: %d rows, %d points' % (tag, len(rows), len(vals)))
        return
    for r, i in zip(rows, idx):
        if i is None:
            continue
        R.nontriv += 1
        if not close_rows([r], [vals[i]], 1e-11):
            bad(tag.split('/')[0], '%s: %s instead of %s' % (tag, r[:4], vals[i][:4]))
            return


# ------------------------------------------------------------------ graphics
def vtu_arrays(path):
    import base64, zlib
    with open(path, 'rb') as f:
        txt = f.read().decode('latin-1')
    out = {}
    body = txt
    for mm in re.finditer(r'<DataArray ([^>]*)>\s*([^<]*)</DataArray>', body):
        at = dict(re.findall(r'(\w+)="([^"]*)"', mm.group(1)))
        data = mm.group(2).split()
        if at.get('format') != 'binary' or not data:
            continue
        raw = ''.join(data)
        h = struct.unpack('<4I', base64.b64decode(raw[:24])[:16])
        nb = h[0]
        hl = 4 * (3 + nb)
        hc = (hl + 2) // 3 * 4
        hdr = struct.unpack('<%dI' % (3 + nb), base64.b64decode(raw[:hc])[:hl])
        blob = base64.b64decode(raw[hc:])
        p, dec = 0, b''
        for b in range(nb):
            dec += zlib.decompress(blob[p:p + hdr[3 + b]])
            p += hdr[3 + b]
        ty = {'Float32': 'f', 'Float64': 'd', 'Int32': 'i', 'UInt8': 'B', 'Int64': 'q', 'UInt32': 'I', 'UInt64': 'Q'}.get(at.get('type'))
        if ty:
            a = array.array(ty)
            a.frombytes(dec)
            out.setdefault(at.get('Name', 'points'), []).append((int(at.get('NumberOfComponents', 1)), a))
    return out


NAMES = {'euler': ['rho', 'm_1', 'm_2', 'm_3', 'E']}


def component_names(eq, dim):
    if eq == 'scalar_conservation':
        return ['u']
    if eq == 'shallow_water':
        return ['h'] + ['m_%d' % (i + 1) for i in range(dim)] if dim > 1 else ['h', 'm']
    return ['rho'] + (['m'] if dim == 1 else ['m_%d' % (i + 1) for i in range(dim)]) + ['E']


def vtu_files(run, R, N, P, cwd, eq, dim, o):
    """every output file holds the state of its tick at every node"""
    bad = lambda k, d: R.fail('C19/' + k + '/' + N, d, N)
    mult = int(P.get(A + '/timer output full multiplier', 1))
    names = component_names(eq, dim)
    dg = o['an'][0] == 'd'
    for e, m in with_mesh(run.ev):
        if e.tag != 'P' or int(e.head[1]) % mult:
            continue
        cyc = int(e.head[1])
        files = glob.glob(os.path.join(cwd, 'run-solution_%06d.vtu' % cyc)) + glob.glob(os.path.join(cwd, 'run-solution_%06d.*.vtu' % cyc))
        R.evals += 1
        if not files:
            bad('graphics-file', 'no graphics file of cycle %d' % cyc)
            continue
        near = {}
        for rk, ps in enumerate(m.pos):
            a = e.parts[rk]
            if not ps:
                continue
            nc = (len(a) - e.off) // len(ps)
            for i, x in enumerate(ps):
                near.setdefault(tuple(math.floor(v * 1e4 + .3137) for v in x), []).append((tuple(a[e.off + i * nc:e.off + (i + 1) * nc]), m.con[rk][i]))
        seen = set()
        for f in files:
            try:
                d = vtu_arrays(f)
            except Exception as ex:
                bad('graphics-file', '%s cannot be read: %s' % (os.path.basename(f), ex))
                return
            # the parts of a file follow one another, piece by piece
            pts = [x for n in d for (c, x) in d[n] if n == 'points' and c == 3]
            if not d and len(files) > 1:
                continue  # a rank without cells
            if any(nm not in d for nm in names):
                bad('graphics-fields', '%s has %s' % (os.path.basename(f), sorted(d)))
                return
            for piece, xs in enumerate(pts):
                fields = [d[nm][piece][1] for nm in names]
                for j in range(len(xs) // 3):
                    x = xs[3 * j:3 * j + dim]
                    k = tuple(math.floor(v * 1e4 + .3137) for v in x)
                    c = near.get(k)
                    if not c:
                        continue
                    seen.add(k)
                    if o['an'] == 'dG Q0' or any(con for _, con in c):
                        continue
                    R.nontriv += 1
                    v = [fl[j] for fl in fields]
                    # several discontinuous copies share a point
                    ok = any(all(abs(v[q] - s[q]) <= 3e-7 * max(1e-2, abs(s[q])) for q in range(len(v))) for s, _ in c)
                    if not ok:
                        bad('graphics-values', 'cycle %d at %s: %s instead of %s' % (cyc, list(x), v, c[0][0]))
                        return
        if o['an'][-1] == '1' and len(seen) != len(near):
            bad('graphics-nodes', 'cycle %d: %d of %d nodes are in the files' % (cyc, len(seen), len(near)))


# ------------------------------------------------------------------ refusals
def refuse_case(exe, c, R, cwd):
    """C22: exit status and message of a run that must not start (or must, opts good)"""
    N = c.name
    run = Run(exe, cwd, c.params, c.ranks, timeout=60, every=10**9)
    nsteps = len(run.sel('S'))
    R.evals += 1
    if c.opts.get('good'):
        if conclude(run, R, N) and nsteps:
            R.nontriv += 1
        elif not nsteps:
            R.fail('C22/supported/' + N, 'no step was taken: ' + run.tail(), N)
        return
    if run.dead:
        R.fail('C22/refused/' + N, 'the run did not end: ' + run.tail(), N)
        return
    if run.rc == 0:
        R.fail('C22/refused/' + N, 'the run was not refused (%d steps): %s' % (nsteps, run.tail()), N)
        return
    if nsteps:
        R.fail('C22/before-first-step/' + N, 'refused after %d steps only: %s' % (nsteps, run.tail()), N)
        return
    segv = run.rc in (-11, 139, -8, 136, -7, -4) or 'Segmentation fault' in run.out
    if segv or not re.search(r'what\(\)|ERROR|[Ee]xception|[Ee]rror', run.out):
        R.fail('C22/message/' + N, 'exit status %s without an error message: %s' % (run.rc, run.tail()), N)
        return
    R.nontriv += 1
    R.samples.append('%s: exit status %s' % (N, run.rc))


def template_case(exe, R, cwd):
    """C22: a missing parameter file"""
    os.makedirs(cwd, exist_ok=True)
    for name, args, files in (('none', [], True), ('missing', ['absent.prm'], False), ('two', ['a.prm', 'b.prm'], False)):
        d = os.path.join(cwd, name)
        os.makedirs(d)
        if name == 'two':
            for f in args:
                open(os.path.join(d, f), 'w').close()
        rc, out = run_cmd([exe] + args, d, 120, {'VERIF_TRACE': d, 'OMP_NUM_THREADS': '1', 'DEAL_II_NUM_THREADS': '1'}, mem=6 << 30)
        R.evals += 1
        made = sorted(f for f in os.listdir(d) if f.startswith('default_parameters'))
        if rc is None or rc == 0 or rc < 0 or not re.search('ERROR|INFO', out):
            R.fail('C22/command-line/' + name, 'exit status %s: %s' % (rc, out[-200:]), name)
            continue
        if bool(made) != files:
            R.fail('C22/command-line/' + name, 'default parameter files: %s' % made[:5], name)
            continue
        if os.path.exists(os.path.join(d, 'trace.0')):
            R.fail('C22/command-line/' + name, 'a run was started', name)
            continue
        R.nontriv += 1
        if not files:
            continue
        want = set()
        for eq in ('euler', 'euler_aeos', 'navier_stokes', 'scalar_conservation', 'shallow_water'):
            for dim in (1, 2, 3):
                want.add('default_parameters-%s-%dd.prm' % (eq, dim))
            want.add('default_parameters-%s-2d-description.prm' % eq)
        lost = sorted(f for f in want if f not in made)
        R.evals += 1
        if lost:
            R.fail('C22/templates/files', 'no %s' % lost[:4], name)
        # each template is accepted: a run gets past its parameters
        for f in made:
            if f.endswith('-description.prm'):
                continue
            with open(os.path.join(d, f)) as fh:
                txt = fh.read()
            txt = re.sub(r'(set final time *=).*', r'\1 1e-12', txt)
            txt = re.sub(r'(set mesh refinement *=).*', r'\1 0', txt)
            txt = re.sub(r'(set geometry *=).*', r'\1 rectangular domain', txt)
            run = Run(exe, os.path.join(d, f[:-4]), txt, 1, timeout=60, every=10**9)
            R.evals += 1
            if run.rc != 0:
                R.fail('C22/templates/' + f, 'exit status %s: %s' % (run.rc, run.tail()), f)
            else:
                R.nontriv += 1


# ------------------------------------------------------------------ crashes while a checkpoint is written
SUFFIXES = ('.mesh', '.mesh_fixed.data', '.mesh.info', '.metadata')


def files_of(d):
    r = {}
    for s in SUFFIXES:
        for t in ('', '~'):
            try:
                with open(os.path.join(d, 'run-checkpoint' + s + t), 'rb') as f:
                    r[s + t] = f.read()
            except OSError:
                pass
    return r


def crash_case(exe, c, R, cwd, lib, pick, slots=None):
    """C09: references (one run per checkpoint), then one run per crash point; every crash point is
    judged on the files left behind and on what a resume makes of them"""
    from concurrent.futures import ThreadPoolExecutor
    N, g, np_ = c.name, c.opts['g'], c.ranks
    K = 'C09/'
    nchk = c.opts['nchk']
    counts = [[0] * np_ for _ in range(nchk)]
    ref, state, mesh, head = [], [], [], []
    for j in range(nchk):
        P = dict(c.params)
        P[A + '/final time'] = (j + .5) * g if j else 1e-9
        for rk in range(np_):
            d = os.path.join(cwd, 'ref%d-%d' % (j, rk))
            cnt = os.path.join(d, 'count')
            env = {'CRASHFS_NEEDLE': '-checkpoint.', 'CRASHFS_AT': '0', 'CRASHFS_COUNT': cnt, 'CRASHFS_RANK': str(rk), 'LD_PRELOAD': lib}
            r = Run(exe, d, P, np_, every=10**9, env=env)
            if not conclude(r, R, N + '/reference'):
                return
            try:
                with open(cnt) as f:
                    counts[j][rk] = int(f.read())
            except OSError:
                counts[j][rk] = 0
            if rk:
                continue
            C = [(e, m) for e, m in with_mesh(r.ev) if e.tag == 'C']
            if len(C) != j + 1:
                R.fail(K + 'reference/' + N, '%d checkpoints instead of %d' % (len(C), j + 1), N)
                return
            fs = files_of(d)
            if any(s not in fs for s in SUFFIXES):
                R.fail(K + 'complete/' + N, 'after checkpoint %d only %s exist' % (j, sorted(fs)), N)
                return
            ref.append([fs[s] for s in SUFFIXES])
            state.append(C[-1][1].state(C[-1][0]))
            head.append(C[-1][0].head)
        if j > 1:
            # the files of the reference runs are those of one history
            if any(fs.get(s + '~') not in (ref[j - 1][i],) for i, s in enumerate(SUFFIXES) if s + '~' in fs):
                R.stats['history-differs'] = R.stats.get('history-differs', 0) + 1
    if len(set(ref[j][3] for j in range(nchk))) != nchk:
        R.fail(K + 'reference/' + N, 'the checkpoints cannot be told apart', N)
        return
    points = []
    for rk in range(np_):
        for n in range(1, counts[-1][rk] + 1):
            k = min(j for j in range(nchk) if n <= counts[j][rk])
            points.append((rk, n, k, False))
            points.append((rk, n, k, True))
    R.stats['operations'] = R.stats.get('operations', 0) + sum(counts[-1])
    points = pick(points)
    same = lambda fs, j, mix: all(ref[j][i] in ([fs.get(s), fs.get(s + '~')] if mix else [fs.get(s)]) for i, s in enumerate(SUFFIXES))

    def resume(d, tag):
        P = dict(c.params)
        P[A + '/resume'] = 'true'
        P[A + '/enable checkpointing'] = 'false'
        P[A + '/enable mesh adaptivity'] = 'false'
        P[A + '/final time'] = 1e-9
        return Run(exe, d, P, np_, name=tag, timeout=60)

    def one(pt):
        rk, n, k, torn = pt
        tag = '%s/rank%d-op%d%s' % (N, rk, n, '-torn' if torn else '')
        d = os.path.join(cwd, 'c%d-%d-%d' % (rk, n, torn))
        P = dict(c.params)
        P[A + '/final time'] = (nchk - .5) * g
        env = {'CRASHFS_NEEDLE': '-checkpoint.', 'CRASHFS_AT': str(n), 'CRASHFS_RANK': str(rk), 'LD_PRELOAD': lib}
        if torn:
            env['CRASHFS_TORN'] = '1'
        res = []
        r = Run(exe, d, P, np_, every=10**9, env=env, timeout=60)
        if r.dead:
            return [('hang', tag, r.tail())]
        if r.rc == 0:
            return [('none', tag, 'no crash')]
        fs = files_of(d)
        # complete checkpoints before the crash: those numbered below k
        ok = [j for j in (k, k - 1) if j >= 0 and same(fs, j, True)]
        if k > 0 and not ok:
            have = {s: [j for j in range(nchk) if ref[j][SUFFIXES.index(s.rstrip('~'))] == v] for s, v in fs.items()}
            res.append(('lost', tag, 'crash in checkpoint %d: no complete checkpoint is left; files and the checkpoints they belong to: %s' % (k, have)))
        r = resume(d, 'again')
        L = [(e, m) for e, m in with_mesh(r.ev) if e.tag == 'L']
        if r.dead:
            res.append(('resume-hang', tag, r.tail()))
        elif r.rc == 0 or L:
            fit = [j for j in range(nchk) if L and L[0][0].head[:2] == head[j] and (distance(L[0][1].state(L[0][0]), state[j]) or 0.) <= 1e-13
                   and L[0][1].state(L[0][0]).keys() == state[j].keys()]
            if not fit or fit[0] not in (k, k - 1):
                res.append(('wrong-resume', tag, 'the resumed run starts at %s with the state of %s; crash in checkpoint %d' % (L[0][0].head if L else None, fit, k)))
            res.append(('resumed', tag, ''))
        else:
            res.append(('refused', tag, ''))
        if ok and not same(fs, ok[0], False):
            # put the surviving set in place
            d2 = d + '-restored'
            os.makedirs(d2)
            for i, s in enumerate(SUFFIXES):
                with open(os.path.join(d2, 'run-checkpoint' + s), 'wb') as f:
                    f.write(ref[ok[0]][i])
            r = resume(d2, 'restored')
            L = [(e, m) for e, m in with_mesh(r.ev) if e.tag == 'L']
            if r.rc != 0 or not L or L[0][0].head[:2] != head[ok[0]] or distance(L[0][1].state(L[0][0]), state[ok[0]]) is None or \
               distance(L[0][1].state(L[0][0]), state[ok[0]]) > 1e-13:
                res.append(('restore', tag, 'the surviving set of checkpoint %d does not resume: %s' % (ok[0], r.tail())))
            else:
                res.append(('restored', tag, ''))
            shutil.rmtree(d2, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        return res

    def guarded(pt):
        if slots:
            slots.acquire(np_)
        try:
            return one(pt)
        finally:
            if slots:
                slots.release(np_)

    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(guarded, points):
            R.evals += 1
            for kind, tag, detail in res:
                if os.environ.get('VERIF_DEBUG'):
                    print(kind, tag, detail)
                R.stats[kind] = R.stats.get(kind, 0) + 1
                if kind in ('resumed', 'refused', 'restored'):
                    R.nontriv += 1
                elif kind != 'none':
                    R.fail(K + kind + '/' + tag, detail, tag)
    R.samples.append('%s: %d crash points of %d operations per rank %s' % (N, len(points), sum(counts[-1]), [c[0] for c in counts]))
