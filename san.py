"""Reports of the sanitizers, read from the files they write."""
import glob, os, re, threading
from vlib import Result


def frames(lines):
    """functions of the repository on a stack, innermost first"""
    out = []
    for l in lines:
        m = re.match(r'\s*#\d+ (.*)', l)
        if not m:
            if out or not l.strip():
                break
            continue
        out.append(m.group(1))
    return out


def strip(f):
    """function name without arguments of templates and parameters"""
    f = re.sub(r'\(anonymous namespace\)', 'anon', f)
    f = re.sub(r'operator\(\)', 'call', f)
    f = re.sub(r'\{lambda.*', 'lambda', f)
    r, d = '', 0
    for c in f:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d <= 0:
            r += c
    m = re.search(r'(ryujin::[\w:~]+)', r)
    return m.group(1)[len('ryujin::'):] if m else None


def names(stack, n=3):
    out = []
    for f in stack:
        k = strip(f.split(' /')[0])
        if k and (not out or out[-1] != k):
            out.append(k)
    return out[:n]


class Races:
    """data races seen by ThreadSanitizer in runs on the visible thread team"""
    slow = 6

    def __init__(self, seed):
        self.R, self.lock, self.seed, self.k = Result(), threading.Lock(), seed, 0
        self.tot = dict(regions=0, barriers=0, singles=0, delays=0, orders=0, exchanges=0, entries_sent=0, runs=0)

    def before(self, run, e):
        with self.lock:
            self.k += 1
            k = self.k
        team = 2 + (k * 7 + self.seed) % 3 if run.ranks > 1 else 2 + (k * 5 + self.seed) % 6
        run.san = os.path.join(run.cwd, 'san-%d' % k)
        e.update(DEAL_II_NUM_THREADS='1', PMIX_MCA_gds='hash', VERIF_TEAM=str(team), VERIF_TEAM_SEED=str(self.seed * 1000 + k),
                 VERIF_TEAM_STATS=run.san + '.team', VERIF_EXCHANGE_STATS=run.san + '.sent',
                 TSAN_OPTIONS='exitcode=0 ignore_noninstrumented_modules=1 report_signal_unsafe=0 report_thread_leaks=0 history_size=4 '
                              'log_path=%s.log' % run.san)

    def after(self, run):
        R = Result()
        for f in glob.glob(run.san + '.log.*'):
            with open(f, errors='replace') as fh:
                t = fh.read()
            for b in t.split('WARNING: ThreadSanitizer:')[1:]:
                lines = b.split('\n')
                if 'data race' not in lines[0]:
                    R.fail('C12/other/' + lines[0].split('(')[0].strip().replace(' ', '-'), ' / '.join(l.strip() for l in lines[:8])[:600], run.params
                           if isinstance(run.params, str) else str(run.params))
                    continue
                sides = []
                for k, l in enumerate(lines):
                    m = re.match(r'\s+(?:Previous )?(?:atomic )?(read|write|Read|Write) of size', l)
                    if m:
                        st = frames(lines[k + 1:k + 40])
                        sides.append((m.group(1).lower(), names(st), st))
                # the repository's code has to take part
                if not any(n for _, n, _ in sides) and not any('/source/' in f for _, _, s in sides for f in s):
                    continue
                key = '|'.join(sorted('%s:%s' % (a, '<'.join(n)) for a, n, _ in sides))
                R.fail('C12/race/' + key, ' -- '.join('%s in %s' % (a, ' < '.join(n) or '?') for a, n, _ in sides),
                       '%d ranks\n%s\n%s' % (run.ranks, b[:6000], run.params if isinstance(run.params, str) else run.params))
        n = [0] * 8
        m = [0] * 3
        for f, a in ((run.san + '.team', n), (run.san + '.sent', m)):
            try:
                with open(f) as fh:
                    for l in fh:
                        for i, w in enumerate(l.split()):
                            a[i] += int(w)
            except OSError:
                pass
        if n[0]:
            R.evals += n[0]
            R.nontriv += n[1]
        if run.dead:
            R.fail('C12/stuck', 'no end within the time limit: ' + run.tail(), str(run.params))
        with self.lock:
            for k, v in zip(('regions', 'barriers', 'singles', 'delays'), n):
                self.tot[k] += v
            self.tot['orders'] += n[6]
            self.tot['exchanges'] += m[0]
            self.tot['entries_sent'] += m[1]
            self.tot['runs'] += 1
            self.R.merge(R)


class Memory:
    """errors seen by AddressSanitizer and UndefinedBehaviorSanitizer"""
    slow = 8

    def __init__(self, seed):
        self.R, self.lock, self.seed, self.k = Result(), threading.Lock(), seed, 0
        self.tot = dict(runs=0, finished=0, refused_or_failed=0, events=0, compared=0, files_compared=0)

    def before(self, run, e):
        with self.lock:
            self.k += 1
            k = self.k
        run.san = os.path.join(run.cwd, 'san-%d' % k)
        o = 'detect_leaks=0:detect_container_overflow=0:alloc_dealloc_mismatch=0:max_malloc_fill_size=2000000000:malloc_fill_byte=255:' \
            'max_free_fill_size=65536:handle_abort=0:exitcode=77:log_path=%s.log' % run.san
        e.update(ASAN_OPTIONS=o, UBSAN_OPTIONS='print_stacktrace=1:exitcode=77:log_path=%s.log' % run.san)

    def after(self, run):
        R = Result()
        self.scan(R, glob.glob(run.san + '.log.*'), run.params if isinstance(run.params, str) else str(run.params), '%d ranks' % run.ranks)
        m = re.search(r'[^\n]*c\+\+[^\n]*: [^\n]*Assertion [^\n]*', run.out)
        if m:
            R.fail('C11/library-assertion', m.group(0)[:400], str(run.params))
        if run.dead:
            R.fail('C11/stuck', 'no end within the time limit: ' + run.tail(), str(run.params))
        R.evals += 1
        if run.ev:
            R.nontriv += 1
        with self.lock:
            self.tot['runs'] += 1
            self.tot['finished'] += run.rc == 0
            self.tot['refused_or_failed'] += run.rc != 0
            self.tot['events'] += len(run.ev)
            self.R.merge(R)

    @staticmethod
    def scan(R, files, replay, head=''):
        for f in files:
            with open(f, errors='replace') as fh:
                t = fh.read()
            for b in re.split(r'(?m)(?=ERROR: AddressSanitizer|^[^\n]*runtime error: )', t)[1:]:
                lines = b.split('\n')
                m = re.match(r'ERROR: AddressSanitizer:? ([\w-]+)', lines[0])
                if m:
                    what = m.group(1)
                else:
                    what = re.sub(r'0x[0-9a-f]+|[-+]?\d[\d.e+-]*', 'N', lines[0].partition('runtime error: ')[2])
                    what = re.sub(r"'[^']*'", 'T', what).strip()[:60].replace(' ', '-')
                if what in ('ABRT', 'ILL'):
                    continue
                st = []
                for k, l in enumerate(lines):
                    if re.match(r'\s*#0 ', l):
                        st = [re.sub(r'^0x[0-9a-f]+ in ', '', x) for x in frames(lines[k:k + 60])]
                        break
                n = names(st, 3)
                R.fail('C11/%s/%s' % (what, '<'.join(n) or '?'), '%s in %s' % (lines[0].strip()[:200], ' < '.join(n) or ' < '.join(st[:3])),
                       '%s\n%s\n%s' % (head, b[:6000], replay))


def nans(e):
    return sum(1 for p in e.parts for v in p if v != v)


def same_run(R, a, b, c, name):
    """a: under the sanitizers, fresh memory full of NaN; b, c: two runs that differ in the contents of fresh memory only"""
    n = f = 0
    if (a.rc == 0) != (b.rc == 0) and not a.dead and not b.dead:
        R.fail('C11/depends-on-fresh-memory/exit', '%s: exit %s / %s: %s' % (name, a.rc, b.rc, (b if a.rc == 0 else a).tail()), str(a.params))
    elif [e.tag for e in a.ev][:1] == [e.tag for e in b.ev][:1]:
        for x, y in zip(a.ev, b.ev):
            if x.tag != y.tag:
                break
            n += 1
            if nans(x) > nans(y):
                R.fail('C11/depends-on-fresh-memory/nan/' + x.tag, '%s: event %d has %d NaN' % (name, n, nans(x)), str(a.params))
                break
    if b.rc != c.rc:
        R.fail('C11/depends-on-fresh-memory/exit', '%s: exit %s / %s: %s' % (name, b.rc, c.rc, (b if c.rc == 0 else c).tail()), str(a.params))
        return n, f
    if [e.tag for e in b.ev] != [e.tag for e in c.ev]:
        R.fail('C11/depends-on-fresh-memory/events', '%s: %d and %d events' % (name, len(b.ev), len(c.ev)), str(a.params))
        return n, f
    for k, (x, y) in enumerate(zip(b.ev, c.ev)):
        n += 1
        if any(p.tobytes() != q.tobytes() for p, q in zip(x.parts, y.parts)):
            d = [(i, u, v) for p, q in zip(x.parts, y.parts) for i, (u, v) in enumerate(zip(p, q)) if u != v]
            R.fail('C11/depends-on-fresh-memory/' + x.tag, '%s: event %d differs in %d numbers, e.g. %s' % (name, k, len(d), d[:2]), str(a.params))
            break
    if b.rc == 0:
        # (the files of the mesh are written by p4est, which leaves gaps in its records as they are)
        fs = [set(os.path.relpath(p, r.cwd) for p in glob.glob(os.path.join(r.cwd, '**'), recursive=True)
                  if os.path.isfile(p) and re.search(r'\.(dat|vtu|metadata)$|checkpoint', p) and not re.search(r'\.log$|mesh', p)) for r in (b, c)]
        for p in sorted(fs[0] & fs[1]):
            f += 1
            with open(os.path.join(b.cwd, p), 'rb') as u, open(os.path.join(c.cwd, p), 'rb') as v:
                u, v = u.read(), v.read()
                if p.endswith('.vtu'):
                    u, v = u[u.find(b'<VTKFile'):], v[v.find(b'<VTKFile'):]
                if u != v:
                    R.fail('C11/depends-on-fresh-memory/file', '%s: %s' % (name, p), str(a.params))
        if fs[0] != fs[1]:
            R.fail('C11/depends-on-fresh-memory/files', '%s: %s' % (name, sorted(fs[0] ^ fs[1])[:5]), str(a.params))
    return n, f
