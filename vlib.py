"""Running instrumented drivers, collecting what the monitors saw, verdicts."""
import os, resource, sys, json, time, random, subprocess, re, shutil, tempfile, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
KNOWN = os.path.join(VERIF, 'known_findings.txt')
CORES = int(os.environ.get('VERIF_CORES', '8'))

ENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_mpi_yield_when_idle='1',
           OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
           OMPI_MCA_plm_rsh_agent='sh', OMPI_MCA_ess_singleton_isolated='1', OPENBLAS_NUM_THREADS='1', OMP_WAIT_POLICY='passive',
           OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none')


def env(extra=None):
    e = dict(os.environ)
    e.update(ENV)
    e.update(extra or {})
    return e


LAUNCH = r'ompi_rte_init failed|orte_init failed|Unable to start a daemon|ORTE_ERROR_LOG|PMIX ERROR|pmix_init'


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ parameters
def prm_text(params):
    """{'C - Discretization/geometry': 'x'} -> parameter file text"""
    tree = {}
    for k, v in params.items():
        parts = k.split('/')
        d = tree
        for p in parts[:-1]:
            d = d.setdefault(p, {})
        d[parts[-1]] = v
    out = []

    def emit(d, ind):
        for k, v in d.items():
            if isinstance(v, dict):
                out.append('%ssubsection %s' % (ind, k))
                emit(v, ind + '  ')
                out.append(ind + 'end')
            else:
                out.append('%sset %s = %s' % (ind, k, v))
    emit(tree, '')
    return '\n'.join(out) + '\n'


class Case:
    """one parameter file with driver options"""

    def __init__(self, name, params=None, ranks=1, threads=1, timeout=240, **opts):
        self.name, self.params, self.opts = name, dict(params or {}), dict(opts)
        self.ranks, self.threads, self.timeout = ranks, threads, timeout

    def text(self):
        o = dict(self.opts, name=self.name)
        return ''.join('#@ %s=%s\n' % kv for kv in o.items()) + prm_text(self.params)


class Result:
    def __init__(self):
        self.fails = {}      # key -> [count, detail, replay text]
        self.evals = 0
        self.nontriv = 0
        self.samples = []
        self.stats = {}
        self.info = []

    def fail(self, key, detail, replay=''):
        if key in self.fails:
            self.fails[key][0] += 1
        else:
            self.fails[key] = [1, detail, replay]

    def merge(self, o):
        for k, v in o.fails.items():
            if k in self.fails:
                self.fails[k][0] += v[0]
            else:
                self.fails[k] = v
        self.evals += o.evals
        self.nontriv += o.nontriv
        self.samples += o.samples
        self.info += o.info
        for k, v in o.stats.items():
            self.stats[k] = max(self.stats.get(k, v), v)


def scratch():
    d = os.environ.get('VERIF_SCRATCH')
    if d:
        os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix='verif.', dir=d)


def run_cmd(cmd, cwd, timeout, extra_env=None, stdin=None, mem=None):
    """returns (rc or None on timeout, output)"""
    ee = {'TMPDIR': cwd}
    ee.update(extra_env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=env(ee), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True,
                         preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            out, _ = p.communicate(timeout=20)
        except Exception:
            out = b''
        return None, out.decode(errors='replace')


def mpi_cmd(exe, ranks):
    if ranks <= 1:
        return [exe]
    return ['mpirun', '--oversubscribe', '--bind-to', 'none', '-np', str(ranks), exe]


def run_group(exe, cases, ranks, threads, timeout, extra_env=None, crash_prefix='crash'):
    """run several cases in one process; a crash is attributed to the case that was active"""
    res = Result()
    todo = list(cases)
    retried = set()
    launches = 0
    while todo:
        d = scratch()
        try:
            files = []
            for n, c in enumerate(todo):
                f = os.path.join(d, 'c%03d.prm' % n)
                with open(f, 'w') as fh:
                    fh.write(c.text())
                files.append(f)
            ee = {'VERIF_THREADS': str(threads), 'OMP_NUM_THREADS': str(threads)}
            ee.update(extra_env or {})
            rc, out = run_cmd(mpi_cmd(exe, ranks) + files, d, timeout, ee)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc != 0 and 'CASE ' not in out and launches < 6 and re.search(LAUNCH, out):
            launches += 1  # the MPI runtime did not come up: says nothing about the code
            time.sleep(launches * random.random())
            continue
        cur = None
        ndone = 0
        for line in out.split('\n'):
            if line.startswith('CASE '):
                cur = os.path.basename(line[5:].strip())
            elif line.startswith('FAIL '):
                key, _, det = line[5:].partition(' | ')
                idx = int(cur[1:4]) if cur else 0
                c = todo[idx] if idx < len(todo) else todo[-1]
                res.fail(key, det, '# %s ranks=%d threads=%d env=%s\n%s' % (os.path.basename(exe), ranks, threads,
                                                                       extra_env or '', c.text()))
            elif line.startswith('EVAL '):
                res.evals += int(line.split()[1])
            elif line.startswith('NONTRIVIAL '):
                res.nontriv += int(line.split()[1])
            elif line.startswith('SAMPLE '):
                res.samples.append(line[7:])
            elif line.startswith('INFO '):
                res.info.append(line[5:])
            elif line.startswith('STAT '):
                p = line.split()
                try:
                    v = float(p[2])
                    res.stats[p[1]] = max(res.stats.get(p[1], v), v)
                except (IndexError, ValueError):
                    pass
            elif line.startswith('DONE'):
                ndone += 1
        if rc == 0 and ndone >= 1:
            break
        # abnormal end: attribute and go on with the remaining cases
        idx = int(cur[1:4]) if cur else 0
        c = todo[idx]
        what = 'hang' if rc is None else 'crash'
        if what == 'hang' and c.name not in retried:
            retried.add(c.name)
            todo = todo[idx:]
            continue
        san = re.findall(r'(?:ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|ERROR: LeakSanitizer[^\n]*|'
                         r'WARNING: ThreadSanitizer[^\n]*|Assertion[^\n]*|terminate called[^\n]*|what\(\):[^\n]*)', out)
        tail = ' / '.join(san[:3]) if san else out[-600:].replace('\n', ' ~ ')
        res.fail('%s/%s' % (what if what == 'hang' else crash_prefix, c.name), 'rc=%s %s' % (rc, tail),
                 '# %s ranks=%d threads=%d\n%s\n# output:\n%s' % (os.path.basename(exe), ranks, threads, c.text(),
                                                             '\n'.join('# ' + l for l in out.split('\n')[-120:])))
        todo = todo[idx + 1:]
        if rc == 127 or 'error while loading shared' in out:
            raise HarnessError(out[-500:])
    return res


def run_cases(exe, cases, extra_env=None, per_proc=None, crash_prefix='crash'):
    """distribute cases over the machine"""
    res = Result()
    buckets = {}
    for c in cases:
        buckets.setdefault((c.ranks, c.threads), []).append(c)
    jobs = []
    for (ranks, threads), cs in buckets.items():
        width = max(1, CORES // (ranks * threads))
        n = per_proc or max(1, min(12, -(-len(cs) // width)))
        # deal round-robin so that expensive neighbours spread out
        k = -(-len(cs) // n)
        for g in range(k):
            grp = cs[g::k]
            if grp:
                jobs.append((ranks * threads, grp, ranks, threads))
    jobs.sort(key=lambda j: (-j[0], -len(j[1])))
    slots = Slots(CORES)

    def work(j):
        w, grp, ranks, threads = j
        w = min(w, CORES)
        slots.acquire(w)
        try:
            return run_group(exe, grp, ranks, threads, max(c.timeout for c in grp) + 60 * len(grp), extra_env,
                             crash_prefix)
        finally:
            slots.release(w)
    with ThreadPoolExecutor(max(1, len(jobs))) as ex:
        for r in ex.map(work, jobs):
            res.merge(r)
    return res


class Slots:
    def __init__(self, n):
        import threading
        self.n, self.c = n, threading.Condition()

    def acquire(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def release(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


# -------------------------------------------------------------------- verdicts
def known_findings(prop):
    """finding lines:  finding: property=<id> key=<regex> <text>"""
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
                if m and m.group(1) == prop:
                    out.append((re.compile(m.group(2) + r'$'), m.group(3).strip()))
    except OSError:
        pass
    return out


def finish(prop, res, rule, t0, level='exploration', extra=None, assumptions=None, exit_now=True, min_evals=1):
    kf = known_findings(prop)
    viol, known = [], {}
    for key in sorted(res.fails):
        for rx, text in kf:
            if rx.match(key):
                known.setdefault(text, []).append(key)
                break
        else:
            viol.append(key)
    for text, keys in known.items():
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, text, keys[0]))
    cov = dict(evaluations=int(res.evals), distinct_nontrivial=int(res.nontriv), rule=rule,
               samples=res.samples[:8] or ['(none)'])
    if res.stats:
        cov['observed'] = {k: v for k, v in sorted(res.stats.items())[:80]}
    if known:
        cov['known_findings'] = {t: len(k) for t, k in known.items()}
    cov.update(extra or {})
    ev = dict(property=prop, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=level, coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if assumptions:
        ev['assumptions'] = assumptions
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if viol:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s.txt' % prop)
        with open(rp, 'w') as f:
            f.write('property %s seed %d tier %s\n' % (prop, SEED, TIER))
            for key in viol[:30]:
                n, det, rep = res.fails[key]
                f.write('\n=== %s (%d times)\n%s\n--- replay\n%s\n' % (key, n, det, rep))
        for key in viol[:12]:
            print('  %s (%d): %s' % (key, res.fails[key][0], res.fails[key][1][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    if res.evals < min_evals or res.nontriv < 1:
        print('check of %s observed too little (%d evaluations, %d non-trivial)' % (prop, res.evals, res.nontriv))
        sys.exit(3)
    print('property %s held: %d evaluations, %d non-trivial, %.1f s' % (prop, res.evals, res.nontriv, time.time() - t0))
    sys.exit(0)
