#!/usr/bin/env python3
"""Content-hash based incremental build of instrumented /repo objects.

Every object is rebuilt iff its command line or the content of any file it
was built from (outside /usr) changed; modification times play no role.
"""
import os, sys, json, hashlib, subprocess, threading, re
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'source')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
VSRC = os.path.join(VERIF, 'src')

SYS = ['/usr/lib/x86_64-linux-gnu/openmpi/include',
       '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
       '/usr/include/petsc', '/usr/include/trilinos', '/usr/include/hdf5/openmpi',
       '/usr/include/scotch', '/usr/include/suitesparse', '/usr/include/opencascade',
       '/usr/include/slepc']
LIBDIR = '/usr/lib/x86_64-linux-gnu'

#             flags, cto defines, pch?, link flags
SANITIZE = '-fsanitize=address,bounds,shift,integer-divide-by-zero,signed-integer-overflow,float-cast-overflow,bool,enum,' \
           'unreachable,return,null'

VARIANTS = {
    'opt':  dict(cflags=['-O1', '-DNDEBUG'], cto={}, ld=['-fopenmp']),
    # (gcc needs ten minutes for each of the large files with these)
    'asan': dict(cxx='clang++', omp=False,
                 cflags=['-O1', '-gline-tables-only', '-DNDEBUG', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', SANITIZE,
                         '-fno-sanitize-recover=all', '-fsanitize-address-use-after-scope', '-ftrivial-auto-var-init=pattern',
                         '-I' + os.path.join(VSRC, 'serial'),
                         '-fsanitize-ignorelist=' + os.path.join(VSRC, 'serial', 'ignore.txt')],
                 cto={}, ld=[SANITIZE], split=True),
    # thread team and work stream visible to the race detector
    'tsan': dict(cflags=['-O1', '-g1', '-DNDEBUG', '-fsanitize=thread', '-I' + os.path.join(VSRC, 'tsan')],
                 cto={'ASYNC_MPI_EXCHANGE': ''}, ld=['-fsanitize=thread']),
    'async': dict(cflags=['-O1', '-DNDEBUG'], cto={'ASYNC_MPI_EXCHANGE': ''}, ld=['-fopenmp']),
    'simd': dict(cflags=['-O1', '-DNDEBUG', '-mavx2', '-mfma', '-ffp-contract=off'], cto={}, width=256, ld=['-fopenmp']),
    'debug': dict(cflags=['-O1', '-DDEBUG', '-g1'], cto={}, ld=['-fopenmp'], lib='libdeal.ii.g.so'),
}

COMMON = ['discretization', 'equation_dispatch', 'multicomponent_vector', 'offline_data', 'simd',
          'sparse_matrix_simd', 'version_info']
DEPENDENT = ['hyperbolic_module', 'initial_values', 'mesh_adaptor', 'parabolic_module', 'postprocessor',
             'quantities', 'time_integrator', 'time_loop', 'vtu_output']


def sha(b):
    return hashlib.sha256(b).hexdigest()


class Hasher:
    def __init__(self):
        self.memo = {}
        self.lock = threading.Lock()

    def file(self, p):
        with self.lock:
            if p in self.memo:
                return self.memo[p]
        try:
            with open(p, 'rb') as f:
                h = sha(f.read())
        except OSError:
            h = 'missing'
        with self.lock:
            self.memo[p] = h
        return h


HASH = Hasher()


class BuildError(Exception):
    pass


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def gen_dir(variant):
    """Configured header(s) of a variant, derived from the tree's own template."""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant, 'gen')
    with open(os.path.join(SRC, 'compile_time_options.h.in')) as f:
        txt = f.read()
    on = dict(DENORMALS_ARE_ZERO='', WITH_OPENMP='')
    on.update(v['cto'])
    txt = txt.replace('@NUMBER@', 'double')

    def sub(m):
        n = m.group(1)
        return '#define %s' % n if n in on else '/* #undef %s */' % n
    txt = re.sub(r'^#cmakedefine\s+(\w+).*$', sub, txt, flags=re.M)
    write_if_changed(os.path.join(d, 'compile_time_options.h'), txt)
    if 'width' in v:
        with open('/usr/include/deal.II/base/config.h') as f:
            c = f.read()
        c = re.sub(r'#define DEAL_II_VECTORIZATION_WIDTH_IN_BITS \d+',
                   '#define DEAL_II_VECTORIZATION_WIDTH_IN_BITS %d' % v['width'], c)
        # the vector class library (a submodule) is not there: wide types, but
        # the generic power functions
        c = re.sub(r'#define DEAL_II_COMPILER_VECTORIZATION_LEVEL \d', '#define DEAL_II_COMPILER_VECTORIZATION_LEVEL 0', c)
        write_if_changed(os.path.join(d, 'deal.II/base/config.h'), c)
    return d


class Job:
    """One output file made by one command from tracked inputs."""

    def __init__(self, out, cmd, inputs=(), deps=(), depfile=None):
        self.out, self.cmd, self.inputs, self.deps, self.depfile = out, cmd, list(inputs), list(deps), depfile

    def state_file(self):
        return self.out + '.state'

    def fresh(self):
        try:
            with open(self.state_file()) as f:
                st = json.load(f)
        except (OSError, ValueError):
            return False
        if not os.path.exists(self.out) or st['cmd'] != self.cmd:
            return False
        for p, h in st['files'].items():
            if HASH.file(p) != h:
                return False
        return True

    def run(self):
        os.makedirs(os.path.dirname(self.out), exist_ok=True)
        for p in (self.out, self.state_file()):
            if os.path.exists(p):
                os.unlink(p)
        r = subprocess.run(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError('%s\n%s' % (' '.join(self.cmd), r.stdout[-6000:]))
        files = list(self.inputs)
        if self.depfile:
            with open(self.depfile) as f:
                t = f.read().replace('\\\n', ' ')
            t = t.split(':', 1)[1]
            for p in t.split():
                if not p.startswith('/usr/'):
                    files.append(p)
        with HASH.lock:
            HASH.memo.pop(self.out, None)
        with open(self.state_file(), 'w') as f:
            json.dump({'cmd': self.cmd, 'files': {p: HASH.file(p) for p in dict.fromkeys(files)}}, f)


# instrumented sources
HOOKS = {'time_loop': dict(defs=('RYUJIN_VERIF_HOOKS',), extra=('-I' + os.path.join(VSRC, 'hooks'),))}


class Builder:
    def __init__(self, verbose=False, jobs=None):
        self.jobs = {}       # out -> Job
        self.verbose = verbose
        self.n = jobs or int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))
        self.rebuilt = []

    def base_flags(self, variant):
        v = VARIANTS[variant]
        fl = ['-std=c++17', '-w', '-pipe'] + (['-fopenmp'] if v.get('omp', True) else []) + v['cflags'] + ['-I' + gen_dir(variant)]
        return fl

    def cxx(self, variant):
        return VARIANTS[variant].get('cxx', 'g++')

    def pch(self, variant):
        d = os.path.join(BUILD, variant, 'pch')
        out = os.path.join(d, 'pch.h.gch')
        if out not in self.jobs:
            with open(os.path.join(VSRC, 'pch.h')) as f:
                write_if_changed(os.path.join(d, 'pch.h'), f.read())
            cmd = [self.cxx(variant)] + self.base_flags(variant) + sum((['-isystem', s] for s in SYS), []) + \
                  ['-x', 'c++-header', os.path.join(d, 'pch.h'), '-o', out]
            self.jobs[out] = Job(out, cmd, inputs=[os.path.join(d, 'pch.h')])
        return out

    def obj(self, variant, name, src, eq=None, defs=(), extra=(), pch=True):
        out = os.path.join(BUILD, variant, name + '.o')
        if out in self.jobs:
            return out
        fl = self.base_flags(variant)
        if eq:
            fl = fl + ['-I' + os.path.join(SRC, eq)]
        fl = fl + ['-I' + SRC, '-I' + VSRC] + sum((['-isystem', s] for s in SYS), [])
        deps = []
        if pch and os.environ.get('VERIF_PCH', '1') == '1':
            p = self.pch(variant)
            deps.append(p)
            fl = fl + ['-include', p[:-4]]
        dep = out + '.d'
        cmd = [self.cxx(variant)] + fl + ['-D' + d for d in defs] + list(extra) + ['-MD', '-MF', dep, '-c', src, '-o', out]
        self.jobs[out] = Job(out, cmd, deps=deps, depfile=dep)
        return out

    def exe(self, variant, name, objs, extra=()):
        v = VARIANTS[variant]
        out = os.path.join(BUILD, variant, name)
        lib = os.path.join(LIBDIR, v.get('lib', 'libdeal.ii.so'))
        cmd = [self.cxx(variant)] + list(objs) + v['ld'] + list(extra) + LINKLIBS(lib) + ['-o', out]
        self.jobs[out] = Job(out, cmd, inputs=list(objs), deps=list(objs))
        return out

    # ---- groups of repository objects --------------------------------
    VERSION_DEFS = ['RYUJIN_VERSION="v"', 'RYUJIN_GIT_REVISION="r"', 'RYUJIN_GIT_SHORTREV="s"']

    def common(self, variant):
        return [self.obj(variant, 'common_' + c,
                         os.path.join(VERIF, 'src', 'simd_wide.cc') if (c, variant) == ('simd', 'simd') else os.path.join(SRC, c + '.cc'),
                         defs=self.VERSION_DEFS if c == 'version_info' else (), pch=(c not in ('simd',)))
                for c in COMMON]

    def equation(self, variant, eq, with_dispatch=False, parts=None):
        objs = []
        for c in DEPENDENT:
            if parts is None or c in parts:
                if VARIANTS[variant].get('split') and c == 'hyperbolic_module' and self.splits(variant, c + '.cc'):
                    for d in (1, 2, 3):
                        objs.append(self.obj(variant, '%s_%s_%d' % (eq, c, d), self.filtered(variant, c + '.cc', [d]), eq=eq, **HOOKS.get(c, {})))
                    continue
                objs.append(self.obj(variant, '%s_%s' % (eq, c), os.path.join(SRC, c + '.cc'), eq=eq, **HOOKS.get(c, {})))
        objs += self.eqspecific(variant, eq, with_dispatch)
        return objs

    def eqspecific(self, variant, eq, with_dispatch=False):
        objs = []
        for f in sorted(os.listdir(os.path.join(SRC, eq))):
            if f.endswith('.cc') and (with_dispatch or f != 'equation_dispatch.cc'):
                objs.append(self.obj(variant, '%s__%s' % (eq, f[:-3]), os.path.join(SRC, eq, f), eq=eq))
        if eq == 'navier_stokes':  # uses Euler's limiter and Riemann solver
            for f in ('limiter.cc', 'riemann_solver.cc'):
                objs.append(self.obj(variant, 'euler__%s' % f[:-3], os.path.join(SRC, 'euler', f), eq='euler'))
        return objs

    def splits(self, variant, rel):
        """can the file be compiled one space dimension at a time?"""
        n = []
        for d in ([1], [2], [3], [1, 2, 3]):
            with open(self.filtered(variant, rel, d)) as f:
                n.append(len([l for l in f if l.strip()]))
        return n[0] == n[1] == n[2] < n[3]

    def filtered(self, variant, rel, dims):
        """copy of a repository .cc without the explicit instantiations for other space dimensions"""
        drop = [str(d) for d in (1, 2, 3) if d not in dims] or ['0']
        with open(os.path.join(SRC, rel)) as f:
            lines = f.read().split('\n')
        pat = re.compile(r'^\s*(template class [\w:]+<(Description, )?(%s), .*>;|INSTANTIATE\((%s), \d+\);)\s*$' %
                         ('|'.join(drop), '|'.join(drop)))
        out = os.path.join(BUILD, variant, 'gen', 'd' + ''.join(map(str, dims)), rel)
        write_if_changed(out, '\n'.join('' if pat.match(l) else l for l in lines))
        return out

    def reduced(self, variant, eq, dims=(1, 2), parts=None, common=True):
        """all objects of one equation, instantiated for some space dimensions only"""
        tag = 'd' + ''.join(map(str, dims))
        objs = []
        if common:
            for c in COMMON:
                simple = c in ('simd', 'version_info', 'equation_dispatch')
                src = os.path.join(SRC, c + '.cc') if simple else self.filtered(variant, c + '.cc', dims)
                objs.append(self.obj(variant, 'common_%s_%s' % (c, tag), src, pch=(c != 'simd'),
                                     defs=self.VERSION_DEFS if c == 'version_info' else ()))
        for c in DEPENDENT:
            if parts is None or c in parts:
                objs.append(self.obj(variant, '%s_%s_%s' % (eq, c, tag), self.filtered(variant, c + '.cc', dims), eq=eq))
        dirs = [eq] + (['euler'] if eq == 'navier_stokes' else [])
        for e in dirs:
            for f in sorted(os.listdir(os.path.join(SRC, e))):
                if not f.endswith('.cc') or f == 'equation_dispatch.cc':
                    continue
                if e != eq and f not in ('limiter.cc', 'riemann_solver.cc'):
                    continue
                objs.append(self.obj(variant, '%s__%s_%s' % (e, f[:-3], tag),
                                     self.filtered(variant, e + '/' + f, dims), eq=e,
                                     extra=['-I' + os.path.join(SRC, e)]))
        return objs

    def full(self, variant='opt', more=()):
        objs = self.common(variant)
        seen = list(objs)
        eqs = sorted(d for d in os.listdir(SRC) if os.path.isfile(os.path.join(SRC, d, 'CMakeLists.txt')))
        for eq in eqs:
            for o in self.equation(variant, eq, with_dispatch=True):
                if o not in seen:
                    seen.append(o)
        seen.append(self.obj(variant, 'main', os.path.join(SRC, 'main.cc')))
        return self.exe(variant, 'ryujin', seen + list(more))

    # ---- execution ----------------------------------------------------
    def build(self, targets):
        need, order = set(), []

        def visit(o):
            if o in need or o not in self.jobs:
                return
            need.add(o)
            for d in self.jobs[o].deps:
                visit(d)
            order.append(o)
        for t in targets:
            visit(t)
        done, failed = {}, []
        lock = threading.Condition()

        def work(o):
            j = self.jobs[o]
            with lock:
                while any(d in self.jobs and d not in done for d in j.deps) and not failed:
                    lock.wait()
                if failed:
                    return
            try:
                # rebuilding a dependency (pch) forces a rebuild only through content of inputs
                stale = any(done.get(d) == 'built' and d.endswith('.gch') for d in j.deps)
                if not stale and j.fresh():
                    r = 'fresh'
                else:
                    if self.verbose:
                        print('  build', os.path.relpath(o, BUILD), flush=True)
                    j.run()
                    r = 'built'
                    self.rebuilt.append(os.path.relpath(o, BUILD))
                with lock:
                    done[o] = r
                    lock.notify_all()
            except Exception as e:
                with lock:
                    failed.append(e)
                    lock.notify_all()
        # order is topological: workers never wait for jobs that are queued behind them
        with ThreadPoolExecutor(self.n) as ex:
            list(ex.map(work, order))
        if failed:
            raise BuildError(str(failed[0]))


def LINKLIBS(lib):
    ll = os.path.join(VERIF, 'linklibs.txt')
    with open(ll) as f:
        return [lib] + f.read().split()
