#!/usr/bin/env python3
"""check.py <property>            run the check of one property
   check.py --build [<property>]  build everything the checks need"""
import os, sys, time, random, shutil, subprocess
import vlib, cases, targets, e2e
from vlib import Case, Result, THOROUGH, SEED, run_cases, finish

OPS = os.path.join(vlib.VERIF, 'build')
CHECKS = {}
GENERIC = ('crash/', 'hang/', 'exception/', 'restart-escaped/', 'driver/', 'san/')


class Check:
    def __init__(self, targets=(), **kw):
        self.targets = targets
        self.kw = kw

    def __call__(self, fn):
        self.fn = fn
        CHECKS[fn.__name__] = self
        return fn


HYP = ('euler', 'euler_aeos', 'shallow_water', 'scalar_conservation')
ALL = HYP + ('navier_stokes',)


def T(kind, *args, **kw):
    return (kind, args, tuple(sorted(kw.items())))


def build(specs, verbose=False):
    b = targets.vbuild.Builder(verbose=verbose)
    paths = [getattr(targets, k)(b, *a, **dict(kw)) for k, a, kw in specs]
    t0 = time.time()
    b.build(paths)
    print('# build %.1f s, %d steps' % (time.time() - t0, len(b.rebuilt) if hasattr(b.rebuilt, '__len__') else b.rebuilt))
    sys.stdout.flush()
    return dict(zip(specs, paths))


def only(res, prop):
    """keep the violations of this property and whatever stopped a driver"""
    res.fails = {k: v for k, v in res.fails.items() if k.startswith(prop + '/') or k.startswith(GENERIC)}
    return res


def strictly(res, prop):
    """keep what the instrumentation says (what the runs do otherwise is decided elsewhere)"""
    res.fails = {k: v for k, v in res.fails.items() if k.startswith(prop + '/')}
    return res


def by_eq(cs):
    d = {}
    for eq, c in cs:
        d.setdefault(eq, []).append(c)
    return d


def scale(quick, thorough):
    return thorough if THOROUGH else quick


def run_eq(exe, cs):
    """exe: dict equation -> executable; all equations share the machine"""
    R = Result()
    from concurrent.futures import ThreadPoolExecutor
    for eq, l in by_eq(cs).items():
        R.merge(run_cases(exe[eq], l))
    return R


SIM = lambda tu, eqs=HYP, variant='opt': {eq: T('sim', eq, variant, tu) for eq in eqs}


def sims(p, tu, eqs=HYP, variant='opt'):
    return {eq: p[T('sim', eq, variant, tu)] for eq in eqs}


MARCH_RULE = ('random configuration (equation, dimension, ansatz, scheme, limiter iterations and relaxation, boundary kind, hanging '
              'nodes, ranks, threads) with random nodal data; one evaluation = one accepted time step observed at all nodes; non-trivial = '
              'the run changed the state')


@Check(targets=list(SIM('march').values()))
def C01(p):
    R = Result()
    for s in range(scale(1, 6)):
        R.merge(run_eq(sims(p, 'march'), cases.march_cases(SEED + 50 * s, scale(280, 1200), 'C01')))
    return only(R, 'C01'), MARCH_RULE, ['round-off allowance 1e-11 of the absolute sums']


@Check(targets=list(SIM('march').values()) + list(SIM('march', variant='simd').values()))
def C02(p):
    R = Result()
    for s in range(scale(1, 4)):
        R.merge(run_eq(sims(p, 'march', variant='simd'), cases.march_cases(SEED + 7000 + 50 * s, scale(120, 600), 'C02')))
    for s in range(scale(1, 6)):
        R.merge(run_eq(sims(p, 'march'), cases.march_cases(SEED + 1000 + 50 * s, scale(400, 1600), 'C02')))
    return only(R, 'C02'), MARCH_RULE, ['scalar range and entropy are allowed the documented relaxation window']


@Check(targets=list(SIM('ref').values()) + list(SIM('ref', variant='simd').values()))
def C05(p):
    R = Result()
    # four lanes per vectorised row instead of one
    for s in range(scale(1, 6)):
        R.merge(run_eq(sims(p, 'ref', variant='simd'), cases.ref_cases(SEED + 7000 + 50 * s, scale(160, 600))))
    for s in range(scale(1, 6)):
        R.merge(run_eq(sims(p, 'ref'), cases.ref_cases(SEED + 50 * s, scale(240, 900))))
    return only(R, 'C05'), ('random mesh, equation, data and stage combination; one evaluation = one call of the step compared node by node '
                            'with a serial recomputation from the mesh operators (5 calls per case: tau free, given, bounded below and above '
                            'the CFL limit, excessive); non-trivial = the limiter was active'), \
        ['wave-speed, indicator and limiter primitives are taken from the code (C03, C04 decide those)']


@Check(targets=list(SIM('ref', ALL).values()))
def C15(p):
    R = Result()
    for s in range(scale(1, 6)):
        R.merge(run_eq(sims(p, 'ref', ALL), cases.scheme_cases(SEED + 50 * s, scale(112, 420))))
    R.merge(run_eq(sims(p, 'ref', ALL), cases.order_cases(SEED, scale(28, 140))))
    return only(R, 'C15'), ('every selectable scheme on random data with time dependent boundary data; one evaluation = one integrator step '
                            'compared with the composition by its tableau (order conditions of the tableau verified), and friction decay of a uniform flow against its closed solution '
                            'for three step sizes; non-trivial = state changed'), []


@Check(targets=list(SIM('flow', ALL).values()))
def C06(p):
    R = Result()
    for s in range(scale(1, 6)):
        R.merge(run_eq(sims(p, 'flow', ALL), cases.equilibrium_cases(SEED + 50 * s, scale(300, 1200))))
    return only(R, 'C06'), ('random mesh, ansatz, scheme and equilibrium (uniform state with compatible boundary data, or a lake over a random '
                            'or built-in topography with dry islands); one evaluation = one accepted step compared node by node with the '
                            'equilibrium; non-trivial = nodes with depth or velocity different from zero'), []


@Check(targets=list(SIM('flow', ALL).values()))
def C07(p):
    R = Result()
    for s in range(scale(1, 6)):
        R.merge(run_eq(sims(p, 'flow', ALL), cases.boundary_cases(SEED + 50 * s, scale(140, 600))))
    return only(R, 'C07'), ('random geometry, boundary condition per side, rough data and time-dependent boundary data; one evaluation = one '
                            'node before and after the boundary treatment compared with an independent evaluation from the faces of the '
                            'mesh; non-trivial = the treatment had to change the node'), []


@Check(targets=list(SIM('flow', ALL).values()))
def C10(p):
    import compare
    R = Result()
    exe = sims(p, 'flow', ALL)
    for s in range(scale(1, 6)):
        R.merge(compare.run(exe, cases.dump_configs(SEED + 50 * s, scale(50, 150))))
    R.merge(compare.run(exe, cases.periodic_line_configs(), [(1, 1), (2, 1)]))
    return only(R, 'C10'), ('the same random configuration on 1 to 4 ranks and 1 to 8 threads; one evaluation = one pair of runs compared in '
                            'every node, step size, restart count and the measure of the domain; non-trivial = the decomposition differs'), \
        ['agreement to 1e-8 relative; fluxes that vanish in a direction and equal neighbouring values are excluded for scalar equations '
         '(viscosity, bounds and indicator consist of round-off there)']


@Check(targets=[T('sim', 'navier_stokes', 'opt', 'flow')])
def C17(p):
    R = Result()
    n = scale(200, 900)
    for s in range(scale(1, 6)):
        R.merge(run_eq(sims(p, 'flow', ('navier_stokes',)), cases.parabolic_cases(SEED + 50 * s, n)))
    stuck = len([i for i in R.info if i.startswith('no-convergence')])
    if stuck > .3 * n * scale(1, 6):
        R.fail('C17/solver-never-converges', '%d of %d configurations' % (stuck, n * scale(1, 6)))
    return only(R, 'C17'), ('random mesh, boundary conditions, viscosities, step size, solver settings; one evaluation = one viscous step whose '
                            'result is inserted into the discrete momentum and heat equations assembled independently by quadrature; '
                            'non-trivial = the velocity changed'), ['cases in which the solver reports failure are skipped (counted)']


HYP = ('euler', 'euler_aeos', 'shallow_water', 'scalar_conservation')


def algebra(p, tu, op, prop, n, reps):
    R = Result()
    for s in range(reps):
        R.merge(run_eq(sims(p, tu, HYP), cases.alg_cases(SEED + 50 * s, n, op)))
    return only(R, prop)


@Check(targets=list(SIM('alg', HYP).values()))
def C03(p):
    return algebra(p, 'alg', 'limiter', 'C03', scale(480, 1600), scale(1, 8)), \
        ('random (wide, mild, degenerate, dry) states at the nodes of a box, random stencils of weights and update directions; one '
         'evaluation = one node: bounds accumulated, relaxed, combined and one limited update inspected in extended precision; '
         'non-trivial = the limiter had to cut the update'), \
        ['limited states may leave the bounds by the tolerance of the quadratic Newton iteration']


@Check(targets=list(SIM('thermo', HYP).values()))
def C04(p):
    return algebra(p, 'thermo', 'riemann', 'C04', scale(480, 1600), scale(1, 8)), \
        ('random pairs of states (equal, nearly equal, mild, many orders of magnitude apart, dry, colliding, receding) and random directions; '
         'one evaluation = one pair whose estimate is compared with the exact Riemann solution computed in extended precision (scalar: '
         'Rankine-Hugoniot and characteristic speeds), and with the estimate of the mirrored and rotated pair; non-trivial = the exact fan '
         'contains a shock'), \
        ['ratio of specific heats of the polytropic gas at most 5/3', 'equations of state with a closed form of the surrogate (polytropic, '
         'Noble-Abel stiffened gas)', 'dry states: exact solution for the regularised depth']


@Check(targets=list(SIM('thermo', HYP).values()))
def C18(p):
    return algebra(p, 'thermo', 'thermo', 'C18', scale(480, 1600), scale(1, 8)), \
        ('random states and random parameters of every equation of state / flux with a closed form; one evaluation = one formula (pressure, '
         'inverse, speed of sound, temperature, entropies, derivatives, fluxes, conversions, rotations, surrogates, precomputed values) '
         'compared with an independent evaluation in extended precision or by extrapolated differences'), \
        ['tabulated (sesame) equations of state need a library that is not installed']


KERN = [T('kern', 'opt'), T('kern', 'simd')]


@Check(targets=KERN)
def C23(p):
    R = Result()
    n, reps = scale((6, 12000), (24, 60000))
    for v, f in (('opt', 3), ('simd', 1)):
        R.merge(run_cases(p[T('kern', v)], [Case('kern-%s-%d' % (v, k), seed=SEED * 1000 + k, reps=reps * f, timeout=600) for k in range(n)],
                          per_proc=1))
    return only(R, 'C23'), \
        ('random bases over the whole range of the number type, exponents the solvers use (functions of the adiabatic exponent, 4/3, small '
         'and large of both signs), all vector widths; functions with a third derivative of one sign for the Newton step started from '
         'random brackets; random splines; random packed accesses; one evaluation = one value compared with the extended precision result; '
         'non-trivial = exponent and base not trivial, bracket shrunk'), \
        ['the vector class library (a git submodule) is absent from the tree, so its power functions are not built here']


MESH = [T('mesh', 'opt'), T('mesh', 'simd')]


def mesh_run(p, op, n, nsimd):
    R = Result()
    for v, k, s in (('opt', n, SEED), ('simd', nsimd, SEED + 50)):
        R.merge(run_cases(p[T('mesh', v)], cases.mesh_cases(s, k, op), per_proc=3))
    return R


@Check(targets=MESH)
def C13(p):
    R = mesh_run(p, 'mesh', *scale((48, 12), (400, 100)))
    return only(R, 'C13'), \
        ('random boxes (all boundary kinds, periodicities, subdivisions, grading, distortion, hanging nodes), disks, cylinders, walls, annuli in '
         '1D-3D, cG Q1-Q3, dG Q0-Q3, 1-4 ranks, setups repeated at another refinement; every entry of the assembled operators is compared '
         'with an independent assembly that condenses constraints itself; one evaluation = one matrix row or boundary entry; non-trivial = '
         'unconstrained row'), \
        ['multigrid level operators are not looked at', 'wave tank and step geometries are left out (too large)']


@Check(targets=MESH)
def C14(p):
    R = mesh_run(p, 'matrix', *scale((30, 12), (240, 80)))
    return only(R, 'C14'), \
        ('the same meshes and partitions, with sequences of refinements so that structures are set up again in place; matrices with 1, 2, 3 and '
         '5 components in float and double written in scalar, vectorised, tensor and streaming form; every stored entry carries a hash of '
         'its global row, column and component; one evaluation = one entry read back; non-trivial = transposed or ghost entry'), \
        ['vectorised transposed access to tensor-valued entries is not implemented by the tree (it traps by design)']


def e2e_run(exe, cs, fn, *args):
    """whole runs, several at a time; each in a directory of its own"""
    import threading, shutil
    from concurrent.futures import ThreadPoolExecutor
    R, lock, sem = Result(), threading.Lock(), vlib.Slots(vlib.CORES)
    top = vlib.scratch()

    def work(c):
        r = Result()
        d = os.path.join(top, c.name.replace('/', '_'))
        os.makedirs(d, exist_ok=True)
        if sem:
            sem.acquire(c.ranks)
        try:
            fn(exe, c, r, d, *args)
        finally:
            if sem:
                sem.release(c.ranks)
            if not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(d, ignore_errors=True)
        with lock:
            R.merge(r)
    try:
        with ThreadPoolExecutor(vlib.CORES) as ex:
            for f in [ex.submit(work, c) for c in cs]:
                f.result()
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(top, ignore_errors=True)
    return R


FULL = [T('full', 'opt')]


@Check(targets=FULL)
def C08(p):
    cs = [c for _, c in cases.resume_cases(SEED, scale(48, 360))]
    R = e2e_run(p[FULL[0]], cs, e2e.resume_case)
    return only(R, 'C08'), \
        ('runs of the executable (all equations, 2D/3D, cG/dG, 1-3 ranks) stopped after a checkpoint and resumed on the same or another number '
         'of ranks, at time zero, twice in a row, with mesh adaptation before, pending at or after the checkpoint, with graphics and error output; the state at the head of every '
         'step is compared node by node with the uninterrupted run; one evaluation = one step compared; non-trivial = step after the resume'), \
        ['one-dimensional runs have no checkpoints in this tree']


@Check(targets=FULL)
def C09(p):
    lib = os.path.join(vlib.scratch(), 'crashfs.so')
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-o', lib, os.path.join(vlib.VERIF, 'src', 'crashfs.c'), '-ldl'])
    R = Result()
    rng = random.Random(SEED * 31 + 5)
    for k, c in enumerate(cases.crash_cases(SEED, scale(3, 15))):
        # every operation of the first run, a sample of the others
        m = None if k == 0 or THOROUGH and k < 10 else scale(0 if k == 1 else 16, 150)
        if m == 0:
            continue
        d = os.path.join(vlib.scratch(), c.name)
        e2e.crash_case(p[FULL[0]], c, R, d, lib, lambda q: q if m is None else rng.sample(q, min(m, len(q))), vlib.Slots(vlib.CORES))
        shutil.rmtree(d, ignore_errors=True)
    return only(R, 'C09'), \
        ('runs with three checkpoints and other states in between are killed at each single file-system operation on a checkpoint file (open, '
         'write, close, rename, unlink; also half-way through a write), on one to three ranks, with and without mesh adaptation; one evaluation '
         '= one crash point; non-trivial = the files left behind were resumed from, refused or restored'), \
        ['a crash of the process, not of the machine: data handed to the operating system counts as written', 'two dimensions']


@Check(targets=list(SIM('misc', ALL).values()))
def C20(p):
    R = run_eq(sims(p, 'misc', ALL), cases.initial_cases(SEED, scale(16, 300)))
    return only(R, 'C20'), \
        ('every registered initial state of every equation with random parameters, directions and positions in 1D-3D; exact solutions are '
         'differentiated (fourth order, four widths) and inserted into the governing equations, fronts are located and tested against the jump '
         'conditions; one evaluation = one point; non-trivial = moving exact solution, documented value, rigid motion or interpolated state'), \
        ['geotiff is not available in this build', 'soliton: an approximate solution, its documented profile is checked only',
         'the circular dam break is not registered by this tree']


@Check(targets=FULL)
def C22(p):
    R = e2e_run(p[FULL[0]], cases.refuse_cases(SEED, scale(300, 1500)), e2e.refuse_case)
    e2e.template_case(p[FULL[0]], R, os.path.join(vlib.scratch(), 'template'))
    return only(R, 'C22'), \
        ('invalid names, misspelt parameters (every section), out of range values and unsupported combinations, each with the valid neighbour that '
         'must run; exit status, message and the trace of steps are observed; one evaluation = one configuration; non-trivial = '
         'refused configuration or supported neighbour'), \
        ['names of error quantities are looked up at the end of a run by this tree']


@Check(targets=FULL)
def C16(p):
    cs = [c for _, c in cases.adapt_cases(SEED, scale(30, 300))]
    R = e2e_run(p[FULL[0]], cs, e2e.adapt_case)
    return only(R, 'C16'), \
        ('runs with global and random refinement and coarsening at random time points, all equations, 2D/3D, 1-3 ranks; states before and '
         'after every transfer and totals across the following steps are compared; one evaluation = one node or step; non-trivial = '
         'node of a transferred state'), \
        ['local adaptation with continuous linear elements only (hanging nodes are not supported with dG by this tree)']


@Check(targets=FULL)
def C19(p):
    cs = [c for _, c in cases.quantity_cases(SEED, scale(30, 300))]
    R = e2e_run(p[FULL[0]], cs, e2e.quantity_case)
    return only(R, 'C19'), \
        ('runs recording interior and boundary manifolds with all options, multipliers and clearing, with and without mesh adaptation and stale '
         'files in the directory; files are recomputed from the traced states; graphics files are decoded and compared node by node; '
         'one evaluation = one file; non-trivial = row or node compared'), \
        ['graphics of higher order elements are compared at the points they contain']


@Check(targets=FULL)
def C21(p):
    n, k = scale((40, 6), (400, 40))
    cs = [c for _, c in cases.loop_cases(SEED, n)]
    R = e2e_run(p[FULL[0]], cs[k:], e2e.loop_case)
    R.merge(e2e_run(p[FULL[0]], cs[:k], e2e.loop_case, True))
    return only(R, 'C21'), \
        ('runs with random final times, enforced or not, granularities from far below to far above the step size, multipliers and outputs '
         'switched on and off; the trace of steps, ticks and outputs is replayed against the configured schedule; one evaluation = one '
         'event; non-trivial = step'), []


ASAN = [T('full', 'asan'), T('full', 'opt'), T('mesh', 'asan'), T('kern', 'asan')]


@Check(targets=ASAN)
def C11(p):
    import san
    R = Result()
    m = e2e.SAN = san.Memory(SEED)
    try:
        for cs, fn, two in cases.memory_cases(SEED, *scale((60, 5), (700, 60))):
            R.merge(e2e_run(p[ASAN[0]], cs, fn, *([p[ASAN[1]]] if two else [])))
    finally:
        e2e.SAN = None
    R.merge(m.R)
    d = vlib.scratch()
    env = dict(ASAN_OPTIONS='detect_leaks=0:detect_container_overflow=0:alloc_dealloc_mismatch=0:handle_abort=0:exitcode=77:'
                            'max_malloc_fill_size=2000000000:malloc_fill_byte=255:log_path=%s/san' % d)
    for t, cs in ((ASAN[2], cases.mesh_cases(SEED + 900, scale(8, 80), 'mesh') + cases.mesh_cases(SEED + 901, scale(8, 80), 'matrix')),
                  (ASAN[3], [Case('kern-%d' % k, seed=SEED * 1000 + k, reps=scale(2000, 20000), timeout=600) for k in range(scale(2, 12))])):
        q = run_cases(p[t], cs, env, per_proc=2)
        R.evals += q.evals
        R.nontriv += q.nontriv
    san.Memory.scan(R, [os.path.join(d, f) for f in os.listdir(d)], 'mesh operators / kernels, seed %d' % SEED)
    shutil.rmtree(d, ignore_errors=True)
    R.samples += ['%s: %d' % kv for kv in m.tot.items()]
    return strictly(R, 'C11'), \
        ('whole runs over all equations, geometries, initial states, equations of state, fluxes, elements, schemes, solvers, outputs, with adaptation, '
         'resume, quantities and refused configurations, and the mesh operators and kernels, built with AddressSanitizer and UndefinedBehaviorSanitizer, '
         'fresh memory filled with NaN; runs on one rank are compared bit by bit with a run whose fresh memory has other contents; one evaluation = '
         'one run, one compared event or one value of the kernels; non-trivial = run that reached the time loop'), \
        ['inside the compiled deal.II library only interceptors and allocations are checked', 'checks of alignment and pointer overflow are off'], \
        dict(memory=m.tot)


TSAN = [T('race', 'tsan'), T('tfull', 'tsan')]


@Check(targets=TSAN)
def C12(p):
    import san
    R = Result()
    # initialisation on demand and the exchange trigger on their own
    for k in range(scale(6, 40)):
        team = 2 + k % 7
        d = vlib.scratch()
        rc, out = vlib.run_cmd([p[TSAN[0]], str(SEED * 100 + k), str(scale(150, 600))], d, 600,
                               dict(VERIF_TEAM=str(team), TSAN_OPTIONS='exitcode=66'))
        shutil.rmtree(d, ignore_errors=True)
        for l in out.split('\n'):
            if l.startswith('FAIL '):
                key, _, det = l[5:].partition(' | ')
                R.fail(key, det, 'race %d threads' % team)
            elif l.startswith('EVAL '):
                R.evals += int(l.split()[1])
            elif l.startswith('NONTRIVIAL '):
                R.nontriv += int(l.split()[1])
        if 'ThreadSanitizer: data race' in out:
            R.fail('C12/race/lazy-or-dispatch', out[out.index('WARNING: ThreadSanitizer'):][:700], out[:8000])
        elif rc != 0:
            R.fail('C12/stuck' if rc is None else 'C12/machinery', 'rc %s: %s' % (rc, out[-300:]), out[-3000:])
    m = e2e.SAN = san.Races(SEED)
    try:
        for cs, fn in cases.team_cases(SEED, *scale((26, 5), (260, 60))):
            e2e_run(p[TSAN[1]], cs, fn)
    finally:
        e2e.SAN = None
    R.merge(m.R)
    R.samples += ['%s: %d' % kv for kv in m.tot.items()]
    return strictly(R, 'C12'), \
        ('whole runs (all equations, 1D-3D, cG/dG, 1-3 ranks, adaptation, resume, quantities) with the exchange in the background on a team of 2 to '
         '7 threads whose only ordering is the one the parallel constructs guarantee, random delays; every access of the repository\'s code and every entry an '
         'exchange sends is seen by the race detector; initialisation on demand and the exchange trigger hammered on their own; one '
         'evaluation = one parallel region or one round of the latter; non-trivial = barrier inside a region, contended round'), \
        ['accesses made inside the compiled deal.II library are not seen', 'threads of deal.II\'s own task scheduler are replaced by visible ones'], \
        dict(team=m.tot)


def main():
    if sys.argv[1] == '--build':
        want = sys.argv[2:] or sorted(CHECKS)
        specs = []
        for c in want:
            specs += [t for t in CHECKS[c].targets if t not in specs]
        build(specs, verbose=True)
        return
    prop = sys.argv[1]
    c = CHECKS[prop]
    t0 = time.time()
    try:
        paths = build(list(c.targets))
        out = c.fn(paths)
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('check of %s could not run: %s' % (prop, str(e)[-3000:]))
        sys.exit(3)
    res, rule, ass = out[:3]
    finish(prop, res, rule, t0, level='fault_enumeration' if prop == 'C09' else 'exploration', assumptions=ass or None,
           extra=out[3] if len(out) > 3 else None)


if __name__ == '__main__':
    main()
