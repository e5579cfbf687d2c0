"""Workload generation: parameter sets for every equation, mesh, ansatz, scheme."""
import random, itertools
from vlib import Case

EQ = {'euler': 'euler', 'euler_aeos': 'euler aeos', 'shallow_water': 'shallow water',
      'scalar_conservation': 'scalar conservation', 'navier_stokes': 'navier stokes'}
STAGES = {'erk 11': 1, 'erk 22': 2, 'erk 33': 3, 'erk 43': 4, 'erk 54': 5, 'ssprk 22': 2, 'ssprk 33': 3}
A, B, C, D, E, F, G, H, I, J, K = ('A - TimeLoop', 'B - Equation', 'C - Discretization', 'D - OfflineData',
                                   'E - InitialValues', 'F - HyperbolicModule', 'G - ParabolicModule',
                                   'H - TimeIntegrator', 'I - MeshAdaptor', 'J - VTUOutput', 'K - Quantities')


def box(dim, bc='periodic', refinement=2, extent=None, sub=None, ansatz='cG Q1', bcs=None):
    """rectangular domain"""
    ext = extent or [1.0] * dim
    p = {C + '/finite element ansatz': ansatz, C + '/geometry': 'rectangular domain',
         C + '/mesh refinement': refinement, C + '/mesh writeout': 'false'}
    r = C + '/rectangular domain/'
    p[r + 'position bottom left'] = ', '.join(['0'] * dim)
    p[r + 'position top right'] = ', '.join(str(e) for e in ext)
    sub = sub or [1] * dim
    names = [('x', 'left', 'right'), ('y', 'bottom', 'top'), ('z', 'back', 'front')][:dim]
    for d, (n, a, b) in enumerate(names):
        p[r + 'subdivisions ' + n] = sub[d]
        p[r + 'boundary condition ' + a] = (bcs or {}).get(a, bc)
        p[r + 'boundary condition ' + b] = (bcs or {}).get(b, bc)
    return p


def base(eq, dim, scheme='erk 33', cfl=0.5, iterations=2, relax=1.0, cfl_min=None, newton=None, **kw):
    p = {B + '/dimension': dim, B + '/equation': EQ[eq],
         H + '/time stepping scheme': scheme, H + '/cfl max': cfl, H + '/cfl min': cfl_min or cfl * .5,
         F + '/limiter/iterations': iterations, F + '/limiter/relaxation factor': relax}
    if newton is not None and eq != 'scalar_conservation':
        p[F + '/limiter/newton max iterations'] = newton
    return p


def merge(*ds, **kw):
    r = {}
    for d in ds:
        r.update(d)
    return r


AEOS = {
    'poly': {B + '/equation of state': 'polytropic gas'},
    'nasg': {B + '/equation of state': 'noble abel stiffened gas',
             B + '/noble abel stiffened gas/covolume b': 0.05,
             B + '/noble abel stiffened gas/reference pressure': 0.1,
             B + '/noble abel stiffened gas/reference specific internal energy': 0.02},
    'vdw': {B + '/equation of state': 'van der waals', B + '/van der waals/vdw a': 0.0,
            B + '/van der waals/covolume b': 0.05, B + '/van der waals/gas constant R': 0.4},
    'jwl': {B + '/equation of state': 'jones wilkins lee'},
    'func': {B + '/equation of state': 'function'},
}

SCALAR = {
    'burgers': {B + '/flux': 'burgers'},
    'kpp': {B + '/flux': 'kpp'},
    'smoothfun': {B + '/flux': 'function', B + '/function/expression': 'sin(u); cos(u); 0.4*u*u', B + '/function/derivative approximation delta': '1e-3'},
    'fun': {B + '/flux': 'function', B + '/function/expression': '0.5*u*u; 0.5*u*u; 0.5*u*u'},
}


def march_cases(seed, n, for_prop):
    """randomised conservation / admissibility workloads; deterministic in the seed"""
    rng = random.Random(seed * 1000003 + 17)
    out = []
    eqs = ['euler', 'euler_aeos', 'shallow_water', 'scalar_conservation']
    schemes = list(STAGES)
    ansatz = {1: ['cG Q1', 'cG Q2', 'dG Q0', 'dG Q1', 'dG Q2'],
              2: ['cG Q1', 'cG Q2', 'cG Q3', 'dG Q0', 'dG Q1', 'dG Q2'], 3: ['cG Q1', 'dG Q1', 'dG Q0']}
    k = 0
    while len(out) < n:
        eq = eqs[k % 4]
        dim = [2, 1, 2, 3, 2, 1][(k // 4) % 6]
        if dim == 3 and eq == 'shallow_water':
            dim = 2
        an = ansatz[dim][(k // 4 + k) % len(ansatz[dim])]
        deg = int(an[-1])
        scheme = schemes[(k // 3) % len(schemes)]
        mode = rng.choice(['smooth', 'shock', 'shock', 'rough', 'vacuum', 'vacuumshock'])
        bc = rng.choice(['periodic', 'periodic', 'slip']) if eq != 'scalar_conservation' else 'periodic'
        relax = rng.choice([0.0, 0.0, 1.0, 1.0, 2.0])
        its = rng.choice([2, 2, 1, 0])
        if dim == 3 and eq in ('euler', 'euler_aeos') and rng.random() < .6:
            an, bc, deg = 'cG Q1', 'slip', 1
        refine = rng.choice([0, 0, 1] if dim == 2 else [0, 1, 1]) if dim > 1 and an.startswith('cG Q1') and bc != 'periodic' else 0
        ref = {1: 6, 2: 4, 3: 2}[dim] - (1 if deg >= 2 else 0) - (1 if refine and dim == 2 else 0)
        cfl = rng.choice([0.2, 0.5, 0.9]) if scheme == 'erk 11' else rng.choice([0.1, 0.3, 0.5])
        p = merge(base(eq, dim, scheme, cfl, its, relax, newton=rng.choice([2, 2, 4])),
                  box(dim, bc, ref, extent=[rng.choice([1.0, 2.0, 0.3]) for _ in range(dim)], ansatz=an))
        if eq == 'euler_aeos':
            e = rng.choice(['poly', 'nasg', 'vdw'])
            p.update(AEOS[e])
            p[B + '/compute strict bounds'] = rng.choice(['true', 'false'])
        elif eq == 'scalar_conservation':
            e = rng.choice(['burgers', 'kpp', 'fun'] if dim < 3 else ['burgers', 'fun'])
            p.update(SCALAR[e])
        elif eq == 'euler':
            e = rng.choice(['1.4', '1.6667', '1.1'])
            p[B + '/gamma'] = e
        else:
            e = rng.choice(['flat', 'flat', 'friction'])
            if e == 'friction':
                p[B + '/manning friction coefficient'] = 0.05
        cons = 'all' if bc == 'periodic' else 'noflux'
        if eq == 'shallow_water' and e == 'friction':
            cons = 'first'
        name = 'm%02d-%s-%s-%dd-%s-%s-%s-%s-i%d' % (k, eq, e, dim, an.replace(' ', ''), scheme.replace(' ', ''), mode,
                                                  bc, its)
        opts = dict(op='march', dim=dim, mode=mode, seed=seed * 100 + k, steps=3 if dim == 3 else 4, scheme=scheme,
                    stages=STAGES[scheme], relax=relax, conserve=cons, refine=refine)
        ranks, threads = rng.choice([(1, 1)] * 5 + [(1, 2), (2, 1), (3, 1)])
        if refine and dim == 3:
            ranks, threads = rng.choice([(2, 1), (3, 1), (4, 1), (1, 1)])  # stencils reach beyond the ghost layer
        if dim == 1 and bc == 'periodic':
            ranks = 1  # known finding C10/1d-periodic
        if ranks > 1:
            name += '-np%d' % ranks
        out.append((eq, Case(name, p, ranks=ranks, threads=threads, **opts)))
        k += 1
    return out


def ref_cases(seed, n):
    """C05: single steps against the reference implementation"""
    rng = random.Random(seed * 7919 + 3)
    eqs = ['euler', 'shallow_water', 'scalar_conservation', 'euler_aeos']
    ansatz = {1: ['cG Q1', 'dG Q1', 'cG Q2', 'dG Q0', 'dG Q2'], 2: ['cG Q1', 'dG Q1', 'cG Q2', 'dG Q2', 'dG Q0'],
              3: ['cG Q1', 'dG Q1']}
    out = []
    for k in range(n):
        eq = eqs[k % 4]
        r = k // 4
        dim = [2, 2, 1, 2, 3, 1][r % 6]
        if dim == 3 and eq == 'shallow_water':
            dim = 2
        an = ansatz[dim][r % len(ansatz[dim])]
        st = [1, 0, 2][(r + k) % 3]
        mode = rng.choice(['smooth', 'shock', 'rough', 'vacuum', 'vacuumshock'])
        bc = rng.choice(['periodic', 'slip', 'do nothing', 'dirichlet']) if eq != 'scalar_conservation' else \
            rng.choice(['periodic', 'do nothing', 'dirichlet'])
        refine = 1 if dim > 1 and an == 'cG Q1' and bc != 'periodic' and rng.random() < .5 else 0
        ref = {1: 5, 2: 3, 3: 2 if bc == 'periodic' else 1}[dim] - (1 if an[-1] == '2' and dim == 2 else 0)
        p = merge(base(eq, dim, 'erk 33', .3, rng.choice([2, 2, 2, 1, 0]), rng.choice([0., 1., 1., 2.]), newton=rng.choice([2, 2, 4])),
                  box(dim, bc, ref, extent=[rng.choice([1., 2., .3]) for _ in range(dim)], ansatz=an))
        e = ''
        if eq == 'euler_aeos':
            e = rng.choice(['poly', 'nasg', 'vdw'])
            p.update(AEOS[e])
            p[B + '/compute strict bounds'] = rng.choice(['true', 'false'])
        elif eq == 'scalar_conservation':
            # see dump_configs: no direction in which the flux vanishes
            e = rng.choice(['burgers', 'kpp', 'fun'] if dim == 1 else ['kpp', 'smoothfun'] if dim == 2 else ['smoothfun'])
            p.update(SCALAR[e])
            if e == 'fun':
                p[B + '/function/expression'] = '0.5*u*u'
        elif eq == 'shallow_water':
            e = rng.choice(['flat', 'friction', 'bathy'])
            if e == 'friction':
                p[B + '/manning friction coefficient'] = 0.05
            if e == 'bathy':
                p[E + '/configuration'] = 'ritter dam break' if False else p.get(E + '/configuration', 'uniform')
        p[F + '/indicator/evc factor'] = rng.choice([1.0, 1.0, 0.3, 2.0])
        name = 'r%02d-%s-%s-%dd-%s-s%d-%s-%s' % (k, eq, e, dim, an.replace(' ', ''), st, mode, bc.replace(' ', ''))
        out.append((eq, Case(name, p, op='refstep', dim=dim, mode=mode, seed=seed * 100 + k, nstages=st, cfl=.3, refine=refine,
                             blend=rng.choice([.02, .1, .3]))))
    return out


def timedep(eq, dim):
    """time dependent Dirichlet data of the given equation"""
    p = {E + '/configuration': 'function'}
    f = E + '/function/'
    xs = ['x', 'y', 'z'][:dim]
    if eq == 'shallow_water':
        p[f + 'water depth expression'] = '1.0+0.2*sin(3*x+20*t)'
        for i, x in enumerate(xs[:2]):
            p[f + 'velocity %s expression' % x] = '0.3*cos(%d*x+30*t)' % (i + 1)
    elif eq == 'scalar_conservation':
        p[f + 'expression'] = '0.5+0.3*sin(4*x+40*t)'
    else:
        p[f + 'density expression'] = '1.2+0.3*sin(3*x+20*t)'
        for i, x in enumerate(xs):
            p[f + 'velocity %s expression' % x] = '0.4*cos(%d*x+30*t)' % (i + 1)
        p[f + 'pressure expression'] = '1.0+0.2*cos(2*x+25*t)'
    return p


def scheme_cases(seed, n):
    """C15: every scheme of the integrator against its documented composition"""
    rng = random.Random(seed * 104729 + 5)
    out = []
    hyp = ['erk 33', 'erk 54', 'ssprk 33', 'erk 43', 'erk 22', 'ssprk 22', 'erk 11']
    # the viscous step refuses the stage combinations of imex 22 and imex 33
    par = ['strang erk 33 cn', 'strang erk 43 cn', 'strang ssprk 33 cn', 'imex 11']
    eqs = ['euler', 'navier_stokes', 'shallow_water', 'navier_stokes', 'scalar_conservation', 'navier_stokes', 'euler_aeos']
    cnt = {}
    for k in range(n):
        eq = eqs[k % len(eqs)]
        cnt[eq] = cnt.get(eq, -1) + 1
        L = par if eq == 'navier_stokes' else hyp
        sch = L[(cnt[eq] + (k % 7) if eq != 'navier_stokes' else cnt[eq]) % len(L)]
        dim = 2 if eq == 'navier_stokes' or k % 3 else 1
        restart = rng.random() < .5
        cmax, cmin = (rng.choice([1.2, 2.5]), .3) if restart else (rng.choice([.3, .6]), .2)
        rec = rng.choice(['bang bang control', 'bang bang control', 'none'])
        an = 'cG Q1' if eq == 'navier_stokes' else rng.choice(['cG Q1', 'dG Q1', 'cG Q2'])
        p = merge(base(eq, dim, sch, cmax, 2, 1., cfl_min=cmin), box(dim, 'dirichlet', {1: 5, 2: 3}[dim], ansatz=an), timedep(eq, dim))
        p[H + '/cfl recovery strategy'] = rec
        if eq == 'navier_stokes':
            p[B + '/mu'] = rng.choice([1e-3, 1e-2])
            p[B + '/kappa'] = 1e-2
        mode = 'shock' if restart else rng.choice(['initial', 'smooth', 'shock'])
        name = 't%02d-%s-%s-%dd-%s-%s%s' % (k, eq, sch.replace(' ', ''), dim, an.replace(' ', ''), mode, '-none' if rec == 'none' else '')
        out.append((eq, Case(name, p, op='scheme', dim=dim, mode=mode, seed=seed * 100 + k, scheme=sch, cfl_max=cmax, cfl_min=cmin,
                             recovery=rec, steps=4, t0=rng.choice([0., .37]))))
    return out


ORDER = {'erk 11': 1, 'erk 22': 2, 'erk 33': 3, 'erk 43': 3, 'erk 54': 4, 'ssprk 22': 2, 'ssprk 33': 3}


def order_cases(seed, n):
    """C15: formal order in time, friction decay of a uniform flow"""
    rng = random.Random(seed * 7919 + 3)
    out = []
    for k in range(n):
        sch = list(ORDER)[k % 7]
        dim = 1 + (k // 7) % 2
        an = rng.choice(['cG Q1', 'dG Q1', 'cG Q2', 'dG Q0', 'dG Q2'])
        h, v, man, g = rng.uniform(.5, 2.), rng.uniform(.5, 2.), rng.uniform(.1, .3), rng.choice([1., 9.81])
        p = merge(base('shallow_water', dim, sch, .3, 2, 4.), box(dim, 'periodic', 1, extent=[3000.] * dim, sub=[3] * dim, ansatz=an))
        p[B + '/manning friction coefficient'] = man
        p[B + '/gravity'] = g
        p[F + '/limiter/limit on kinetic energy'] = 'false'
        p[F + '/limiter/limit on square velocity'] = 'false'
        out.append(('shallow_water', Case('o%02d-%s-%dd-%s' % (k, sch.replace(' ', ''), dim, an.replace(' ', '')), p, op='order', dim=dim,
                                          seed=seed * 100 + k, scheme=sch, order=ORDER[sch], h=h, v=v, manning=man, g=g, KT=rng.uniform(.1, .4),
                                          n0=rng.choice([1, 2, 3]))))
    return out


def equilibrium_cases(seed, n):
    """C06"""
    rng = random.Random(seed * 31337 + 11)
    out = []
    eqs = ['shallow_water', 'euler', 'shallow_water', 'scalar_conservation', 'shallow_water', 'euler_aeos', 'shallow_water', 'navier_stokes']
    ansatz = {1: ['cG Q1', 'dG Q1', 'cG Q2', 'dG Q0', 'dG Q2'], 2: ['cG Q1', 'dG Q1', 'cG Q2', 'dG Q0', 'dG Q2', 'cG Q3'], 3: ['cG Q1', 'dG Q1']}
    schemes = list(STAGES)
    for k in range(n):
        eq = eqs[k % 8]
        r = k // 8
        dim = [2, 1, 2, 3][(r + k) % 4]
        if eq == 'shallow_water':
            dim = 2 if dim == 3 else dim
        if eq == 'navier_stokes':
            dim = 2
        an = rng.choice(ansatz[dim]) if eq != 'navier_stokes' else 'cG Q1'
        sch = rng.choice(schemes) if eq != 'navier_stokes' else rng.choice(['strang erk 33 cn', 'imex 11'])
        ref = {1: 5, 2: 3, 3: 1}[dim] - (1 if an[-1] in '23' and dim == 2 else 0)
        cfl = rng.choice([.2, .5, .8])
        if an.startswith('dG'):
            cfl = min(cfl, .4)  # the unlimited high-order dG scheme amplifies round-off beyond that
        its, relax = rng.choice([2, 2, 1, 0]), rng.choice([0., 1., 2.])
        ranks = rng.choice([1, 1, 1, 2]) if dim > 1 else 1
        if eq == 'shallow_water' and k % 4 != 2:
            bc = rng.choice(['slip', 'slip', 'periodic', 'no slip'])
            refine = 1 if dim == 2 and an == 'cG Q1' and bc != 'periodic' and rng.random() < .5 else 0
            ext = [rng.choice([1., 3.]) for _ in range(dim)]
            amp, kx, ky = rng.choice([.3, 1., 4.]), rng.choice([1, 2]), rng.choice([1, 2])
            L = ext[0]
            shapes = ['%g*sin(%d*6.283185307179586*x/%g)' % (amp, kx, L), '%g*(x/%g-0.3)^2' % (amp, L), '(x>%g ? %g : 0)' % (.43 * L, amp),
                      '%g*exp(-30*(x/%g-0.6)^2)' % (amp, L)]
            z = rng.choice(shapes if bc != 'periodic' else shapes[:1])
            if dim == 2 and rng.random() < .7:
                z += ' + %g*cos(%d*6.283185307179586*y/%g)' % (amp * .5, ky, ext[1])
            p = merge(base(eq, dim, sch, cfl, its, relax), box(dim, bc, ref, extent=ext, ansatz=an))
            topo = rng.choice(['expr', 'expr', 'expr', 'three bumps dam break', 'paraboloid', 'hou test', 'flow over bump', 'ramp up'])
            if topo == 'hou test' and dim == 1:
                topo = 'flow over bump'
            if topo not in ('expr',):
                # built-in topographies on a domain of their size; directions turn them
                o = {'three bumps dam break': [75., 30.], 'paraboloid': [8000., 8000.], 'hou test': [500., 100.], 'flow over bump': [20., 4.],
                     'ramp up': [3., 1.]}[topo]
                p = merge(base(eq, dim, sch, cfl, its, relax), box(dim, bc, ref, extent=o[:dim], ansatz=an))
                topo = 'uniform' if topo == 'ramp up' else topo
            p[E + '/configuration'] = topo if topo != 'expr' else 'uniform'
            if rng.random() < .3:
                p[B + '/manning friction coefficient'] = 0.1
            lev = rng.choice([.3, .6, .9, 1.2, 3.])
            what, opts = 'lake', dict(level=lev, tol=1e-11)
            if topo == 'expr':
                opts['z'] = z
            else:
                opts['depth0'] = 1.
            name = 'e%02d-lake-%s-%dd-%s-%s-%s-l%g' % (k, topo.replace(' ', ''), dim, an.replace(' ', ''), sch.replace(' ', ''), bc, lev)
        else:
            geo = rng.choice(['box', 'box', 'channel', 'bdry']) if eq != 'scalar_conservation' else rng.choice(['box', 'bdry'])
            bcs, v = {}, None
            if geo == 'channel' and dim > 1:
                bcs = dict(bottom='slip', top='slip', back='slip', front='slip', left='dirichlet', right=rng.choice(['do nothing', 'dirichlet']))
                bc = 'periodic'
            elif geo == 'box' or dim == 1 and geo == 'channel':
                bc = 'periodic'
                if dim == 3:
                    ref = 2
            else:
                bc = rng.choice(['dirichlet', 'do nothing'])
            if eq == 'navier_stokes' and geo == 'channel':
                bcs['right'] = 'dirichlet'
            ranks = 1 if dim == 1 else ranks
            refine = 1 if dim > 1 and an == 'cG Q1' and bc != 'periodic' and rng.random() < .5 else 0
            p = merge(base(eq, dim, sch, cfl, its, relax), box(dim, bc, ref, extent=[rng.choice([1., 2.]) for _ in range(dim)], ansatz=an, bcs=bcs))
            p[E + '/configuration'] = 'uniform'
            if eq == 'scalar_conservation':
                p[E + '/uniform/primitive state'] = '%g' % rng.uniform(-1, 1)
                p.update(SCALAR[rng.choice(['burgers', 'kpp', 'fun'] if dim < 3 else ['burgers'])])
            elif eq == 'shallow_water':
                p[E + '/uniform/primitive state'] = '%g, %g' % (rng.uniform(.2, 2), rng.uniform(-3, 3))
            else:
                p[E + '/uniform/primitive state'] = '%g, %g, %g' % (rng.uniform(.2, 2), rng.uniform(-4, 4), rng.uniform(.2, 2))
            if eq == 'euler_aeos':
                p.update(AEOS[rng.choice(['poly', 'nasg', 'vdw'])])
            if geo != 'channel' and dim > 1:
                p[E + '/direction'] = ', '.join('%g' % x for x in [rng.uniform(-1, 1), rng.uniform(-1, 1), 0.][:dim])
            what, opts = 'uniform', dict(tol=1e-9)
            name = 'e%02d-uniform-%s-%s-%dd-%s-%s-%s' % (k, eq, geo, dim, an.replace(' ', ''), sch.replace(' ', ''), bc.replace(' ', ''))
        out.append((eq, Case(name, p, ranks=ranks, op='equilibrium', what=what, dim=dim, seed=seed * 100 + k, steps=4, refine=refine, **opts)))
    return out


def boundary_cases(seed, n):
    """C07"""
    rng = random.Random(seed * 271828 + 1)
    out = []
    eqs = ['euler', 'shallow_water', 'euler_aeos', 'navier_stokes', 'euler', 'shallow_water', 'scalar_conservation']
    sides = ['left', 'right', 'bottom', 'top', 'back', 'front']
    for k in range(n):
        eq = eqs[k % 7]
        dim = [2, 1, 2, 3, 2][(k // 7) % 5]
        if dim == 3 and eq == 'shallow_water':
            dim = 2
        an = rng.choice({1: ['cG Q1', 'dG Q1', 'cG Q2'], 2: ['cG Q1', 'dG Q1', 'cG Q2', 'cG Q3', 'dG Q2'], 3: ['cG Q1', 'dG Q1', 'cG Q2']}[dim])
        if eq == 'navier_stokes':
            an, dim = 'cG Q1', max(dim, 1)
        kinds = {'euler': ['slip', 'no slip', 'dirichlet', 'dynamic', 'do nothing'],
                 'navier_stokes': ['slip', 'no slip', 'dirichlet', 'dynamic', 'do nothing'],
                 'shallow_water': ['slip', 'no slip', 'dirichlet', 'dynamic', 'do nothing', 'dirichlet momentum'],
                 'euler_aeos': ['slip', 'no slip', 'dirichlet', 'do nothing'],
                 'scalar_conservation': ['dirichlet', 'do nothing']}[eq]
        if k % 5 == 4 and dim == 2:
            # curved and skewed geometries
            geo, rf = rng.choice([('cylinder', 0), ('step', 0), ('wall', 1), ('cylinder', 1)])
            p = merge(base(eq, dim, 'erk 33' if eq != 'navier_stokes' else 'strang erk 33 cn'), timedep(eq, dim))
            p.update({C + '/finite element ansatz': an, C + '/geometry': geo, C + '/mesh refinement': rf, C + '/mesh writeout': 'false'})
            if eq == 'scalar_conservation':
                continue
            opts = {}
            nm = geo
        else:
            per = rng.random() < .25
            bcs = {s: rng.choice(kinds) for s in sides[:2 * dim]}
            if per and dim > 1:
                bcs['left'] = bcs['right'] = 'periodic'
            rf = {1: 4, 2: 3, 3: 1}[dim] - (1 if an[-1] in '23' and dim == 2 else 0) + (1 if per and dim == 3 else 0)
            p = merge(base(eq, dim, 'erk 33' if eq != 'navier_stokes' else 'strang erk 33 cn'), box(dim, 'slip', rf, extent=[rng.choice([1., 2., .5]) for _ in range(dim)], ansatz=an, bcs=bcs), timedep(eq, dim))
            opts = {'side_' + s: b for s, b in bcs.items()}
            opts['box'] = 1
            nm = 'box'
        if eq == 'euler_aeos':
            p.update(AEOS[rng.choice(['poly', 'nasg', 'vdw'])])
        ranks = rng.choice([1, 1, 1, 2, 3]) if dim > 1 else 1
        refine = 1 if dim == 2 and an == 'cG Q1' and nm == 'box' and 'periodic' not in opts.values() and rng.random() < .4 else 0
        name = 'b%02d-%s-%s-%dd-%s' % (k, eq, nm, dim, an.replace(' ', ''))
        out.append((eq, Case(name, p, ranks=ranks, op='boundary', dim=dim, seed=seed * 100 + k, refine=refine,
                             mode=rng.choice(['rough', 'smooth']), **opts)))
    return out


def dump_configs(seed, n):
    """C10: (equation, [case on one rank and thread, then the same on others])"""
    rng = random.Random(seed * 65537 + 9)
    out = []
    eqs = ['euler', 'shallow_water', 'scalar_conservation', 'euler_aeos', 'navier_stokes']
    for k in range(n):
        eq = eqs[k % 5]
        dim = [2, 2, 3, 1, 2][(k // 5) % 5]
        if dim == 3 and eq == 'shallow_water':
            dim = 2
        if eq == 'navier_stokes':
            dim = 2
        an = rng.choice({1: ['cG Q1', 'dG Q1'], 2: ['cG Q1', 'dG Q1', 'cG Q2', 'dG Q2', 'dG Q0'], 3: ['cG Q1', 'dG Q1']}[dim])
        if eq == 'navier_stokes':
            an = 'cG Q1'
        sch = rng.choice(list(STAGES)) if eq != 'navier_stokes' else rng.choice(['strang erk 33 cn', 'strang ssprk 33 cn', 'imex 11'])
        bc = rng.choice(['periodic', 'slip', 'dirichlet', 'do nothing']) if eq != 'scalar_conservation' else rng.choice(['periodic', 'dirichlet'])
        if dim == 1 and bc == 'periodic':
            bc = 'dirichlet'
        if eq == 'navier_stokes' and bc == 'do nothing':
            bc = 'slip'
        ref = {1: 6, 2: 4, 3: 2}[dim] - (1 if an[-1] == '2' and dim == 2 else 0)
        refine = 1 if dim > 1 and an == 'cG Q1' and bc != 'periodic' and rng.random() < .5 else 0
        p = merge(base(eq, dim, sch, .4, rng.choice([2, 2, 1]), rng.choice([0., 1.])), box(dim, bc, ref, extent=[rng.choice([1., 2.]) for _ in range(dim)], ansatz=an),
                  timedep(eq, dim))
        if eq == 'euler_aeos':
            p.update(AEOS[rng.choice(['poly', 'nasg', 'vdw'])])
        if eq == 'scalar_conservation':
            # fluxes without a direction in which they vanish: otherwise viscosities and bounds of that direction are pure round-off
            p.update(SCALAR[rng.choice(['burgers'] if dim == 1 else ['kpp', 'smoothfun'] if dim < 3 else ['smoothfun'])])
        name = 'd%02d-%s-%dd-%s-%s-%s' % (k, eq, dim, an.replace(' ', ''), sch.replace(' ', ''), bc.replace(' ', ''))
        # the sign function in the scalar indicator turns equal neighbours into random ones: rough data there
        mode = rng.choice(['smooth', 'shock', 'rough'])
        out.append((eq, name, p, dict(op='dump', dim=dim, seed=seed * 100 + k, mode=mode if eq != 'scalar_conservation' else 'rough', steps=3, refine=refine, periodic=1 if bc == 'periodic' else 0)))
    return out


def parabolic_cases(seed, n):
    """C17"""
    rng = random.Random(seed * 524287 + 3)
    out = []
    for k in range(n):
        dim = [2, 2, 1, 3][k % 4]
        bc = ['periodic', 'slip', 'mixed', 'dirichlet', 'no slip'][(k // 2) % 5]
        refine = 1 if dim == 2 and bc != 'periodic' and rng.random() < .4 else 0
        mu, lam, kap = rng.choice([1e-3, .05, 1.]), rng.choice([0., .1]), rng.choice([1e-3, .05, 2.])
        tol = rng.choice([1e-11, 1e-9, 1e-7] if mu < 1. and kap < 1. else [1e-9, 1e-7])
        linf = rng.choice([0, 0, 1])
        ref = {1: 5, 2: 3, 3: 2}[dim]
        bcs = {s: rng.choice(['slip', 'no slip', 'dirichlet', 'do nothing']) for s in ['left', 'right', 'bottom', 'top', 'back', 'front'][:2 * dim]} if bc == 'mixed' else {}
        p = merge(base('navier_stokes', dim, 'strang erk 33 cn'), box(dim, bc if bc != 'mixed' else 'slip', ref, ansatz='cG Q1', bcs=bcs), timedep('navier_stokes', dim))
        gmg = rng.random() < .4 and bc != 'periodic' and not refine
        p.update({B + '/mu': mu, B + '/lambda': lam, B + '/kappa': kap, G + '/tolerance': tol, G + '/tolerance linfty norm': 'true' if linf else 'false',
                  G + '/multigrid velocity': 'true' if gmg else 'false', G + '/multigrid energy': 'true' if gmg else 'false'})
        hasdir = 1 if bc == 'dirichlet' or 'dirichlet' in bcs.values() else 0
        ranks, thr = rng.choice([(1, 1), (1, 1), (1, 3), (2, 1)]) if dim > 1 else (1, 1)
        name = 'p%02d-%dd-%s-mu%g-k%g%s' % (k, dim, bc.replace(' ', ''), mu, kap, '-gmg' if gmg else '')
        out.append(('navier_stokes', Case(name, p, ranks=ranks, threads=thr, op='parabolic', dim=dim, seed=seed * 100 + k, mu=mu, **{'lambda': lam}, kappa=kap, tol=tol, linfty=linf,
                                          hasdir=hasdir, refine=refine, tau=rng.choice([.002, .05, .5]), mode=rng.choice(['smooth', 'shock', 'rough']), steps=3)))
    return out


def periodic_line_configs():
    """C10: a periodic interval on two ranks (known finding)"""
    out = []
    for eq in ('euler', 'scalar_conservation'):
        for an in ('cG Q1', 'dG Q1'):
            p = merge(base(eq, 1, 'erk 33', .4), box(1, 'periodic', 6, ansatz=an), timedep(eq, 1))
            if eq == 'scalar_conservation':
                p.update(SCALAR['burgers'])
            out.append((eq, 'interval-periodic-%s-%s' % (eq, an.replace(' ', '')), p,
                        dict(op='dump', dim=1, seed=5, mode='rough', steps=3, refine=0, periodic=1)))
    return out


def aeos_variant(rng, kinds):
    """random parameters of an equation of state"""
    e = rng.choice(kinds)
    q = dict(AEOS[e])
    if e == 'poly':
        q[B + '/polytropic gas/gamma'] = rng.choice([1.4, 5. / 3., 1.05, 2.5])
    elif e == 'nasg':
        n = B + '/noble abel stiffened gas/'
        q[n + 'gamma'] = rng.choice([1.4, 1.19, 2.0])
        q[n + 'covolume b'] = rng.choice([0., 0.05, 6.7e-4])
        q[n + 'reference pressure'] = rng.choice([0., 0.1, 5.])
        q[n + 'reference specific internal energy'] = rng.choice([0., 0.02, -0.5])
    elif e == 'vdw':
        n = B + '/van der waals/'
        q[n + 'gamma'] = rng.choice([1.02, 1.4])
        q[n + 'covolume b'] = rng.choice([0., 0.05])
        q[n + 'vdw a'] = rng.choice([0., 1e-3])
    elif e == 'jwl':
        n = B + '/jones wilkins lee/'
        q.update({n + 'A': rng.choice([6., 0.5]), n + 'B': rng.choice([0., 0.1]), n + 'R1': 4.2, n + 'R2': 1.1,
                  n + 'omega': rng.choice([.4, .8938]), n + 'rho_0': rng.choice([1., 1.8]), n + 'q_0': rng.choice([0., .3]), n + 'c_v': .7})
    return e, q


def heat_capacity(e, q):
    n = B + '/' + {'poly': 'polytropic gas', 'nasg': 'noble abel stiffened gas', 'vdw': 'van der waals'}.get(e, '') + '/'
    if e == 'jwl':
        return q[B + '/jones wilkins lee/c_v']
    R = q.get(n + 'gas constant R', .4 if e == 'vdw' else 287.052874)
    return R / (q[n + 'gamma'] - 1.)


def alg_cases(seed, n, op):
    """node-local algebra under random, extreme and degenerate data"""
    rng = random.Random(seed * 6007 + {'limiter': 1, 'riemann': 2, 'thermo': 3}[op])
    out = []
    for k in range(n):
        eq = ['euler', 'shallow_water', 'euler_aeos', 'scalar_conservation'][k % 4]
        dim = [2, 1, 3][(k // 4) % 3] if eq != 'shallow_water' else [2, 1][(k // 4) % 2]
        p = merge(base(eq, dim), box(dim, 'do nothing', {1: 8, 2: 4, 3: 2}[dim]))
        tag = ''
        opts = dict(op=op, dim=dim, seed=seed * 1000 + k, mode=rng.choice(['wide', 'wide', 'mild']), n={'limiter': 4000}.get(op, 6000))
        if eq == 'euler':
            g = rng.choice([1.4, 5. / 3., 1.05, 3.] if op != 'riemann' else [1.4, 5. / 3., 1.05, 1.2])
            p[B + '/gamma'] = g
            tag = '%.3g' % g
        elif eq == 'euler_aeos':
            tag, q = aeos_variant(rng, {'limiter': ['poly', 'nasg', 'vdw', 'func'], 'riemann': ['poly', 'poly', 'nasg'],
                                        'thermo': ['poly', 'nasg', 'vdw', 'func', 'jwl', 'jwl']}[op])
            p.update(q)
            if op == 'thermo' and tag != 'func':
                opts['cv'] = heat_capacity(tag, q)
            strict = rng.choice(['true', 'false'])
            p[B + '/compute strict bounds'] = strict
            opts['strict'] = int(strict == 'true')
        elif eq == 'scalar_conservation':
            tag = rng.choice(['burgers', 'kpp', 'fun', 'smoothfun'] if dim < 3 else ['burgers', 'fun', 'smoothfun'])
            p.update(SCALAR[tag])
        else:
            g = rng.choice([9.81, 1., 0.1])
            p[B + '/gravity'] = g
            tag = 'g%g' % g
        if op == 'limiter':
            kin, v2 = rng.choice([('true', 'true'), ('true', 'false'), ('false', 'true'), ('false', 'false')])
            for L in ('L0', 'L1', 'L2'):
                if eq == 'shallow_water':
                    p[L + '/limit on kinetic energy'] = kin
                    p[L + '/limit on square velocity'] = v2
                p[L + '/relaxation factor'] = {'L0': 0., 'L1': rng.choice([.5, 1., 4.]), 'L2': 1.}[L]
                if eq != 'scalar_conservation':
                    p[L + '/newton max iterations'] = {'L0': 2, 'L1': 2, 'L2': 30}[L]
            if eq == 'shallow_water':
                tag += '-k%sv%s' % (kin[0], v2[0])
        if op == 'riemann' and eq == 'scalar_conservation':
            opts['greedy'] = rng.choice([0, 1])
            p['RS/use greedy wavespeed'] = 'true' if opts['greedy'] else 'false'
            opts['averaged'] = rng.choice([0, 1])
            p['RS/use averaged entropy'] = 'true' if opts['averaged'] else 'false'
            p['RS/random entropies'] = rng.choice([0, 3])
        if op == 'thermo':
            opts['eos' if eq == 'euler_aeos' else 'flux'] = tag
        name = '%s%02d-%s-%s-%dd-%s' % (op[:3], k, eq, tag, dim, opts['mode'])
        out.append((eq, Case(name, p, **opts)))
    return out


# ------------------------------------------------------------ mesh operators
BC = ['slip', 'dirichlet', 'no slip', 'do nothing', 'dynamic']


def mesh_cases(seed, n, op='mesh'):
    """C13, C14: random meshes"""
    rng = random.Random(seed * 12007 + (1 if op == 'mesh' else 2))
    out = []
    ansatz = {1: ['cG Q1', 'dG Q1', 'cG Q2', 'dG Q0', 'dG Q2', 'cG Q3', 'dG Q3'], 2: ['cG Q1', 'dG Q1', 'cG Q2', 'cG Q1', 'dG Q0', 'dG Q2', 'cG Q3', 'dG Q3'],
              3: ['cG Q1', 'dG Q1', 'cG Q1', 'dG Q0', 'cG Q2']}
    for k in range(n):
        dim = [2, 1, 2, 3, 2, 2][k % 6]
        an = ansatz[dim][(k // 6 + k) % len(ansatz[dim])]
        deg, dg = int(an[-1]), an[0] == 'd'
        ranks = rng.choice([1, 2, 3, 4])
        kind = rng.choice(['box', 'box', 'box', 'distorted', 'graded', 'disk', 'cylinder', 'wall', 'annulus'])
        if dim == 1:
            kind = 'box'
        if dim == 3 and kind in ('wall', 'graded', 'annulus', 'wave tank'):
            kind = 'box'
        ref = {1: 4, 2: 3, 3: 1}[dim] - (deg >= 2) * (dim < 3)
        opts = dict(op=op, dim=dim, ansatz=an, seed=seed * 1000 + k, refine=0, lossy=0, skew=1)
        per = []
        if kind in ('box', 'distorted', 'graded'):
            ext = [rng.choice([1., 2., .3, 1.7]) for _ in range(dim)]
            lo = [rng.choice([0., 0., -.7, 3.]) for _ in range(dim)] if kind != 'graded' else [0.] * dim
            names = ['left', 'right', 'bottom', 'top', 'back', 'front'][:2 * dim]
            bcs = {a: rng.choice(BC) for a in names}
            if rng.random() < .3:
                bcs = dict.fromkeys(names, 'slip')
            for d in range(dim):
                if rng.random() < .4 and kind == 'box' and not (dim == 1 and ranks > 1):
                    bcs[names[2 * d]] = bcs[names[2 * d + 1]] = 'periodic'
                    per.append(d)
            sub = [3 if d in per and dim == 3 else rng.choice([1, 2, 3]) for d in range(dim)]
            if dim == 3:
                ref = 1 if max(sub) < 3 else 0
                if per:
                    ref = 0 if len(per) > 1 else rng.choice([0, 1])
            if kind == 'graded':
                ext = [1.] * dim
            p = box(dim, 'slip', ref, extent=ext, sub=sub, ansatz=an, bcs=bcs)
            r = C + '/rectangular domain/'
            p[r + 'position bottom left'] = ', '.join(str(x) for x in lo)
            p[r + 'position top right'] = ', '.join(str(x + e) for x, e in zip(lo, ext))
            opts.update(sides=','.join(bcs[a] for a in names), **{'extent%d' % d: ext[d] for d in range(dim)}, **{'lo%d' % d: lo[d] for d in range(dim)})
            vol = 1.
            for e in ext:
                vol *= e
            opts.update(measure=vol, periodic=int(bool(per)), affine=int(kind == 'box'))
            if kind == 'distorted':
                p[C + '/mesh distortion'] = .2
            if kind == 'graded':
                p[r + 'grading push forward'] = 'x^1.5; y' if dim == 2 else 'x^1.5'
                p[r + 'grading pull back'] = 'x^(1/1.5); y' if dim == 2 else 'x^(1/1.5)'
                opts['measure_tol'] = 1e-10
            if dim > 1 and not dg and (rng.random() < .5) and kind == 'box' and not per:
                opts['refine'] = rng.choice([1, 1, 2]) if dim == 2 else 1
                ref = max(0, ref - opts['refine'])
                p[C + '/mesh refinement'] = ref
            s = 0.
            for d in range(dim):
                if d not in per:
                    s += 2 * vol / ext[d]
            opts['surface'] = s
            if not s:
                del opts['surface']
            if kind == 'distorted':
                for key in ('measure', 'surface', 'sides'):
                    opts.pop(key, None)
            opts['lossy'] = int(not dg and bool(per) and len(per) < dim or opts['refine'] and dim == 3)
        else:
            p = {C + '/finite element ansatz': an, C + '/geometry': kind, C + '/mesh writeout': 'false'}
            g = C + '/' + kind + '/'
            ref = {'disk': 2 if dim == 2 else 1, 'cylinder': 1 if dim == 2 else 0, 'wall': rng.choice([0, 1]), 'annulus': 0, 'wave tank': 0}[kind] - (deg >= 2 and dim == 2)
            ref = max(ref, 0)
            opts['skew'] = int(not (deg >= 3 or dim == 3 and deg >= 2))
            opts['geo'] = kind
            if kind == 'disk':
                R = rng.choice([1.2, .5, 3.])
                bc = rng.choice(BC)
                bal = rng.random() < .5
                p.update({g + 'radius': R, g + 'boundary condition': bc, g + 'balanced': 'true' if bal else 'false'})
                opts.update(bc=bc)
                import math
                opts.update(measure=math.pi * R * R if dim == 2 else 4. / 3. * math.pi * R ** 3, measure_tol={1: .12, 2: .05}[max(1, ref)] if dim == 2 else .3)
            elif kind == 'cylinder':
                Dm = rng.choice([.4, .5])
                L, Hh, pos = rng.choice([4., 5.]), rng.choice([2., 3.]), rng.choice([.6, .8])
                p.update({g + 'length': L, g + 'height': Hh, g + 'object position': pos, g + 'object diameter': Dm})
                import math
                area = L * Hh - math.pi * Dm * Dm / 4.
                opts.update(length=L, position=pos, measure=area * (1 if dim == 2 else Hh), measure_tol=.01)
            elif kind == 'wall':
                L, Hh, pos = rng.choice([3.2, 4.]), rng.choice([1., 1.5]), rng.choice([.2, 1. / 6.])
                p.update({g + 'length': L, g + 'height': Hh, g + 'wall position': pos})
                opts.update(length=L, position=pos, measure=L * Hh, affine=1, surface=2 * (L + Hh))
            elif kind == 'wave tank':
                opts['length'] = (157. + 600.78) / 100.
            if kind in ('cylinder', 'wall') and an == 'cG Q1' and dim == 2 and rng.random() < .5:
                opts['refine'] = 1
            p[C + '/mesh refinement'] = ref
        if an == 'dG Q2' and rng.random() < .5:
            p[D + '/incidence matrix relaxation even degree'] = opts['inc_even'] = rng.choice([0., 1., .25])
        if an in ('dG Q1', 'dG Q3') and rng.random() < .5:
            p[D + '/incidence matrix relaxation odd degree'] = opts['inc_odd'] = rng.choice([.5, 1.])
        lv = [ref]
        if op == 'matrix':
            small = 0
            lv = rng.choice([[ref, max(0, ref - 1)], [ref, small, ref], [small, ref], [ref]])
        elif rng.random() < .2:
            lv = [max(0, ref - 1), ref]
        if kind in ('wall', 'annulus', 'wave tank'):
            lv = [ref]
        opts['levels'] = ','.join(str(x) for x in lv)
        name = '%s%03d-%dd-%s-%s%s%s-np%d' % (op[0], k, dim, kind.replace(' ', ''), an.replace(' ', ''), '-per' + ''.join('xyz'[d] for d in per) if per else '',
                                             '-amr%d' % opts['refine'] if opts['refine'] else '', ranks)
        out.append(Case(name, p, ranks=ranks, threads=1, **opts))
    return out


# ------------------------------------------------------------ whole runs
def smooth_ic(eq, dim, rng, amp=1.):
    xs = ['x', 'y', 'z'][:dim]
    f = E + '/function/'
    p = {E + '/configuration': 'function'}
    k = [rng.choice([2, 3, 6.283185307179586]) for _ in range(3)]
    if eq == 'shallow_water':
        p[f + 'water depth expression'] = '1.0+%g*sin(%g*x+1)' % (.3 * amp, k[0])
        for i, x in enumerate(xs[:2]):
            p[f + 'velocity %s expression' % x] = '%g*cos(%g*%s)' % (.3 * amp, k[1], x)
    elif eq == 'scalar_conservation':
        p[f + 'expression'] = '0.5+%g*sin(%g*x+1)%s' % (.3 * amp, k[0], '*cos(y)' if dim > 1 else '')
    else:
        p[f + 'density expression'] = '1.2+%g*sin(%g*x+1)%s' % (.4 * amp, k[0], '*cos(2*y)' if dim > 1 else '')
        for i, x in enumerate(xs):
            p[f + 'velocity %s expression' % x] = '%g*cos(%g*%s)' % (.4 * amp, k[1], x)
        p[f + 'pressure expression'] = '1.0+%g*cos(%g*x)' % (.3 * amp, k[2])
    return p


TL = A + '/'
EQS5 = ['euler', 'shallow_water', 'navier_stokes', 'scalar_conservation', 'euler_aeos']


def e2e_base(eq, dim, rng, ref=None, ansatz=None, bc=None, scheme=None):
    ansatz = ansatz or ('cG Q1' if eq == 'navier_stokes' else rng.choice(['cG Q1', 'cG Q1', 'dG Q1', 'cG Q2', 'dG Q0']))
    if scheme is None:
        scheme = rng.choice(['strang erk 33 cn', 'imex 11', 'strang ssprk 33 cn']) if eq == 'navier_stokes' else rng.choice(['erk 33', 'ssprk 22', 'erk 11', 'erk 54', 'erk 22'])
    bc = bc or rng.choice(['slip', 'slip', 'dirichlet'])
    if eq == 'scalar_conservation':
        # (a mesh with hanging nodes on a periodic boundary is not supported)
        bc = rng.choice(['periodic', 'dirichlet']) if dim != 3 and bc is None else 'dirichlet'
    if ref is None:
        ref = {1: 5, 2: 4 if ansatz == 'cG Q1' else 3, 3: 1}[dim]
    p = merge(base(eq, dim, scheme, rng.choice([.5, .8]), 2, 1.), box(dim, bc, ref, ansatz=ansatz), smooth_ic(eq, dim, rng))
    if eq == 'navier_stokes':
        p[B + '/mu'] = 1e-3
        p[B + '/kappa'] = 1e-3
    p[TL + 'basename'] = 'run'
    p[TL + 'terminal update interval'] = rng.choice([0, 0, 5])
    return p, bc


def loop_cases(seed, n):
    """C21"""
    rng = random.Random(seed * 15013 + 1)
    out = []
    for k in range(n):
        eq = EQS5[k % 5]
        dim = 2 if eq == 'navier_stokes' else [2, 1, 2, 3][(k // 5 + k) % 4]
        if dim == 3 and eq in ('shallow_water', 'scalar_conservation'):
            dim = 2
        p, bc = e2e_base(eq, dim, rng)
        T = rng.choice([.2, .31, .1, .5])
        p[TL + 'final time'] = T
        p[TL + 'enforce final time'] = rng.choice(['true', 'false'])
        p[TL + 'timer granularity'] = g = rng.choice([T, T / 4., .05, .001, 1., .07])
        for f in ('enable output full', 'enable compute quantities', 'enable compute error', 'enable checkpointing', 'enable output levelsets'):
            p[TL + f] = rng.choice(['true', 'false'])
        if dim == 1:
            p[TL + 'enable checkpointing'] = 'false'
        if rng.random() < .3:
            p[TL + 'enable output full'] = 'true'
        for m in ('checkpoint', 'output full', 'output levelsets', 'compute quantities'):
            p[TL + 'timer %s multiplier' % m] = rng.choice([1, 1, 2, 3])
        p[K + '/interior manifolds'] = 'line : x-0.5 : time_averaged space_averaged instantaneous'
        p[J + '/use mpi io'] = rng.choice(['true', 'false'])
        if rng.random() < .6:
            p[J + '/manifolds'] = rng.choice(['x-0.5', 'x-0.4, x-0.25'])
        ranks = 1 if dim == 1 else rng.choice([1, 1, 2, 3])
        out.append((eq, Case('l%02d-%s-%dd-np%d' % (k, eq, dim, ranks), p, ranks=ranks, dim=dim)))
    return out


def resume_cases(seed, n):
    """C08"""
    rng = random.Random(seed * 15101 + 7)
    out = []
    modes = ['plain', 'ranks', 'zero', 'adapted', 'error', 'future', 'plain', 'ranks', 'counters', 'again', 'pending', 'repeat']
    for k in range(n):
        eq = EQS5[(k + k // 5) % 5]
        mode = modes[k % len(modes)]
        dim = 3 if eq in ('euler', 'euler_aeos') and k % 3 == 2 else 2
        adp = mode in ('adapted', 'future', 'pending', 'repeat')
        ans = 'cG Q1' if adp or eq == 'navier_stokes' else rng.choice(['cG Q1', 'dG Q1', 'cG Q2', 'dG Q0'])
        p, bc = e2e_base(eq, dim, rng, ansatz=ans, bc=rng.choice(['slip', 'dirichlet']) if adp else None)
        g = {2: .03, 3: .06}[dim]
        p[TL + 'timer granularity'] = g
        p[TL + 'enable checkpointing'] = 'true'
        p[TL + 'timer checkpoint multiplier'] = m = rng.choice([1, 2, 3])
        p[TL + 'final time'] = 8 * g
        stop = rng.choice([3.2, 4.5])
        if adp:
            # the last checkpoint is written at the tick number 'last'
            last = int(stop) // m * m
            p[TL + 'enable mesh adaptivity'] = 'true'
            p[I + '/adaptation strategy'] = rng.choice(['global refinement', 'random adaptation']) if mode == 'adapted' else 'global refinement'
            p[I + '/time point selection strategies/adaptation timepoints'] = \
                {'adapted': '%g', 'repeat': '%g', 'pending': '%g, 1000', 'future': '1000, %g'}[mode] % ({'future': stop + 1.3, 'pending': last}.get(mode, .6) * g)
        if mode == 'error':
            p[TL + 'enable compute error'] = 'true'
        if mode == 'counters':
            p[TL + 'enable output full'] = 'true'
            p[TL + 'timer output full multiplier'] = rng.choice([1, 2])
        ranks = rng.choice([1, 2, 3])
        r2 = rng.choice([r for r in (1, 2, 3, 4) if r != ranks]) if mode in ('ranks', 'again') else ranks
        out.append((eq, Case('r%02d-%s-%dd-%s-%s-np%d.%d' % (k, mode, dim, eq, ans.replace(' ', ''), ranks, r2), p, ranks=ranks, mode=mode, dim=dim,
                             ranks2=r2, eq=eq, stop=stop * g, g=g, bc=bc)))
    return out


def adapt_cases(seed, n):
    """C16"""
    rng = random.Random(seed * 15107 + 7)
    out = []
    for k in range(n):
        eq = EQS5[k % 5]
        dim = 3 if eq in ('euler', 'euler_aeos') and k % 4 == 3 else 2
        strat = ['global refinement', 'random adaptation', 'random adaptation'][k % 3]
        an = 'cG Q1' if eq == 'navier_stokes' or strat[0] == 'r' else rng.choice(['cG Q1', 'dG Q1', 'dG Q0', 'cG Q2'])
        p, bc = e2e_base(eq, dim, rng, ref={2: 3, 3: 1}[dim], ansatz=an, bc=rng.choice(['slip', 'slip', 'dirichlet']))
        if k % 5 == 4 or rng.random() < .2:
            uni = True
            p.update(smooth_ic(eq, dim, rng, 0.))
            if bc == 'slip':
                for d in ('x', 'y', 'z')[:dim]:
                    if eq != 'scalar_conservation' and not (eq == 'shallow_water' and d == 'z'):
                        p[E + '/function/velocity %s expression' % d] = '0'
        else:
            uni = False
        g = .02 if dim == 2 else .05
        np_ = rng.choice([1, 2, 2]) if strat[0] == 'g' else rng.choice([1, 2, 3])
        pts = sorted(rng.sample([0., .5 * g, 1.7 * g, 2.6 * g, 2.65 * g, 4.2 * g], np_))
        p[TL + 'final time'] = 6 * g
        p[TL + 'timer granularity'] = 10.
        p[TL + 'enable mesh adaptivity'] = 'true'
        p[I + '/adaptation strategy'] = strat
        p[I + '/adaptation strategies/random adaptation: mersenne_twister_seed'] = rng.randint(1, 10**6)
        p[I + '/marking strategies/fixed number: refinement fraction'] = rf = rng.choice([.3, .1, .6])
        p[I + '/marking strategies/fixed number: coarsening fraction'] = cf = rng.choice([0., .3, .3])
        p[I + '/time point selection strategies/adaptation timepoints'] = ', '.join('%g' % x for x in pts)
        ranks = rng.choice([1, 2, 3])
        out.append((eq, Case('a%02d-%s-%dd-%s-%s-np%d' % (k, strat.split()[0], dim, eq, an.replace(' ', ''), ranks), p, ranks=ranks, dim=dim, uni=uni,
                             pts=pts, strat=strat, cf=cf, bc=bc, eq=eq, an=an)))
    return out


def quantity_cases(seed, n):
    """C19"""
    rng = random.Random(seed * 15121 + 7)
    out = []
    for k in range(n):
        eq = EQS5[k % 5]
        dim = 3 if eq == 'euler' and k % 4 == 2 else 1 if eq in ('scalar_conservation', 'shallow_water') and k % 3 == 1 else 2
        adaptive = dim > 1 and k % 4 == 3
        p, bc = e2e_base(eq, dim, rng, ansatz='cG Q1' if adaptive else None, bc=rng.choice(['slip', 'dirichlet']) if adaptive else None)
        an = p[C + '/finite element ansatz']
        xs = ['x', 'y', 'z'][:dim]
        lev = ['x-0.5', 'x', '0*x', 'x-0.25'] + (['y-1', 'x-y', 'x+y-1', '(x-0.5)*(y-0.5)', 'x*x+y*y-0.25'] if dim > 1 else []) + (['z-1'] if dim == 3 else [])
        bl = ['x', 'x-1', '0*x'] + (['y', 'x*(y-1)', 'x-0.5'] if dim > 1 else [])
        opts = ['time_averaged', 'space_averaged', 'instantaneous']
        mk = lambda pre, L, m: [('%s%d' % (pre, i), rng.choice(L), ' '.join(rng.sample(opts, rng.choice([1, 2, 3])))) for i in range(m)]
        inter, bound = mk('in', lev, rng.choice([1, 2, 3])), mk('bd', bl, rng.choice([1, 2]))
        if k % 4 == 0:
            inter = [('in%d' % i, lev[i], 'space_averaged') for i in range(2)]
        p[K + '/interior manifolds'] = ', '.join('%s : %s : %s' % t for t in inter)
        p[K + '/boundary manifolds'] = ', '.join('%s : %s : %s' % t for t in bound)
        p[K + '/clear statistics on writeout'] = clear = rng.choice(['true', 'false'])
        g = {1: .02, 2: .03, 3: .06}[dim]
        p[TL + 'timer granularity'] = g
        p[TL + 'final time'] = 5.5 * g
        p[TL + 'enable compute quantities'] = 'true'
        p[TL + 'enable output full'] = 'true'
        p[TL + 'timer compute quantities multiplier'] = m = rng.choice([1, 2, 2])
        p[TL + 'timer output full multiplier'] = rng.choice([1, 2])
        p[J + '/use mpi io'] = rng.choice(['true', 'false'])
        if adaptive:
            p[TL + 'enable mesh adaptivity'] = 'true'
            p[I + '/adaptation strategy'] = 'random adaptation'
            p[I + '/time point selection strategies/adaptation timepoints'] = '%g' % (2.5 * g)
        ranks = 1 if dim == 1 else rng.choice([1, 2, 3])
        out.append((eq, Case('q%02d-%s-%dd-%s-np%d' % (k, eq, dim, an.replace(' ', ''), ranks), p, ranks=ranks, dim=dim, inter=inter, bound=bound,
                             clear=clear == 'true', mult=m, g=g, eq=eq, an=an)))
    return out


def refuse_cases(seed, n):
    """C22"""
    rng = random.Random(seed * 15131 + 7)
    out = []

    def add(name, eq, ch, dim=2, ranks=1, **kw):
        eb = kw.pop('eb', {})
        p, bc = e2e_base(eq, dim, rng, ref={1: 4, 2: 2, 3: 1}[dim], ansatz=eb.get('ansatz', 'cG Q1'), bc='dirichlet', scheme=eb.get('scheme'))
        p[TL + 'final time'] = .02
        p[TL + 'timer granularity'] = .01
        p.update(ch)
        out.append(Case(name, p, ranks=ranks, dim=dim, **kw))

    # what is refused below runs with a supported setting
    for eq in EQS5:
        add('supported/' + eq, eq, {}, good=True)
    add('supported/1d', 'euler', {}, dim=1, good=True)
    add('supported/outputs', 'euler', {TL + 'enable output full': 'true', TL + 'enable checkpointing': 'true', TL + 'enable compute error': 'true',
                                       TL + 'enable compute quantities': 'true', K + '/interior manifolds': 'a : x : instantaneous',
                                       J + '/manifolds': 'x-0.5'}, good=True)
    # unknown names
    eu = 'euler'
    junk = rng.choice(['nonesuch', 'eulerr', 'erk', 'x', 'uniform 2'])
    add('equation', eu, {B + '/equation': junk})
    add('dimension/4', eu, {B + '/dimension': 4})
    add('dimension/0', eu, {B + '/dimension': 0})
    add('geometry', eu, {C + '/geometry': junk})
    add('ansatz', eu, {C + '/finite element ansatz': rng.choice(['cG Q9', 'dg q1', 'Q1'])})
    add('boundary', eu, {C + '/rectangular domain/boundary condition left': rng.choice(['wall', 'slipp', 'no-slip'])})
    for eq in EQS5:
        add('initial/' + eq, eq, {E + '/configuration': junk})
        add('scheme/' + eq, eq, {H + '/time stepping scheme': rng.choice(['erk 34', 'rk 3', 'ssprk 44', 'imex 12'])})
        add('vtu-quantity/' + eq, eq, {TL + 'enable output full': 'true', J + '/vtu output quantities': 'nonesuch'})
    add('eos', 'euler_aeos', {B + '/equation of state': junk})
    add('flux', 'scalar_conservation', {B + '/flux': junk})
    add('recovery', eu, {H + '/cfl recovery strategy': 'pray'})
    add('adaptation/strategy', eu, {TL + 'enable mesh adaptivity': 'true', I + '/adaptation strategy': junk})
    add('adaptation/marking', eu, {TL + 'enable mesh adaptivity': 'true', I + '/marking strategy': junk})
    add('adaptation/selection', eu, {TL + 'enable mesh adaptivity': 'true', I + '/time point selection strategy': junk})
    add('schlieren', eu, {TL + 'enable output full': 'true', J + '/schlieren quantities': 'nonesuch'})
    add('vorticity', eu, {TL + 'enable output full': 'true', J + '/vorticity quantities': 'nonesuch'})
    add('vorticity/scalar', eu, {TL + 'enable output full': 'true', J + '/vorticity quantities': 'E'})
    add('vorticity/scalar', 'scalar_conservation', {TL + 'enable output full': 'true', J + '/vorticity quantities': 'u'})
    # out of range
    for v in ('0', '-0.1', '1.1'):
        add('cfl-min/' + v, eu, {H + '/cfl min': v, H + '/cfl max': '1.0'})
    add('cfl-max/below-min', eu, {H + '/cfl min': '0.5', H + '/cfl max': '0.4'})
    for v in ('3', '-1'):
        add('limiter-iterations/' + v, eu, {F + '/limiter/iterations': v})
    add('direction/0', eu, {E + '/direction': '0, 0', E + '/configuration': 'contrast'})
    # unsupported combinations
    for s in ('erk 33', 'ssprk 22', 'imex 33', 'imex 22'):
        add('ns-scheme/' + s.replace(' ', ''), 'navier_stokes', {H + '/time stepping scheme': s})
    for s in ('strang erk 33 cn', 'imex 11', 'strang ssprk 33 cn'):
        add('euler-scheme/' + s.replace(' ', ''), eu, {H + '/time stepping scheme': s})
    add('ns-ansatz', 'navier_stokes', {C + '/finite element ansatz': rng.choice(['dG Q1', 'dG Q0', 'cG Q2'])})
    add('kpp-3d', 'scalar_conservation', {B + '/flux': 'kpp'}, dim=3)
    for b in ('slip', 'no slip', 'dynamic'):
        add('scalar-boundary/' + b.replace(' ', ''), 'scalar_conservation', {C + '/rectangular domain/boundary condition top': b})
    add('checkpoint-1d', eu, {TL + 'enable checkpointing': 'true'}, dim=1)
    add('resume-1d', eu, {TL + 'resume': 'true'}, dim=1)
    add('adaptivity-1d', eu, {TL + 'enable mesh adaptivity': 'true', I + '/time point selection strategies/adaptation timepoints': '0.'}, dim=1)
    for r in (1, 2):
        add('resume-nothing/np%d' % r, eu, {TL + 'resume': 'true'}, ranks=r)
    # malformed
    add('expression/initial', eu, {E + '/function/density expression': rng.choice(['1+', 'sin(', '1+*2', 'foo(x)'])})
    add('expression/variable', eu, {E + '/function/density expression': '1+w'})
    add('expression/flux', 'scalar_conservation', {B + '/flux': 'function', B + '/function/expression': '0.5*u*; u'})
    add('components/flux', 'scalar_conservation', {B + '/flux': 'function', B + '/function/expression': '0.5*u*u'})
    add('expression/quantity', eu, {TL + 'enable compute quantities': 'true', K + '/interior manifolds': 'a : x+ : instantaneous'})
    add('expression/levelset', eu, {TL + 'enable output levelsets': 'true', J + '/manifolds': 'x+'})
    add('format/quantity', eu, {TL + 'enable compute quantities': 'true', K + '/interior manifolds': 'a x instantaneous'})
    # misspelt parameters and values of another type
    pool = {}
    for eq in EQS5:
        p, bc = e2e_base(eq, 2, rng, ref=2, ansatz='cG Q1', bc='dirichlet')
        pool[eq] = p
    for k in range(n):
        eq = EQS5[k % 5]
        key = rng.choice(sorted(pool[eq]))
        sec, name = key.rsplit('/', 1)
        i = rng.randrange(len(name))
        kind = k % 3
        if kind == 0:
            name = name[:i] + name[i] + name[i:]
        elif kind == 1:
            name = name[:i] + 'q' + name[i + 1:]
        elif len(name) > 2:
            name = name[:i] + name[i + 1:]
        if name.split() == key.rsplit('/', 1)[1].split():
            name = 'q' + name  # only the white space differed
        add('misspelt/%s/%s' % (eq, name.replace(' ', '_')), eq, {sec + '/' + name: pool[eq][key]})
    add('misspelt/section', eu, {'H - TimeIntegrators/cfl max': '0.5'})
    add('misspelt/subsection', eu, {F + '/limitr/iterations': '2'})
    for k, v in ((TL + 'final time', 'soon'), (TL + 'enable output full', 'maybe'), (B + '/gamma', 'air'), (C + '/mesh refinement', '2.5'),
                 (F + '/limiter/iterations', 'two'), (B + '/dimension', 'two')):
        add('type/' + k.split('/')[-1].replace(' ', '_'), eu, {k: v})
    for c in out:
        c.name = c.name.replace(' ', '')
    return [c for c in out]


def crash_cases(seed, n):
    """C09"""
    rng = random.Random(seed * 15137 + 7)
    out = []
    for k in range(n):
        eq = ['euler', 'shallow_water', 'scalar_conservation', 'euler_aeos', 'navier_stokes'][k % 5]
        adapt = k % 2 == 1
        ans = 'cG Q1' if adapt or eq == 'navier_stokes' else rng.choice(['cG Q1', 'dG Q1', 'dG Q0', 'cG Q2'])
        p, bc = e2e_base(eq, 2, rng, ref=3, ansatz=ans, bc='slip' if eq != 'scalar_conservation' else 'dirichlet', scheme=None if eq == 'navier_stokes' else 'erk 22')
        g = .04
        p[TL + 'timer granularity'] = g
        p[TL + 'enable checkpointing'] = 'true'
        if adapt:
            p[TL + 'enable mesh adaptivity'] = 'true'
            p[I + '/adaptation strategy'] = 'random adaptation'
            p[I + '/time point selection strategies/adaptation timepoints'] = '%g, %g' % (.3 * g, 1.3 * g)
        ranks = [1, 1, 2, 3][k % 4]
        out.append(Case('k%02d-%s-%s-np%d%s' % (k, eq, ans.replace(' ', ''), ranks, '-adapt' if adapt else ''), p, ranks=ranks, g=g, nchk=3, dim=2))
    return out


# ------------------------------------------------------------ initial states
def _csv(*v):
    return ', '.join('%.12g' % q for q in v)


def initial_cases(seed, n):
    """C20: n passes over all initial states"""
    import math
    rng = random.Random(seed * 9173 + 3)
    out = []

    def add(eq, conf, dim, pars, eqp=None, **o):
        tag = o.pop('tag', '')
        L = o.pop('L', 1.)
        ext = [L] * dim
        d = [rng.uniform(-1, 1) for _ in range(dim)]
        while sum(q * q for q in d) < .05 or max(abs(q) for q in d) < .1:
            d = [rng.uniform(-1, 1) for _ in range(dim)]
        if dim == 1:
            d = [1.]
        elif rng.random() < .35:
            k = rng.randrange(dim)
            d = [float(k == q) * rng.choice([1., -1., 2.]) for q in range(dim)]
        pos = [rng.uniform(.2, .8) * L for _ in range(dim)]
        if o.pop('aligned', False):
            d, pos = [1.] + [0.] * (dim - 1), [0.] * dim
        bc = 'do nothing'
        mesh = {1: 6, 2: 4, 3: 2}[dim]
        p = merge(base(eq, dim, scheme='strang erk 33 cn') if eq == 'navier_stokes' else base(eq, dim),
                  box(dim, bc, mesh, extent=ext, ansatz=rng.choice(['cG Q1'] if eq == 'navier_stokes' else ['cG Q1', 'cG Q2', 'dG Q1', 'dG Q0'])), eqp or {})
        for sec, dd, pp in ((E, d, pos), ('X - Reference', [1.] + [0.] * (dim - 1), [0.] * dim)):
            p[sec + '/configuration'] = conf
            p[sec + '/direction'] = _csv(*dd)
            p[sec + '/position'] = _csv(*pp)
            for k, v in pars.items():
                p['%s/%s/%s' % (sec, conf, k)] = v
        k = len(out)
        o.update(op='initial', conf=conf.replace(' ', '-') + tag, dim=dim, seed=seed * 1000 + k, direction=','.join('%.12g' % q for q in d),
                 position=','.join('%.12g' % q for q in pos))
        out.append((eq, Case('i%03d-%s-%s%s-%dd' % (k, eq, conf.replace(' ', '_'), tag, dim), p, ranks=o.pop('ranks', rng.choice([1, 1, 2, 3])), **o)))

    def want(*rows):
        return '|'.join(';'.join(','.join('%.14g' % q for q in part) for part in r) for r in rows)

    for rep in range(n):
        for eq in ('euler', 'euler_aeos', 'navier_stokes'):
            g = rng.choice([1.4, 5. / 3., 1.2, 2.])
            cov = 0.
            eqp = {B + '/gamma': g}
            gp = {}
            if eq == 'euler_aeos':
                gp = {'gamma': g}
                kind = rng.choice(['polytropic gas', 'noble abel stiffened gas'])
                eqp = {B + '/equation of state': kind, B + '/%s/gamma' % kind: g}
                if kind[0] == 'n':
                    cov = rng.choice([0., .03, .1])
                    eqp.update({B + '/%s/covolume b' % kind: cov, B + '/%s/reference pressure' % kind: 0.,
                                B + '/%s/reference specific internal energy' % kind: 0.})
            th = dict(gamma=g, covolume=cov)
            prim = lambda v=True: (rng.uniform(.1, 4.), rng.uniform(-2, 2) if v else 0., 10. ** rng.uniform(-2, 2))
            dims = [1, 2, 3]
            rng.shuffle(dims)
            dim = dims[0]
            z = [0.] * (dim - 1)

            def w3(s, x, t, d=None):
                return ([x] + [0.] * ((d or dim) - 1), [t], [s[0], s[1]] + [0.] * ((d or dim) - 1) + [s[2]])
            a, b, c = prim(), prim(), prim()
            ql = rng.choice(['uniform', 'contrast', 'three'])
            add(eq, 'uniform', dim, {'primitive state': _csv(*a)}, eqp, exact=1, nojump=1, steady=1, flat=1, want=want(w3(a, .3, 0.), w3(a, -2., 1.)), **th)
            add(eq, 'contrast', dim, {'primitive state left': _csv(*a), 'primitive state right': _csv(*b)}, eqp, want=want(w3(a, -.1, 0.), w3(b, .1, 0.)), **th)
            dim = dims[1]
            l1, l2 = rng.uniform(.1, .3), rng.uniform(.2, .5)
            add(eq, 'three state contrast', dim,
                {'primitive state left': _csv(*a), 'primitive state middle': _csv(*b), 'primitive state right': _csv(*c), 'left region length': l1,
                 'middle region length': l2}, eqp,
                want=want(w3(a, l1 - .01, 0.), w3(b, l1 + .01, 0.), w3(b, l1 + l2 - .01, 0.), w3(c, l1 + l2 + .01, 0.), w3(a, -.5, 0.)), **th)
            dim = rng.choice([2, 3])
            q = [(rng.uniform(.1, 4), rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(.1, 3)) for _ in range(4)]
            f4 = lambda s, x, y: ([x, y] + [0.] * (dim - 2), [0.], [s[0], s[1], s[2]] + [0.] * (dim - 2) + [s[3]])
            add(eq, 'four state contrast', dim, {'primitive state ' + m: _csv(*v) for m, v in zip(('bottom left', 'bottom right', 'top left', 'top right'), q)}, eqp,
                move=int(dim == 2), want=want(f4(q[0], -.2, -.1), f4(q[1], .2, -.1), f4(q[2], -.1, .2), f4(q[3], .1, .3)), **th)
            dim = dims[2]
            a, b = prim(False), prim(False)
            r0 = rng.uniform(.2, .6)
            add(eq, 'radial contrast', dim, {'primitive state inner': _csv(*a), 'primitive state outer': _csv(*b), 'radius': r0}, eqp, kind='radial',
                want=want(w3(a, r0 * .98, 0.), w3(b, r0 * 1.02, 0.), w3(a, -r0 * .98, 0.), w3(b, -r0 * 1.02, 0.)), **th)
            dim = rng.choice([2, 3])
            a, b = prim(), prim()
            wd = rng.uniform(.03, .3)
            fj = lambda s, x, y: ([x, y] + [0.] * (dim - 2), [0.], [s[0], s[1]] + [0.] * (dim - 1) + [s[2]])
            add(eq, 'astro jet', dim, dict({'jet width': wd, 'primitive jet state': _csv(*a), 'primitive ambient right': _csv(*b)}, **gp), eqp, move=int(dim == 2),
                want=want(fj(a, 0., .9 * wd), fj(a, 0., -.9 * wd), fj(b, 0., 1.1 * wd), fj(b, .1, 0.)), **th)
            a, b = prim(), prim()
            t0, t1 = rng.uniform(0, .5), rng.uniform(.7, 2)
            add(eq, 'ramp up', dim, {'primitive state initial': _csv(*a), 'primitive state final': _csv(*b), 'time initial': t0, 'time final': t1}, eqp, flat=1, tmin=0., tmax=3.,
                want=want(w3(a, .1, 0.), w3(a, .1, t0), w3(b, .1, t1), w3(b, .1, t1 + 1.)), **th)
            # exact solutions
            dim = rng.choice([2, 3])
            poly = dict(eqp)
            if eq == 'euler_aeos':
                poly = {B + '/equation of state': 'polytropic gas', B + '/polytropic gas/gamma': g}
            tp = dict(gamma=g, covolume=0.)
            m = rng.uniform(-2, 2)
            be = rng.uniform(.5, 5.)
            add(eq, 'isentropic vortex', dim, dict({'mach number': m, 'beta': be}, **gp), poly, exact=1, nojump=1, move=int(dim == 2), L=4., xmin=-4, xmax=4, ymin=-4, ymax=4, h=4e-3,
                tol=2e-6, floor=1e-3, **tp)
            dim = rng.choice([1, 2, 3])
            w = rng.uniform(-2, 2)
            add(eq, 'smooth wave', dim, {'mach number': w, 'reference density': rng.uniform(.5, 3), 'reference pressure': rng.uniform(.2, 3)}, eqp, exact=1, nojump=1, xmin=-2, xmax=2.5,
                h=1e-3, tol=3e-5, points=6000, **th)
            lb = {B + '/gamma': 5. / 3.} if eq != 'euler_aeos' else {B + '/equation of state': 'polytropic gas', B + '/polytropic gas/gamma': 5. / 3.}
            add(eq, 'leblanc', dim, {}, lb, exact=1, fronts=1, xmin=-.5, xmax=1., tmin=.3, tmax=1., gamma=5. / 3., jumptol=1e-6, scale=1e-4, maxspeed=3., tol=1e-5)
            add(eq, 'rarefaction', dim, gp, poly, exact=1, nojump=1, xmin=-.2, xmax=1.5, tmin=.01, tmax=.5, tol=1e-5, **tp)
            mach = rng.choice([1.2, 2., 3., 10., 40.])
            a = (rng.uniform(.5, 2.), rng.choice([0., rng.uniform(-1, .5)]), rng.uniform(.5, 2.))
            sp = mach * (g * a[2] / a[0] / (1. - cov * a[0])) ** .5
            add(eq, 'shock front', dim, dict({'primitive state': _csv(*a), 'mach number': mach}, **gp), eqp, exact=1, fronts=1, speed=sp, xmin=-.5, xmax=1.1 * sp, jmin=-.5, tmin=.1, tmax=1.,
                maxspeed=3. * sp, tag='-covolume' if cov else '', want=want(w3(a, sp * .5 + .05, .5)), **th)
            rho0, u0 = rng.uniform(.3, 3.), rng.uniform(.3, 2.)
            D_ = u0 * (g - 1.) / 2.
            hi = rho0 * ((g + 1.) / (g - 1.)) ** dim
            add(eq, 'noh', dim, dict({'reference density': rho0, 'reference velocity magnitude': u0, 'reference pressure': '1e-13'}, **gp), poly, exact=1, fronts=1, speed=D_, kind='radial', jmin=1e-3,
                xmin=.01, xmax=.9, ymin=-.7, ymax=.7, tmin=.2, tmax=.6, maxspeed=3. * u0, tol=3e-4, floor=1e-2, jumpscale=1e-3 * rho0 * u0,
                want=want(([.5 * D_ * .4] + [0.] * (dim - 1), [.4], [hi] + [0.] * dim + [hi * (g - 1.) * .5 * u0 * u0]),
                          ([.3] + [0.] * (dim - 1), [0.], [rho0, -u0] + [0.] * (dim - 1) + [0.])), **tp)
            # a converging shock in front of a perturbed interface
            dim = rng.choice([2, 3])
            mach = rng.uniform(1.2, 4.)
            ins, outs = (rng.uniform(.05, .5), 0., 1.), (rng.uniform(.8, 2.), 0., rng.uniform(.5, 2.))
            r1, r2, am, nm = .7, rng.uniform(.9, 1.1), rng.uniform(.005, .05), rng.choice([4., 8.])
            q = 1. / ((g + 1.) / ((g - 1.) + 2. / mach ** 2))   # rho_R / rho_L without covolume
            spec = 1. / outs[0]
            rl = 1. / (cov + (spec - cov) * q)
            ar = (g * outs[2] / outs[0] / (1. - cov * outs[0])) ** .5
            ul = (1. - outs[0] / rl) * mach * ar
            pl = outs[2] * (2. * g * mach ** 2 - (g - 1.)) / (g + 1.)
            ax = lambda r, s, k: ([r * (k == e) for e in range(dim)], [0.], [s[0]] + [s[1] * (k == e) for e in range(dim)] + [s[2]])
            shk = (rl, -ul, pl)
            # at the last axis the perturbation is amplitude * cos(0), at the others amplitude * cos(modes * pi / 2)
            add(eq, 'icf like', dim, dict({'primitive state inside': _csv(*ins), 'primitive state outside': _csv(*outs), 'interface radius': r1, 'number of modes': nm, 'amplitude': am,
                                           'mach number': mach, 'shock radius': r2}, **gp), eqp, move=int(dim == 2), L=2., tag='-covolume' if cov else '',
                want=want(ax(r1 + am * .9, ins, dim - 1), ax(r1 + am * 1.1, outs, dim - 1), ax(r1 + am * .9, ins, 0), ax(r1 + am * 1.1, outs, 0), ax(r2 * 1.02, shk, 0), ax(r2 * .98, outs, 0),
                          ax(r2 * 1.02, shk, dim - 1), ax(r2 * .98, outs, dim - 1)), **th)
            # travelling wave of the Navier-Stokes equations
            dim = rng.choice([1, 2, 3])
            vl, vr, rl_, mu = rng.uniform(.8, 1.5), rng.uniform(.3, .6), rng.uniform(.5, 2.), rng.choice([.05, .2])
            if eq == 'navier_stokes':
                vr = max(vr, 1.05 * vl * (g - 1.) / (g + 1.))
            else:
                vr = max(vr, 1.05 * vl * (g - 1.) / (g + 1.))
            vr = min(vr, .9 * vl)
            add(eq, 'becker solution', dim, dict({'velocity galilean frame': rng.uniform(-.5, .5), 'velocity left': '%.15g' % vl, 'velocity right': '%.15g' % vr, 'density left': rl_, 'mu': mu}, **gp), poly,
                exact=1, nojump=1, mu=mu, kappa=g * mu / .75, h=.01 * mu / .05, tol=1e-4, xmin=-.4 * mu / .05, xmax=.4 * mu / .05, ymin=-1, ymax=1, L=2., points=800, tmin=0.05, tmax=.3, **tp)
            # functions of space and time
            f = {'density expression': '2 + 0.3*sin(3*x+1) + 0.1*t', 'velocity x expression': '0.3*x - t', 'pressure expression': '1.5 + 0.2*cos(2*x)'}
            row = lambda x, t, extra=(): ([x] + [0.] * (dim - 1), [t], [2 + .3 * math.sin(3 * x + 1) + .1 * t, .3 * x - t] + list(extra) + [1.5 + .2 * math.cos(2 * x)])
            dim = 1
            add(eq, 'function', 1, f, eqp, want=want(row(.3, 0.), row(-.2, .7)), **th)
            dim = 2
            add(eq, 'function', 2, dict(f, **{'velocity y expression': '0.4 + y', 'density expression': f['density expression'] + ' + 0.2*y'}), eqp, want=want(row(.3, 0., [.4]), row(-.2, .7, [.4])), **th)
            dim = 3
            add(eq, 'function', 3, {'density expression': '5 + 0.1*x', 'velocity x expression': '1', 'velocity y expression': '0.1*z', 'velocity z expression': '0', 'pressure expression': '5 + 0.1*y'}, eqp,
                kind='full', want=want(([1., 2., 3.], [0.], [5.1, 1., .3, 0., 5.2])), **th)
        # shallow water
        eq = 'shallow_water'
        gr = rng.choice([9.81, 1., 9.81])
        eqp = {B + '/gravity': gr, B + '/manning friction coefficient': 0.}
        th = dict(gravity=gr, manning=0.)
        w2 = lambda s, x, t: ([x] + [0.] * (dim - 1), [t], [s[0], s[1]] + [0.] * (dim - 1))
        dim = rng.choice([1, 2])
        a, b = (rng.uniform(.1, 3), rng.uniform(-2, 2)), (rng.uniform(.1, 3), rng.uniform(-2, 2))
        add(eq, 'uniform', dim, {'primitive state': _csv(*a)}, eqp, exact=1, nojump=1, steady=1, flat=1, want=want(w2(a, .3, 0.)), **th)
        dim = 3 - dim
        add(eq, 'contrast', dim, {'primitive state left': _csv(*a), 'primitive state right': _csv(*b)}, eqp, want=want(w2(a, -.1, 0.), w2(b, .1, 0.)), **th)
        for ft in ('transcritical', 'subsonic'):
            dim = rng.choice([1, 2])
            add(eq, 'flow over bump', dim, {'flow type': ft}, dict(eqp, **{B + '/gravity': 9.81}), exact=1, nojump=1, xmin=0., xmax=11.6 if ft[0] == 't' else 25., tmin=.2, tmax=3., h=1e-2, tol=1e-4, L=25.,
                gravity=9.81, manning=0., tag='-' + ft, ybox=1, want=want(([0.] * dim, [1.], [2., 2.21] + [0.] * (dim - 1))) if ft[0] == 's' else
                want(([20.] + [0.] * (dim - 1), [1.], [.28205279813802181, .18 / .28205279813802181] + [0.] * (dim - 1))))
        add(eq, 'hou test', 2, {'reservoir water depth': rng.uniform(20, 60)}, eqp, steady=1, L=1000., xmin=-500, xmax=500, ymin=-200, ymax=200, aligned=False, **th)
        a_, h0, et = rng.uniform(.5, 2), rng.uniform(.05, .5), rng.uniform(.1, .6)
        add(eq, 'paraboloid', 2, {'free surface radius': a_, 'water height': h0, 'eta': et}, eqp, exact=1, nojump=1, xmin=-1.5 * a_, xmax=1.5 * a_, ymin=-1.5 * a_, ymax=1.5 * a_, tmax=5., dry=1e-3, tol=1e-5,
            L=2., **th)
        ln = rng.uniform(5000, 12000)
        add(eq, 'paraboloid', 1, {'free surface radius': rng.uniform(2000, 4000), 'water height': rng.uniform(8, 15), 'paraboloid length': ln, 'speed': rng.uniform(1, 4)}, eqp, exact=1, nojump=1, xmin=0.,
            xmax=ln, tmin=10., tmax=2000., h=2., dry=1e-1, tol=1e-5, L=10000., **th)
        dl, t0 = rng.uniform(.005, 2.), rng.uniform(.05, .5)
        dim = rng.choice([1, 2])
        ac = (gr * dl) ** .5
        add(eq, 'ritter dam break', dim, {'left water depth': dl, 'time initial': t0}, eqp, exact=1, nojump=1, xmin=-1.5 * ac, xmax=2. * ac, tmin=.1, tmax=1., h=1e-3 * ac, dry=1e-3 * dl, tol=1e-5, scale=1e-3 * ac,
            L=2., want=want(w2((dl, 0.), -(t0 + .5) * ac * 1.01, .5), w2((0., 0.), (t0 + .5) * 2.02 * ac, .5)), **th)
        nn, sl = rng.uniform(.01, .1), rng.uniform(.01, 1.)
        dim = rng.choice([1, 2])
        add(eq, 'sloping friction', dim, {'ramp slope': sl, 'initial discharge': rng.uniform(.05, 1.)}, dict(eqp, **{B + '/manning friction coefficient': nn}), exact=1, nojump=1, steady=1, flat=1,
            gravity=gr, manning=nn)
        add(eq, 'smooth vortex', 2, {'with bathymetry': 'false', 'reference depth': rng.uniform(.5, 2), 'mach number': rng.uniform(-2, 2), 'beta': rng.uniform(.1, 2.)}, eqp, exact=1, nojump=1, xmin=-4,
            xmax=4, ymin=-4, ymax=4, h=4e-3, tol=2e-6, floor=1e-3, L=4., **th)
        add(eq, 'smooth vortex', 2, {'with bathymetry': 'true', 'reference depth': rng.uniform(.5, 2), 'mach number': 0., 'beta': rng.uniform(.1, 2.)}, eqp, exact=1, nojump=1, steady=1, xmin=-4, xmax=4,
            ymin=-4, ymax=4, h=4e-3, tol=2e-6, floor=1e-3, L=4., tag='-bathymetry', **th)
        dp, am = rng.uniform(.5, 2.), rng.uniform(.05, .3)
        dim = rng.choice([1, 2])
        w = (3. * am / (4. * dp * dp * (am + dp))) ** .5
        add(eq, 'soliton', dim, {'still water depth': dp, 'amplitude': am}, eqp, xmin=-5, xmax=5, L=10.,
            want=want(*[([x] + [0.] * (dim - 1), [t], [dp + am / math.cosh(w * (x - (gr * (am + dp)) ** .5 * t)) ** 2, (gr * (am + dp)) ** .5 * (1. - dp / (dp + am / math.cosh(w * (x - (gr * (am + dp)) ** .5 * t)) ** 2))] + [0.] * (dim - 1))
                        for x, t in ((0., 0.), (1.3, 0.), (2., .4))]), **th)
        ld, cm = rng.uniform(1., 3.), rng.choice([0., 1., .5])
        for dim in (1, 2):
            wb = rng.choice(['true', 'false'])
            add(eq, 'three bumps dam break', dim, {'left water depth': ld, 'right water depth': rng.choice([0., .5]), 'cone magnitude': cm, 'well balancing validation': wb}, eqp, xmin=0, xmax=75, ymin=0, ymax=30, L=75.,
                want=want(w2((ld, 0.), 5., 0.), w2((ld, 0.), 5., 1.) if wb == 'true' else w2((ld, (gr * ld) ** .5), 5., 1.)), **th)
        a, b = (rng.uniform(.1, 3), rng.uniform(-2, 2)), (rng.uniform(.1, 3), rng.uniform(-2, 2))
        dim = 2
        add(eq, 'transient experiments', 2, {'flow state left': _csv(*a), 'flow state right': _csv(*b), 'experimental configuration': rng.choice(['G1', 'G2', 'G3', 'none'])}, eqp, xmin=-1, xmax=6, ymin=-.3, ymax=.3,
            steady=1, L=6., want=want(w2((a[0], a[1] / a[0]), -.2, 0.), w2((b[0], b[1] / b[0]), .5, 0.)), **th)
        f = {'water depth expression': '2 + 0.3*sin(3*x+1) + 0.1*t', 'velocity x expression': '0.3*x - t'}
        row = lambda x, t, extra=(): ([x] + [0.] * len(extra), [t], [2 + .3 * math.sin(3 * x + 1) + .1 * t, .3 * x - t] + list(extra))
        add(eq, 'function', 1, f, eqp, want=want(row(.3, 0.), row(-.2, .7)), **th)
        add(eq, 'function', 2, dict(f, **{'velocity y expression': '0.4 + y'}), eqp, want=want(row(.3, 0., [.4]), row(-.2, .7, [.4])), **th)
        eq = 'scalar_conservation'
        for dim in (1, 2, 3):
            v = rng.uniform(-2, 2)
            add(eq, 'uniform', dim, {'primitive state': '%.12g' % v}, {B + '/flux': 'burgers'}, flat=1, want=want(([.3] + [0.] * (dim - 1), [0.], [v])))
            ex = {1: '0.5 + sin(2*x) - t', 2: '0.5 + sin(2*x) - t + y', 3: '0.5 + sin(2*x) - t'}[dim]
            add(eq, 'function', dim, {'expression': ex}, {B + '/flux': 'burgers'}, want=want(([.3] + [0.] * (dim - 1), [.4], [.1 + math.sin(.6)])))
    return out


# ------------------------------------------------------------ everything, for the sanitizers
EULER_STATES = ['function', 'uniform', 'contrast', 'three state contrast', 'four state contrast', 'radial contrast', 'ramp up', 'shock front', 'smooth wave',
                'isentropic vortex', 'noh', 'becker solution', 'astro jet', 'icf like', 'leblanc', 'rarefaction']
WATER_STATES = ['function', 'uniform', 'contrast', 'flow over bump', 'hou test', 'paraboloid', 'ritter dam break', 'sloping friction', 'smooth vortex',
                'three bumps dam break', 'transient experiments', 'soliton']


def wide_cases(seed, n, steps=3):
    """short runs over all geometries, initial states, equations of state, fluxes, schemes, solvers and outputs"""
    rng = random.Random(seed * 15149 + 7)
    out = []
    count = dict((e, rng.randrange(40)) for e in EQS5)
    for k in range(n):
        eq = EQS5[(k + k // 5) % 5]
        j = count[eq]
        count[eq] += 1
        dims = {'shallow_water': [2, 1, 2], 'scalar_conservation': [2, 1, 3], 'navier_stokes': [2, 3, 2]}.get(eq, [2, 3, 1, 2])
        dim = dims[(j + j // 6) % len(dims)]
        ans = 'cG Q1' if eq == 'navier_stokes' else ['cG Q1', 'dG Q0', 'cG Q2', 'dG Q1', 'cG Q1', 'cG Q3', 'dG Q2', 'dG Q3'][j % 8]
        if dim == 3 and ans[-1] in '23':
            ans = ans[:-1] + '1'
        order = int(ans[-1])
        if eq == 'navier_stokes':
            scheme = rng.choice(['strang erk 33 cn', 'strang ssprk 33 cn', 'strang erk 43 cn', 'imex 11'])
        else:
            scheme = rng.choice(sorted(STAGES))
        p = base(eq, dim, scheme, rng.choice([.3, .7, .9]), rng.choice([0, 1, 2, 2]), rng.choice([0., 1., 4.]), newton=rng.choice([1, 2, 5]))
        p[F + '/indicator/evc factor'] = rng.choice([0, 1, 2.5])
        p[H + '/cfl recovery strategy'] = rng.choice(['none', 'bang bang control'])
        if eq in ('euler', 'navier_stokes'):
            p[F + '/riemann solver/newton max iterations'] = rng.choice([0, 2])
        if eq == 'scalar_conservation':
            # (a flux that vanishes in a direction is excluded elsewhere)
            p.update(SCALAR[rng.choice([s for s in SCALAR if s != 'kpp' or dim < 3])])
            p[F + '/riemann solver/use greedy wavespeed'] = rng.choice(['true', 'false'])
            p[F + '/riemann solver/use averaged entropy'] = rng.choice(['true', 'false'])
            p[F + '/riemann solver/random entropies'] = rng.choice([0, 0, 3])
        if eq == 'shallow_water':
            p[B + '/manning friction coefficient'] = rng.choice([0, .02, .1])
            p[F + '/limiter/limit on kinetic energy'] = rng.choice(['true', 'false'])
            p[F + '/limiter/limit on square velocity'] = rng.choice(['true', 'false'])
        if eq == 'euler_aeos':
            p.update(AEOS[sorted(AEOS)[j % 5]])
            p[B + '/compute strict bounds'] = rng.choice(['true', 'false'])
        if eq == 'navier_stokes':
            p[B + '/mu'] = rng.choice([1e-3, .1])
            p[B + '/lambda'] = rng.choice([0, .01])
            p[B + '/kappa'] = rng.choice([1e-3, .1])
            p[G + '/multigrid velocity'] = rng.choice(['true', 'false'])
            p[G + '/multigrid energy'] = rng.choice(['true', 'false'])
            p[G + '/tolerance linfty norm'] = rng.choice(['true', 'false'])
        # mesh
        geo = 'rectangular domain' if dim == 1 or j % 2 == 0 else rng.choice(['disk'] if eq == 'scalar_conservation' else
                                                                             ['disk', 'cylinder', 'wall', 'step', 'annulus', 'airfoil'][:6 if eq != 'euler_aeos' else 5] if dim == 2 else ['disk', 'cylinder'])
        adapt = dim > 1 and ans == 'cG Q1' and rng.random() < .35
        bcs = ['dirichlet', 'do nothing', 'dirichlet momentum', 'slip', 'no slip', 'dynamic', 'periodic']
        if eq == 'scalar_conservation':
            bcs = ['dirichlet', 'do nothing', 'periodic']
        elif eq == 'navier_stokes':
            bcs = ['dirichlet', 'slip', 'no slip', 'periodic']
        elif eq == 'euler_aeos':
            bcs.remove('dynamic')  # traps by design
        if adapt:
            bcs = bcs[:-1]
        ref = {1: 4, 2: 3 if order < 2 else 2, 3: 1}[dim]
        if geo == 'rectangular domain':
            names = [('left', 'right'), ('bottom', 'top'), ('back', 'front')][:dim]
            bb = {}
            for a, b in names:
                q = rng.choice(bcs)
                bb[a], bb[b] = (q, q) if q == 'periodic' else (q, rng.choice([x for x in bcs if x != 'periodic']))
            per = 'periodic' in bb.values()
            p.update(box(dim, 'dirichlet', max(ref, 2) if per else ref, None, [rng.choice([1, 2]) if not (dim == 3 and per) else 1 for _ in range(dim)], ans, bb))
            L = 1.
        else:
            L = 2.
            if geo in ('step', 'annulus', 'airfoil', 'wall', 'cylinder') and order > 1:
                ans, order = ans[:-1] + '1', 1
            p[C + '/finite element ansatz'] = ans
            p[C + '/geometry'] = geo
            p[C + '/mesh refinement'] = {'disk': 2 if dim == 2 else 0, 'cylinder': 1 if dim == 2 else 0, 'wall': 2 if dim == 2 else 0, 'step': 0, 'annulus': 0, 'airfoil': 0}[geo]
            p[C + '/mesh writeout'] = 'false'
            if geo == 'disk':
                p[C + '/disk/boundary condition'] = rng.choice(['dirichlet', 'slip', 'do nothing'] if eq != 'scalar_conservation' else ['dirichlet', 'do nothing'])
                p[C + '/disk/balanced'] = rng.choice(['true', 'false'])
            if geo == 'airfoil':
                p[C + '/airfoil/anisotropic pre refinement airfoil'] = 0
                p[C + '/airfoil/anisotropic pre refinement trailing'] = rng.choice([0, 1])
                p[C + '/airfoil/airfoil type'] = rng.choice(['NASA SC(2) 0714', 'NACA 0012', 'NACA 2412', 'ONERA OAT15a'])
        if geo == 'rectangular domain' and not adapt:
            p[C + '/mesh distortion'] = rng.choice([0, 0, .1])
        # data
        states = {'shallow_water': WATER_STATES, 'scalar_conservation': ['function', 'function', 'uniform']}.get(eq, EULER_STATES)
        st = states[(j * 5 + j // 3) % len(states)]
        if dim == 1 and st in ('astro jet', 'isentropic vortex', 'four state contrast', 'smooth vortex'):
            st = 'contrast'
        if st == 'function':
            p.update(smooth_ic(eq, dim, rng))
            if rng.random() < .3:
                p[E + '/perturbation'] = rng.choice([.01, .1])
        else:
            p[E + '/configuration'] = st
            p[E + '/position'] = _csv(*[rng.choice([0., .5 * L]) for _ in range(dim)])
            d = [rng.choice([-1., 1., .5]) for _ in range(dim)]
            if rng.random() < .5:
                d = [1.] + [0.] * (dim - 1)
            p[E + '/direction'] = _csv(*d)
        # schedule and output
        p[TL + 'basename'] = 'run'
        p[TL + 'terminal update interval'] = 0
        T = rng.choice([1e-9, .003, .01, .02]) if steps > 1 else 1e-9
        if geo in ('step', 'airfoil', 'annulus', 'wall', 'cylinder') or eq in ('navier_stokes',) and dim == 3:
            T = 1e-9
        p[TL + 'final time'] = T
        p[TL + 'enforce final time'] = rng.choice(['true', 'false']) if T > 1e-3 else 'false'
        p[TL + 'timer granularity'] = T * rng.choice([1., .5, 3.])
        for f in ('enable output full', 'enable compute quantities', 'enable compute error', 'enable checkpointing', 'enable output levelsets'):
            p[TL + f] = rng.choice(['true', 'true', 'false'])
        if dim == 1:
            p[TL + 'enable checkpointing'] = 'false'
        xs = ['x', 'y', 'z'][:dim]
        p[K + '/interior manifolds'] = 'a : %s : time_averaged space_averaged instantaneous, b : %s : instantaneous' % (rng.choice(xs) + '-0.5', '0*x' if rng.random() < .5 else 'x+100')
        p[K + '/boundary manifolds'] = 'c : %s : time_averaged space_averaged instantaneous' % rng.choice(['x', '0*x', 'x-1', 'x+100'])
        p[K + '/clear statistics on writeout'] = rng.choice(['true', 'false'])
        p[J + '/use mpi io'] = rng.choice(['true', 'false'])
        p[J + '/schlieren recompute bounds'] = rng.choice(['true', 'false'])
        p[J + '/manifolds'] = rng.choice(['', 'x-0.4', 'x-0.5, x-0.25'])
        comp = {'shallow_water': ['h', 'm_1' if dim > 1 else 'm'], 'scalar_conservation': ['u']}.get(eq, ['rho', 'm_1' if dim > 1 else 'm', 'E'])
        p[J + '/schlieren quantities'] = ', '.join(rng.sample(comp, rng.randint(0, len(comp))))
        if dim > 1:
            vect = {'shallow_water': ['h', 'm_1', 'v_1'], 'scalar_conservation': []}.get(eq, ['rho', 'm_1', 'v_1'])
            p[J + '/vorticity quantities'] = ', '.join(rng.sample(vect, rng.randint(0, len(vect))))
        if adapt:
            p[TL + 'enable mesh adaptivity'] = 'true'
            p[I + '/adaptation strategy'] = rng.choice(['random adaptation', 'random adaptation', 'global refinement'] if eq != 'navier_stokes' else ['random adaptation'])
            p[I + '/marking strategies/fixed number: refinement fraction'] = rng.choice([.3, .1])
            p[I + '/marking strategies/fixed number: coarsening fraction'] = rng.choice([0., .3])
            p[I + '/time point selection strategies/adaptation timepoints'] = rng.choice(['0', '%g' % (.4 * T), '0, %g' % (.6 * T)])
        ranks = 1 if dim == 1 else rng.choice([1, 1, 2, 3])
        out.append((eq, Case('w%03d-%s-%dd-%s-%s-%s-np%d%s' % (k, eq, dim, ans.replace(' ', ''), geo.replace(' ', '_'), st.replace(' ', '_'), ranks, '-adapt' if adapt else ''), p,
                             ranks=ranks, dim=dim, eq=eq)))
    return out


def team_cases(seed, n, m):
    """C12: runs for the race detector and the function that makes each of them"""
    import e2e
    pick = lambda cs, k: [c for _, c in cs][:k]
    # (the race detector slows these down to minutes)
    small = [c for _, c in wide_cases(seed + 500, n + n // 3) if not any(w in c.name for w in ('-step-', '-cylinder-'))][:n]
    return [(small, e2e.plain_case), (pick(adapt_cases(seed + 500, m), m), e2e.adapt_case),
            (pick(quantity_cases(seed + 500, m), m), e2e.quantity_case), (pick(resume_cases(seed + 500, m), m), e2e.resume_case)]


def memory_cases(seed, n, m):
    """C11: runs for the sanitizers, the function that makes each of them, and whether it compares"""
    import e2e
    pick = lambda cs, k: [c for _, c in cs][:k]
    return [(pick(wide_cases(seed + 700, n), n), e2e.memory_case, True), (pick(adapt_cases(seed + 700, m), m), e2e.adapt_case, False),
            (pick(quantity_cases(seed + 700, m), m), e2e.quantity_case, False), (pick(resume_cases(seed + 700, m), m), e2e.resume_case, False),
            (random.Random(seed).sample(refuse_cases(seed + 700, 12 * m), 4 * m), e2e.refuse_case, False)]
