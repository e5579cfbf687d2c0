"""The executables the checks are made of."""
import os
import vbuild

V = vbuild.VSRC


def sim(b, eq, variant='opt', tus=('march',), name=None):
    """solver stack driver of one equation; tus: groups of monitors linked in"""
    if isinstance(tus, str):
        tus = tuple(tus.split('+'))
    defs = ['VEQ_' + eq]
    objs = b.common(variant) + b.equation(variant, eq)
    mdefs = list(defs)
    for t in tus:
        objs.append(b.obj(variant, 'drv_%s_%s' % (eq, t), os.path.join(V, 'op_%s.cc' % t), eq=eq, defs=defs))
        mdefs.append('SIM_' + t.upper())
    nm = name or 'sim_%s_%s' % (eq, '_'.join(tus))
    objs.append(b.obj(variant, 'drvmain_' + nm, os.path.join(V, 'sim_main.cc'), eq=eq, defs=mdefs))
    return b.exe(variant, nm, objs)


def abi(b, variant):
    return [b.obj('opt', 'clang_abi', os.path.join(V, 'clang_abi.cc'), pch=False)] if variant == 'asan' else []


def full(b, variant='opt'):
    return b.full(variant, abi(b, variant))


def kern(b, variant='opt'):
    """numerical kernels on their own"""
    return b.exe(variant, 'kern', b.common(variant) + abi(b, variant) + [
        b.obj(variant, 'kern', os.path.join(V, 'kern.cc'), defs=['KERN_WIDE'] if variant == 'simd' else [])])


def mesh(b, variant='opt'):
    """mesh operators and distributed containers on their own"""
    return b.exe(variant, 'mesh', b.common(variant) + abi(b, variant) + [b.obj(variant, 'mesh', os.path.join(V, 'mesh.cc'))])


def team(b, variant):
    """thread team seen by the race detector, and what an exchange reads"""
    return [b.obj('opt', 'gomp_team', os.path.join(V, 'gomp_team.cc'), pch=False),
            b.obj(variant, 'exchange', os.path.join(V, 'exchange.cc'))]


def race(b, variant='tsan'):
    """initialisation on demand and exchange trigger on their own"""
    return b.exe(variant, 'race', [b.obj(variant, 'race', os.path.join(V, 'race.cc'), pch=False)] + team(b, variant))


def tfull(b, variant='tsan'):
    """the executable on that team"""
    return b.full(variant, team(b, variant))
