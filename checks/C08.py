"""Viscosity and length scale enter every matrix with the right powers."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import lub

BOUNDS = ('unbounded: two spheres and sphere plus dumbbell at any positions in [-8,8]^3 (lubrication: tabulated radius ratios), '
          'viscosity factor and length factor any reals in [1/4,4], viscosity in [1/10,10]; periodic: a fixed cubic box with any '
          'viscosity, viscosity factor and length factor, unsheared and sheared')
OUTSIDE = 'positions inside the periodic box are fixed; more particles'
ASSUMPTIONS = ['table interpolants are arbitrary functions of the scaled separation']


def weights(n, m):
    """Powers of length carried by each force-like component."""
    return [0] * (3 * n) + [1] * (8 * n) + [0] * (6 * m)


def scaled(pd, k):
    return tuple(x if i == 2 else x * k for i, x in enumerate(pd))


def cmp(api, tag, big, small, n, m, kmu, klen, sign):
    """sign -1: mobility, +1: resistance."""
    w = weights(n, m)
    N = len(w)
    api.holds(tag + ' shape', tuple(big.shape) == (N, N))
    for i in range(N):
        for j in range(N):
            f = kmu * klen ** (1 + w[i] + w[j])
            if sign > 0:
                api.eq('%s[%d,%d]' % (tag, i, j), big[i, j], small[i, j] * f)
            else:
                api.eq('%s[%d,%d]' % (tag, i, j), big[i, j] * f, small[i, j])


def far(api, kind):
    ld = api.loader()
    mod = ld.load('functions.generate_Minfinity')
    mu, k, q = api.real('mu', 0.1, 10), api.real('k', 0.25, 4), api.real('q', 0.25, 4)
    a, b = api.real('a', 0.1, 3), api.real('b', 0.1, 3)
    p = vec3(api, 'p', -8, 8)
    c = api.const(Fr(2001, 1000))
    api.bound(norm(api, p), 0.05, 20)
    z = [api.const(0)] * 3
    if kind == 'pair':
        api.assume(a != b)
        if api.branch(2 * norm(api, p) > c * (a + b)):
            pass
        pd = posdata(api, [a, b], [z, p])
        n, m = 2, 0
    else:
        q2 = vec3(api, 'p2', -8, 8)
        h = api.const(Fr(1, 2))
        for u, s in ((p, a + b), (q2, a + b), (sub(p, q2), 2 * b)):
            api.bound(norm(api, u), 0.05, 30)
            api.assume(2 * norm(api, u) > c * s)
        p, d = [h * (x + y) for x, y in zip(p, q2)], sub(q2, p)
        pd = posdata(api, [a], [z], [b], [p], [d])
        n, m = 1, 1
    M0 = mod.generate_Minfinity(pd, 0, frameno=0, mu=mu)[0]
    cmp(api, 'viscosity', mod.generate_Minfinity(pd, 0, frameno=0, mu=q * mu)[0], M0, n, m, q, api.const(1), -1)
    cmp(api, 'length', mod.generate_Minfinity(scaled(pd, k), 0, frameno=0, mu=mu)[0], M0, n, m, api.const(1), k, -1)


def near(api, kind, lam):
    ld = api.loader()
    lub.Tables(api, ld)
    mod = ld.load('functions.generate_R2Bexact')
    mu, k, q = api.real('mu', 0.1, 10), api.real('k', 0.25, 4), api.real('q', 0.25, 4)
    a = api.real('a', 0.5, 2)
    b = a * api.const(lam)
    cf = api.real('cutoff', 1.1, 2.2)
    w = 8 * max(1, lam)
    p = vec3(api, 'p', -w, w)
    z = [api.const(0)] * 3
    api.bound(norm(api, p), 0.05, 60 * max(1, lam))
    if kind == 'pair':
        pd, n, m = posdata(api, [a, b], [z, p]), 2, 0
    else:
        q2 = vec3(api, 'p2', -w, w)
        h = api.const(Fr(1, 2))
        for u in (p, q2, sub(p, q2)):
            api.bound(norm(api, u), 0.05, 60 * max(1, lam))
        p, d = [h * (x + y) for x, y in zip(p, q2)], sub(q2, p)
        pd, n, m = posdata(api, [a], [z], [b], [p], [d]), 1, 1
    G = lambda x, v: mod.generate_R2Bexact(x, 0, cutoff_factor=cf, frameno=0, mu=v)[0]
    R0 = G(pd, mu)
    cmp(api, 'viscosity', G(pd, q * mu), R0, n, m, q, api.const(1), 1)
    cmp(api, 'length', G(scaled(pd, k), mu), R0, n, m, api.const(1), k, 1)


def periodic(api, kind, which, shear, far_field):
    ld = api.loader('p', settings={'how_far_to_reproduce_gridpoints': 1})
    lub.Tables(api, ld)
    mu, k, q = api.real('mu', 0.1, 10), api.real('k', 0.25, 4), api.real('q', 0.25, 4)
    Z = api.const
    pos = [[Z(Fr(1, 2)), Z(Fr(1, 4)), Z(Fr(-3, 4))], [Z(Fr(-13, 10)), Z(Fr(3, 2)), Z(Fr(1, 2))]]
    if kind == '2-0':
        pd, n, m = posdata(api, [Z(1), Z(1)], pos), 2, 0
    else:
        pd, n, m = posdata(api, [Z(1)], pos[:1], [Z(1)], [[Z(-3), Z(3), Z(Fr(3, 2))]], [[Z(Fr(9, 4)), Z(Fr(1, 2)), Z(Fr(-1, 4))]]), 1, 1
    bl, tr = api.arr([Z(-4)] * 3), api.arr([Z(4)] * 3)
    e = Fr(1, 8) if shear else Fr(0)
    Ot = api.arr([Z(0), Z(e), Z(0)])
    Et = api.arr([[Z(0), Z(0), Z(e)], [Z(0)] * 3, [Z(e), Z(0), Z(0)]])
    if far_field:
        f = ld.load('functions.generate_Minfinity_periodic').generate_Minfinity_periodic
        G = lambda x, l, r, v: f(x, l, r, 0, frameno=0, mu=v, Ot_infinity=Ot, Et_infinity=Et)[0]
        s = -1
    else:
        f = ld.load('functions.generate_R2Bexact').generate_R2Bexact
        cf = api.real('cutoff', 1.1, 2.2)
        G = lambda x, l, r, v: f(x, 0, cutoff_factor=cf, frameno=0, mu=v, box_bottom_left=l, box_top_right=r,
                                 Ot_infinity=Ot, Et_infinity=Et)[0]
        s = 1
    M0 = G(pd, bl, tr, mu)
    if which == 'viscosity':
        cmp(api, which, G(pd, bl, tr, q * mu), M0, n, m, q, api.const(1), s)
    else:
        cmp(api, which, G(scaled(pd, k), bl * k, tr * k, mu), M0, n, m, api.const(1), k, s)


T = ('thorough',)
HARNESSES = [H('far-pair', far, kind='pair'), H('far-dumbbell', far, kind='dumbbell'),
             H('near-pair', near, kind='pair', lam=Fr(1)), H('near-pair-10', near, kind='pair', lam=Fr(10)),
             H('near-dumbbell', near, kind='dumbbell', lam=Fr(1, 10))]
for kind in ('2-0', '1-1'):
    for sh in (False, True):
        for which in ('viscosity', 'length'):
            for ff in (True, False):
                HARNESSES.append(H('periodic-%s-%s-%s%s' % ('far' if ff else 'near', kind, which, '-sheared' if sh else ''),
                                   periodic, kind=kind, which=which, shear=sh, far_field=ff))
