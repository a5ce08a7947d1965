"""Mobility and resistance matrices are symmetric and frame-indifferent."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import lub

BOUNDS = ('two spheres of any (lubrication: tabulated) radii, two spheres plus one dumbbell; positions any reals in [-8,8]^3 and any common '
          'translation in [-50,50]^3; all particle renumberings; axis permutations, reflections and 3-4-5 rotations about each axis; '
          'periodic: cubic box, fixed positions, any viscosity and any common translation of all particles')
OUTSIDE = 'force-force, torque-torque and stresslet-strain lubrication between unequal spheres under renumbering (C05 with C06); general rotation angles; positions in the periodic configurations are fixed up to translation'
ASSUMPTIONS = ['table interpolants are arbitrary functions of the scaled separation']

ROT = {
    'cycle': [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    'swap': [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
    'reflect-x': [[-1, 0, 0], [0, 1, 0], [0, 0, 1]],
    'reflect-z': [[1, 0, 0], [0, 1, 0], [0, 0, -1]],
    'turn-z': [[Fr(3, 5), Fr(-4, 5), 0], [Fr(4, 5), Fr(3, 5), 0], [0, 0, 1]],
    'turn-x': [[1, 0, 0], [0, Fr(3, 5), Fr(-4, 5)], [0, Fr(4, 5), Fr(3, 5)]],
    'turn-y': [[Fr(3, 5), 0, Fr(4, 5)], [0, 1, 0], [Fr(-4, 5), 0, Fr(3, 5)]],
}


def det(Q):
    return (Q[0][0] * (Q[1][1] * Q[2][2] - Q[1][2] * Q[2][1]) - Q[0][1] * (Q[1][0] * Q[2][2] - Q[1][2] * Q[2][0])
            + Q[0][2] * (Q[1][0] * Q[2][1] - Q[1][1] * Q[2][0]))


def change(api, Q, n, m):
    """Matrix taking packed force vectors to those in the turned frame."""
    B = lub.basis(api)
    q = [[api.const(x) for x in r] for r in Q]
    N = 11 * n + 6 * m
    T = [[0] * N for _ in range(N)]
    dt = det(Q)

    def put(o, f):
        for i in range(3):
            for j in range(3):
                T[o + i][o + j] = q[i][j] * f
    for p in range(n):
        put(3 * p, 1)
        put(3 * n + 3 * p, dt)
        for u in range(5):
            for v in range(5):
                t = 0
                for i in range(3):
                    for j in range(3):
                        for k in range(3):
                            for l in range(3):
                                t = t + B[u][i][j] * q[i][k] * B[v][k][l] * q[j][l]
                T[6 * n + 5 * p + u][6 * n + 5 * p + v] = t
    for p in range(2 * m):
        put(11 * n + 3 * p, 1)
    return T


def turn(T, M, N):
    nz = [[(j, T[i][j]) for j in range(N) if not (isinstance(T[i][j], (int, float)) and T[i][j] == 0)] for i in range(N)]
    X = [[sum((c * M[k, j] for k, c in nz[i]), 0) for j in range(N)] for i in range(N)]
    return [[sum((X[i][k] * c for k, c in nz[j]), 0) for j in range(N)] for i in range(N)]


def scene(api, kind, lams=None):
    """(sizes, positions, bead sizes, centres, vectors), all distances kept
    away from zero."""
    n, m = int(kind[0]), int(kind[2])
    if lams:
        a = api.real('a', 0.5, 2)
        sz = [a * api.const(l) for l in lams]
    else:
        sz = [api.real('a%d' % i, 0.1, 3) for i in range(n + m)]
    w = 8 * max([1] + list(lams or []))
    pos = [[api.const(0)] * 3] + [vec3(api, 'x%d' % i, -w, w) for i in range(1, n)]
    p = vecs(api, 'p', m, -w, w)
    q = vecs(api, 'q', m, -w, w)
    if not n:
        p[0] = [api.const(0)] * 3
        pos = []
    al, als = pos + p + q, sz[:n] + sz[n:] + sz[n:]
    for i in range(len(al)):
        for j in range(i):
            d = norm(api, sub(al[i], al[j]))
            api.bound(d, 0.05, 60 * max([1] + list(lams or [])))
            if not lams:
                api.assume(2 * d > api.const(Fr(2001, 1000)) * (als[i] + als[j]))
    if not lams:
        for i in range(n + m):
            for j in range(i):
                api.assume(sz[i] != sz[j])
    h = api.const(Fr(1, 2))
    return (n, m, sz[:n], pos, sz[n:], [[h * (u + v) for u, v in zip(p[i], q[i])] for i in range(m)],
            [sub(q[i], p[i]) for i in range(m)])


def engine(api, which):
    ld = api.loader()
    mu = api.real('mu', 0.1, 10)
    if which == 'far':
        f = ld.load('functions.generate_Minfinity').generate_Minfinity
        return lambda pd: f(pd, 0, frameno=0, mu=mu)[0]
    lub.Tables(api, ld)
    f = ld.load('functions.generate_R2Bexact').generate_R2Bexact
    return lambda pd: f(pd, 0, cutoff_factor=2, frameno=0, mu=mu)[0]


def same(api, tag, X, Y, N, but=lambda i, j: False):
    for i in range(N):
        for j in range(N):
            if not but(i, j):
                api.eq('%s[%d,%d]' % (tag, i, j), X[i][j], Y[i][j])


def frame(api, which, kind, how, lams=None):
    G = engine(api, which)
    n, m, sz, pos, bs, c, dx = scene(api, kind, lams)
    N = 11 * n + 6 * m
    M = G(posdata(api, sz, pos, bs, c, dx))
    if how == 'symmetric':
        same(api, 'transpose', M, M.T, N)
    elif how == 'translate':
        t = vec3(api, 't', -50, 50)
        K = G(posdata(api, sz, [add(x, t) for x in pos], bs, [add(x, t) for x in c], dx))
        same(api, 'moved', K, M, N)
    elif how in ROT:
        Q = [[api.const(x) for x in r] for r in ROT[how]]
        K = G(posdata(api, sz, [matvec(Q, x) for x in pos], bs, [matvec(Q, x) for x in c], [matvec(Q, x) for x in dx]))
        same(api, how, K, turn(change(api, ROT[how], n, m), M, N), N)
    elif how == 'renumber':
        K = G(posdata(api, sz[::-1], pos[::-1], bs[::-1], c[::-1], dx[::-1]))
        idx = ([3 * (n - 1 - p) + k for p in range(n) for k in range(3)]
               + [3 * n + 3 * (n - 1 - p) + k for p in range(n) for k in range(3)]
               + [6 * n + 5 * (n - 1 - p) + k for p in range(n) for k in range(5)]
               + [11 * n + 3 * (m - 1 - p) + k for p in range(m) for k in range(3)]
               + [11 * n + 3 * m + 3 * (m - 1 - p) + k for p in range(m) for k in range(3)])
        own = [(0, p) for p in range(n) for _ in range(3)] + [(1, p) for p in range(n) for _ in range(3)] + [
            (2, p) for p in range(n) for _ in range(5)]

        def tables(i, j):
            """Couplings of like with like between unequal spheres: read from
            the two tables, which agree to their own accuracy (C06)."""
            return own[i][0] == own[j][0] and own[i][1] != own[j][1]
        same(api, 'renumbered', K, [[M[i, j] for j in idx] for i in idx], N,
             tables if which == 'near' and len(set(lams)) > 1 else lambda i, j: False)
    else:
        # turning each dumbbell round end for end
        K = G(posdata(api, sz, pos, bs, c, [scale(-1, x) for x in dx]))
        o = 11 * n + 3 * m
        same(api, 'reversed', K, [[M[i, j] * ((-1 if i >= o else 1) * (-1 if j >= o else 1)) for j in range(N)] for i in range(N)], N)


def periodic(api, which, kind, how, shear=False):
    ld = api.loader('p', settings={'how_far_to_reproduce_gridpoints': 1})
    mu = api.real('mu', 0.1, 10)
    Z = api.const
    V = lambda *x: [Z(Fr(y)) for y in x]
    lam = 1
    pos = [V('1/2', '1/4', '-3/4'), V('-13/10', '3/2', '1/2')]
    if kind == '2-0':
        sz, bs, c, dx, n, m = V(1, 1), [], [], [], 2, 0
        if which == 'far':
            sz = V(1, '1/2')
    else:
        sz, bs, c, dx, n, m = V(1), V(1), [V(-2, 2, '3/2')], [V('9/4', '1/2', '-1/4')], 1, 1
        pos = pos[:1]
    bl, tr = api.arr(V(-4, -4, -4)), api.arr(V(4, 4, 4))
    e = Fr(1, 8) if shear else Fr(0)
    Ot = api.arr(V(0, e, 0))
    Et = api.arr([V(0, 0, e), V(0, 0, 0), V(e, 0, 0)])
    if which == 'far':
        f = ld.load('functions.generate_Minfinity_periodic').generate_Minfinity_periodic
        G = lambda pd: f(pd, bl, tr, 0, frameno=0, mu=mu, Ot_infinity=Ot, Et_infinity=Et)[0]
    else:
        lub.Tables(api, ld)
        f = ld.load('functions.generate_R2Bexact').generate_R2Bexact
        G = lambda pd: f(pd, 0, cutoff_factor=2, frameno=0, mu=mu, box_bottom_left=bl, box_top_right=tr,
                         Ot_infinity=Ot, Et_infinity=Et)[0]
    N = 11 * n + 6 * m
    M = G(posdata(api, sz, pos, bs, c, dx))
    if how == 'symmetric':
        same(api, 'transpose', M, M.T, N)
    elif how == 'translate':
        t = vec3(api, 't', -3, 3)
        same(api, 'moved', G(posdata(api, sz, [add(x, t) for x in pos], bs, [add(x, t) for x in c], dx)), M, N)
    elif how in ROT:
        Q = [[Z(x) for x in r] for r in ROT[how]]
        K = G(posdata(api, sz, [matvec(Q, x) for x in pos], bs, [matvec(Q, x) for x in c], [matvec(Q, x) for x in dx]))
        same(api, how, K, turn(change(api, ROT[how], n, m), M, N), N)
    elif how == 'renumber':
        K = G(posdata(api, sz[::-1], pos[::-1]))
        idx = ([3 * (n - 1 - p) + k for p in range(n) for k in range(3)]
               + [3 * n + 3 * (n - 1 - p) + k for p in range(n) for k in range(3)]
               + [6 * n + 5 * (n - 1 - p) + k for p in range(n) for k in range(5)])
        same(api, 'renumbered', K, [[M[i, j] for j in idx] for i in idx], N)
    else:
        K = G(posdata(api, sz, pos, bs, c, [scale(-1, x) for x in dx]))
        o = 11 * n + 3 * m
        same(api, 'reversed', K, [[M[i, j] * ((-1 if i >= o else 1) * (-1 if j >= o else 1)) for j in range(N)] for i in range(N)], N)


T = ('thorough',)
one, ten = Fr(1), Fr(10)
HARNESSES = []
for how in ['symmetric', 'translate', 'renumber'] + list(ROT):
    HARNESSES.append(H('far-2-0-' + how, frame, which='far', kind='2-0', how=how))
    HARNESSES.append(H('near-2-0-' + how, frame, which='near', kind='2-0', how=how, lams=[one, one if how == 'renumber' else ten]))
for how in ['symmetric', 'translate', 'reverse'] + list(ROT):
    t = {} if how in ('symmetric', 'translate', 'reverse', 'cycle', 'reflect-x') else {'tiers': T}
    HARNESSES.append(H('far-1-1-' + how, frame, which='far', kind='1-1', how=how, **t))
    HARNESSES.append(H('near-1-1-' + how, frame, which='near', kind='1-1', how=how, lams=[one, one], **t))
HARNESSES.append(H('near-2-0-renumber-unequal', frame, which='near', kind='2-0', how='renumber', lams=[one, ten]))
HARNESSES.append(H('far-0-2-renumber', frame, which='far', kind='0-2', how='renumber'))
HARNESSES.append(H('far-2-1-renumber', frame, which='far', kind='2-1', how='renumber'))
for how in ['symmetric', 'translate', 'renumber', 'cycle', 'swap', 'reflect-x', 'reflect-z']:
    for w in ('far', 'near'):
        HARNESSES.append(H('periodic-%s-2-0-%s' % (w, how), periodic, which=w, kind='2-0', how=how))
for how in ['symmetric', 'translate', 'reverse', 'cycle']:
    for w in ('far', 'near'):
        HARNESSES.append(H('periodic-%s-1-1-%s' % (w, how), periodic, which=w, kind='1-1', how=how))
for how in ['symmetric', 'translate', 'renumber']:
    HARNESSES.append(H('periodic-far-2-0-%s-sheared' % how, periodic, which='far', kind='2-0', how=how, shear=True))
