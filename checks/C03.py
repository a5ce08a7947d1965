"""Unbounded far-field mobility equals the derivatives of the Oseen tensor."""

from fractions import Fraction as Fr
import numpy as np
from common import *

BOUNDS = ('two spheres: separation components in [-8,8], radii in [1/10,3], viscosity in [1/10,10], every separation from '
          '1/100 upwards (inside the clamp distance included); three spheres with symbolic separations for pair additivity')
OUTSIDE = 'coincident spheres; radii outside [0.1,3]'
ASSUMPTIONS = ['the reference tensors are built by symbolic differentiation of delta/s + rr/s^3, not taken from the code']


def free_space(v):
    """Tensors of the pair mobility (times 8 pi mu), split by their degree of
    homogeneity in r: list of (degree, coefficient key, tensors)."""
    import sym
    x, y, z = v['x'], v['y'], v['z']
    X = [x, y, z]
    s = sym.sqrt(x * x + y * y + z * z)
    D = lambda f, i: reduce_s(sym.diff(f, X[i]))
    G = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            G[i, j] = (1 / s if i == j else 0) + X[i] * X[j] / s ** 3
    lap = lambda f: D(D(f, 0), 0) + D(D(f, 1), 1) + D(D(f, 2), 2)

    def reduce_s(f):
        return f
    DG = np.empty((3, 3, 3), dtype=object)       # d_k G_ij
    DDG = np.empty((3, 3, 3, 3), dtype=object)   # d_l d_k G_ij
    LG = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(i, 3):
            for k in range(3):
                DG[i, j, k] = DG[j, i, k] = D(G[i, j], k)
            for k in range(3):
                for l in range(k, 3):
                    DDG[i, j, k, l] = DDG[i, j, l, k] = D(DG[i, j, k], l)
                    DDG[j, i, k, l] = DDG[j, i, l, k] = DDG[i, j, k, l]
            LG[i, j] = LG[j, i] = DDG[i, j, 0, 0] + DDG[i, j, 1, 1] + DDG[i, j, 2, 2]
    DLG = np.empty((3, 3, 3), dtype=object)
    DDLG = np.empty((3, 3, 3, 3), dtype=object)
    for i in range(3):
        for j in range(i, 3):
            for k in range(3):
                DLG[i, j, k] = DLG[j, i, k] = D(LG[i, j], k)
            for k in range(3):
                for l in range(k, 3):
                    DDLG[i, j, k, l] = DDLG[i, j, l, k] = D(DLG[i, j, k], l)
                    DDLG[j, i, k, l] = DDLG[j, i, l, k] = DDLG[i, j, k, l]
    return G, LG, DG, DLG, DDG, DDLG


def pair_blocks(G, LG, DG, DLG, DDG, DDLG, a1, a2, c, lam, B):
    """11x11 mobility block of particle 1 (rows) and 2 (columns), r = x1-x2
    scaled by lam; c = 1/(8 pi mu)."""
    i1, i2, i3, i4, i5 = lam ** -1, lam ** -3, lam ** -2, lam ** -4, lam ** -5
    M = np.zeros((11, 11), dtype=object)
    g6 = (a1 * a1 + a2 * a2) / 6
    A = lambda i, j: G[i, j] * i1 + LG[i, j] * i2 * g6
    for i in range(3):
        for j in range(3):
            M[i, j] = c * A(i, j)
    # gradient of the flow of a force on 2 / velocity of 1 due to dipoles on 2
    half = Fr(1, 2)
    for i in range(3):
        for l in range(3):
            # velocity of 1 from torque on 2
            t = u = 0
            for m in range(3):
                for n in range(3):
                    e = lev(l, m, n)
                    if e:
                        t = t - half * e * (DG[i, n, m] * i3 + DLG[i, n, m] * i4 * a1 * a1 / 6)
                        # rotation of 1 (index l) from force on 2 (index i)
                        u = u + half * e * (DG[n, i, m] * i3 + DLG[n, i, m] * i4 * a2 * a2 / 6)
            M[i, 3 + l] = c * t
            M[3 + l, i] = c * u
    V = np.empty((3, 3, 3), dtype=object)    # velocity i from stresslet jk
    W = np.empty((3, 3, 3), dtype=object)    # strain jk from force i
    for i in range(3):
        for j in range(3):
            for k in range(j, 3):
                d = (DG[i, j, k] + DG[i, k, j]) * half
                ld = (DLG[i, j, k] + DLG[i, k, j]) * half
                V[i, j, k] = V[i, k, j] = -(d * i3 + ld * i4 * (a1 * a1 / 6 + a2 * a2 / 10))
                W[i, j, k] = W[i, k, j] = d * i3 + ld * i4 * (a2 * a2 / 6 + a1 * a1 / 10)
    for i in range(3):
        M[i, 6:] = c * pack_rows(V[i], B)
        M[6:, i] = c * pack_rows(W[i], B)
    # rotation-torque, rotation-stresslet, strain-torque
    for i in range(3):
        for l in range(3):
            t = 0
            for p in range(3):
                for q in range(3):
                    e = lev(i, p, q)
                    if not e:
                        continue
                    for m in range(3):
                        for n in range(3):
                            f = lev(l, m, n)
                            if f:
                                t = t - Fr(1, 4) * e * f * DDG[q, n, m, p]
            M[3 + i, 3 + l] = c * t * i2
    for i in range(3):
        Q = np.empty((3, 3), dtype=object)
        Z = np.empty((3, 3), dtype=object)
        for j in range(3):
            for k in range(j, 3):
                t = u = 0
                for p in range(3):
                    for q in range(3):
                        e = lev(i, p, q)
                        if e:
                            # rotation i of 1 from stresslet jk on 2
                            t = t - Fr(1, 4) * e * ((DDG[q, j, k, p] + DDG[q, k, j, p]) * i2
                                                    + (DDLG[q, j, k, p] + DDLG[q, k, j, p]) * i5 * a2 * a2 / 10)
                            # strain jk of 1 from torque i on 2
                            u = u - Fr(1, 4) * e * ((DDG[j, q, p, k] + DDG[k, q, p, j]) * i2
                                                    + (DDLG[j, q, p, k] + DDLG[k, q, p, j]) * i5 * a1 * a1 / 10)
                Q[j, k] = Q[k, j] = t
                Z[j, k] = Z[k, j] = u
        M[3 + i, 6:] = c * pack_rows(Q, B)
        M[6:, 3 + i] = c * pack_rows(Z, B)
    g10 = (a1 * a1 + a2 * a2) / 10
    X4 = np.empty((3, 3, 3, 3), dtype=object)
    for i in range(3):
        for j in range(i, 3):
            for k in range(3):
                for l in range(k, 3):
                    t = 0
                    for (p, q) in ((i, j), (j, i)):
                        for (m, n) in ((k, l), (l, k)):
                            t = t - Fr(1, 4) * (DDG[p, m, n, q] * i2 + DDLG[p, m, n, q] * i5 * g10)
                    X4[i, j, k, l] = X4[j, i, k, l] = X4[i, j, l, k] = X4[j, i, l, k] = t
    rows = pack_rows(X4, B)                    # (5,3,3)
    for j in range(5):
        M[6 + j, 6:] = c * pack_rows(rows[j], B)
    return M


def self_block(a, mu, pi, B):
    M = np.zeros((11, 11), dtype=object)
    for i in range(3):
        M[i, i] = 1 / (6 * pi * mu * a)
        M[3 + i, 3 + i] = 1 / (8 * pi * mu * a ** 3)
    for j in range(5):
        M[6 + j, 6 + j] = 1 / (Fr(20, 3) * pi * mu * a ** 3)
    return M


def place(M, big, N, i, j):
    """Put an 11x11 pair block into the grand matrix ordering."""
    off = lambda k, p: {0: 3 * p, 1: 3 * N + 3 * p, 2: 6 * N + 5 * p}[k]
    sl = [(0, 3, 0), (3, 6, 1), (6, 11, 2)]
    for a, b, k in sl:
        for c, d, l in sl:
            big[off(k, i):off(k, i) + b - a, off(l, j):off(l, j) + d - c] = M[a:b, c:d]


def expected(v):
    """44 numbers per pair: built once, evaluated natively by substitution."""
    import sym
    B = strain_basis()
    T = free_space(v)
    c = 1 / (8 * sym.PI() * v['mu'])
    x, y, z = v['x'], v['y'], v['z']
    s = sym.sqrt(x * x + y * y + z * z)
    lam = sym.Sym.const(1)
    if 'clamp' in v:
        lam = v['clamp'] * (v['a1'] + v['a2']) / 2 / s
    out = np.zeros((22, 22), dtype=object)
    P = pair_blocks(*T, v['a1'], v['a2'], c, lam, B)
    place(self_block(v['a1'], v['mu'], sym.PI(), B), out, 2, 0, 0)
    place(self_block(v['a2'], v['mu'], sym.PI(), B), out, 2, 1, 1)
    place(P, out, 2, 0, 1)
    place(P.T, out, 2, 1, 0)
    return out


def pair(api, equal, clamp, sym_first=False):
    ld = api.loader()
    x, y, z = (api.real(k, -8, 8) for k in 'xyz')
    a1 = api.real('a1', 0.1, 3)
    a2 = a1 if equal else api.real('a2', 0.1, 3)
    mu = api.real('mu', 0.1, 10)
    if not equal:
        api.assume(a1 != a2)
    s = norm(api, [x, y, z])
    lim = api.const(Fr(2001, 2000)) * (a1 + a2)
    if clamp:
        api.bound(s, 0.01, 14)
        api.assume(s < lim)
    else:
        api.bound(s, 0.05, 14)
        api.assume(s > lim)
    mod = ld.load('functions.generate_Minfinity')
    z3 = [0.0, 0.0, 0.0]
    pd = posdata(api, [a1, a2], [[x, y, z], z3])
    M, _ = mod.generate_Minfinity(pd, 0, frameno=0, mu=mu)
    names = ['x', 'y', 'z', 'a1', 'a2', 'mu']
    vals = [x, y, z, a1, a2, mu]
    if clamp:
        names.append('clamp')
        vals.append(api.const(Fr(2001, 1000)))
    W = oracle(api, 'pair%d%d' % (equal, clamp), names, vals, expected)
    api.holds('shape', tuple(M.shape) == (22, 22))
    for i in range(22):
        for j in range(22):
            api.eq('M[%d,%d]' % (i, j), M[i, j], W[i, j])


def additive(api, n):
    """Blocks of an n-sphere matrix are those of its pairs."""
    ld = api.loader()
    mod = ld.load('functions.generate_Minfinity')
    mu = api.real('mu', 0.1, 10)
    a = [api.real('a%d' % i, 0.1, 3) for i in range(n)]
    pos = [[api.const(0)] * 3] + [vec3(api, 'x%d' % i, -8, 8) for i in range(1, n)]
    for i in range(n):
        for j in range(i):
            d = norm(api, sub(pos[i], pos[j]))
            api.bound(d, 0.05, 40)
            api.assume(2 * d > api.const(Fr(2001, 1000)) * (a[i] + a[j]))
            api.assume(a[i] != a[j])
    M, _ = mod.generate_Minfinity(posdata(api, a, pos), 0, frameno=0, mu=mu)
    api.holds('shape', tuple(M.shape) == (11 * n, 11 * n))
    for i in range(n):
        for j in range(i + 1, n):
            P, _ = mod.generate_Minfinity(posdata(api, [a[i], a[j]], [pos[i], pos[j]]), 0, frameno=0, mu=mu)
            big = np.zeros((11 * n, 11 * n), dtype=object)
            idx = {}
            for p, q in ((0, i), (1, j)):
                for k in range(3):
                    idx[3 * p + k] = 3 * q + k
                    idx[6 + 3 * p + k] = 3 * n + 3 * q + k
                for k in range(5):
                    idx[12 + 5 * p + k] = 6 * n + 5 * q + k
            for u in range(22):
                for v in range(22):
                    api.eq('M[%d,%d] of pair %d%d' % (idx[u], idx[v], i, j), M[idx[u], idx[v]], P[u, v])


HARNESSES = [
    H('additive-3', additive, n=3),
    H('additive-4', additive, n=4, tiers=('thorough',)),
    H('pair-unequal', pair, equal=False, clamp=False),
    H('pair-equal', pair, equal=True, clamp=False),
    H('pair-unequal-clamped', pair, equal=False, clamp=True),
    H('pair-equal-clamped', pair, equal=True, clamp=True),
]
