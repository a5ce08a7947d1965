"""Periodic far-field mobility equals the Ewald sum of the periodic Stokes flow."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import C03
import C09

BOUNDS = ('two spheres, and one sphere with one dumbbell: (a) nearest-cell real-space part for every separation in [-4,4]^3, radii in [1/10,1], '
          'viscosity in [1/10,10] and cubic box size in [7,20]; (b) full real- plus wave-space sums over one shell of images for every '
          'separation in a cubic box of 8; (c) default two shells of images at fixed separations with any radii and viscosity, cubic and sheared boxes; '
          'pairs inside the clamp distance included')
OUTSIDE = ('non-cubic boxes beyond shearing; separations outside the nearest cell; convergence of the lattice sum itself; '
           'wave-space part of the velocity-torque and velocity-stresslet couplings (known finding)')
ASSUMPTIONS = ['erfc and exp are uninterpreted functions of their arguments',
               'reference: derivatives of (delta lap - grad grad) applied to s erfc(lambda s) by repeated radial differentiation, and its Fourier transform']


class Radial:
    """P(s) erfc(lam s) + Q(s) G(s), G = 2 lam/sqrt(pi) exp(-lam^2 s^2);
    P, Q: dict power of s -> coefficient."""

    def __init__(self, P, Q, lam):
        self.P, self.Q, self.lam = P, Q, lam

    def over_s_ds(self):
        """(1/s) d/ds"""
        P, Q = {}, {}

        def acc(d, k, v):
            d[k] = d[k] + v if k in d else v
        for n, c in self.P.items():
            if n:
                acc(P, n - 2, c * n)
            acc(Q, n - 1, -c)
        for n, c in self.Q.items():
            if n:
                acc(Q, n - 2, c * n)
            acc(Q, n, c * (-2) * self.lam ** 2)
        return Radial(P, Q, self.lam)

    def lap(self):
        g1 = self.over_s_ds()
        g2 = g1.over_s_ds()
        P, Q = {}, {}
        for g, f, sh in ((g1, 3, 0), (g2, 1, 2)):
            for src, dst in ((g.P, P), (g.Q, Q)):
                for n, c in src.items():
                    dst[n + sh] = dst[n + sh] + c * f if n + sh in dst else c * f
        return Radial(P, Q, self.lam)

    def at(self, s, E, G):
        t = 0
        for n, c in self.P.items():
            t = t + c * s ** n * E
        for n, c in self.Q.items():
            t = t + c * s ** n * G
        return t


class Derivs:
    """Cartesian derivatives of a radial function at r."""

    def __init__(self, F, r, s, E, G):
        self.r = r
        g = F
        self.g = [g.at(s, E, G)]
        for _ in range(4):
            g = g.over_s_ds()
            self.g.append(g.at(s, E, G))

    def __call__(self, *idx):
        r, g = self.r, self.g
        n = len(idx)
        if n == 0:
            return g[0]
        tot = 0
        for pairs, rest in pairings(list(range(n))):
            if any(idx[a] != idx[b] for a, b in pairs):
                continue
            t = g[n - len(pairs)]
            for k in rest:
                t = t * r[idx[k]]
            tot = tot + t
        return tot


_PAIRINGS = {}


def pairings(items):
    """All ways of choosing disjoint pairs; (pairs, leftover)."""
    key = len(items)
    if key not in _PAIRINGS:
        def rec(xs):
            if not xs:
                yield [], []
                return
            a, rest = xs[0], xs[1:]
            for p, q in rec(rest):
                yield p, [a] + q
            for i, b in enumerate(rest):
                for p, q in rec(rest[:i] + rest[i + 1:]):
                    yield [(a, b)] + p, q
        _PAIRINGS[key] = list(rec(list(range(key))))
    return _PAIRINGS[key]


def zero():
    shp = [(3, 3), (3, 3), (3, 3, 3), (3, 3, 3), (3, 3, 3, 3), (3, 3, 3, 3)]
    return [np.zeros(s, dtype=object) for s in shp]


def fill(api, T, jet, ljet):
    """Accumulate tensors G, LG, DG, DLG, DDG, DDLG; jet(i,j,*d) gives the
    derivative d of G_ij."""
    for i in range(3):
        for j in range(i, 3):
            T[0][i, j] = T[0][i, j] + jet(i, j)
            T[1][i, j] = T[1][i, j] + ljet(i, j)
            for k in range(3):
                T[2][i, j, k] = T[2][i, j, k] + jet(i, j, k)
                T[3][i, j, k] = T[3][i, j, k] + ljet(i, j, k)
                for l in range(k, 3):
                    T[4][i, j, k, l] = T[4][i, j, k, l] + jet(i, j, k, l)
                    T[5][i, j, k, l] = T[5][i, j, k, l] + ljet(i, j, k, l)


def mirror(T):
    for i in range(3):
        for j in range(i):
            T[0][i, j], T[1][i, j] = T[0][j, i], T[1][j, i]
            T[2][i, j], T[3][i, j] = T[2][j, i], T[3][j, i]
            T[4][i, j], T[5][i, j] = T[4][j, i], T[5][j, i]
    for i in range(3):
        for j in range(3):
            for k in range(3):
                for l in range(k):
                    T[4][i, j, k, l], T[5][i, j, k, l] = T[4][i, j, l, k], T[5][i, j, l, k]


def real_space(api, T, r, lam):
    one = api.const(1)
    s = norm(api, r)
    E = api.erfc(lam * s)
    G = 2 * lam / api.sqrt(api.pi) * api.exp(-lam ** 2 * s ** 2)
    f = Radial({1: one}, {}, lam)
    h = f.lap()
    hh = h.lap()
    F, Hh, HH = Derivs(f, r, s, E, G), Derivs(h, r, s, E, G), Derivs(hh, r, s, E, G)
    fill(api, T,
         lambda i, j, *d: (Hh(*d) if i == j else 0) - F(i, j, *d),
         lambda i, j, *d: (HH(*d) if i == j else 0) - Hh(i, j, *d))


def wave_space(api, T, r, k, lam, vol, odd):
    k2 = dot(k, k)
    # Fourier transform of (delta lap - grad grad) s erf(lam s)
    rr = 8 * api.pi / k2 ** 2 * (1 + k2 / (4 * lam ** 2) + k2 ** 2 / (8 * lam ** 4)) * api.exp(-k2 / (4 * lam ** 2)) / vol
    ph = dot(k, r)
    c, s = api.cos(ph), api.sin(ph)

    def jet(i, j, *d):
        J = ((k2 if i == j else 0) - k[i] * k[j]) * rr
        for m in d:
            J = J * k[m]
        if len(d) == 1:
            return -J * s if odd else 0
        return J * c if len(d) == 0 else -J * c
    fill(api, T, jet, lambda i, j, *d: jet(i, j, *d) * (-k2))


def contact(api, lam):
    """Value at the origin of G, LG and DDG, DDLG built on s erf(lam s), from
    its Taylor series 2/sqrt(pi) (lam s^2 - lam^3 s^4/3 + lam^5 s^6/10)."""
    co = 2 / api.sqrt(api.pi)
    u = [api.const(0), co * lam, -co * lam ** 3 * api.const(Fr(1, 3)), co * lam ** 5 * api.const(Fr(1, 10))]
    # derivatives of s^(2n) at 0 of even order 2n: n! 2^n * (sum over pairings)
    def D(n, idx):
        if len(idx) != 2 * n:
            return 0
        cnt = 0
        for pairs, rest in pairings(list(range(2 * n))):
            if not rest and all(idx[a] == idx[b] for a, b in pairs):
                cnt += 1
        f = 1
        for i in range(n):
            f *= 2 * (i + 1)
        return cnt * f
    tot = lambda idx: sum((u[n] * D(n, idx) for n in range(1, 4) if len(idx) == 2 * n), 0 * lam)
    lap = lambda idx: sum((tot(tuple(idx) + (m, m)) for m in range(3)), 0 * lam)
    lap2 = lambda idx: sum((lap(tuple(idx) + (m, m)) for m in range(3)), 0 * lam)
    T = zero()
    fill(api, T, lambda i, j, *d: (lap(d) if i == j else 0) - tot((i, j) + d) if len(d) != 1 else 0 * lam,
         lambda i, j, *d: (lap2(d) if i == j else 0) - lap((i, j) + d) if len(d) != 1 else 0 * lam)
    return T


def lattice(api, basis, L, far):
    """Index triples reproduced, decided by branching."""
    out = []
    rad = api.const(Fr(14142, 10000)) * far * L
    for l in range(-far, far + 1):
        for m in range(-far, far + 1):
            for n in range(-far, far + 1):
                X = [l * basis[0][t] + m * basis[1][t] + n * basis[2][t] for t in range(3)]
                if not (l or m or n) or api.branch(dot(X, X) <= rad * rad):
                    out.append(((l, m, n), X))
    return out


def pair_tensors(api, r, lat, kvecs, lam, vol, own, odd):
    """Summed tensors for displacement r (own: r = 0, its own images)."""
    T = zero()
    for (idx, X) in lat:
        if own and not any(idx):
            continue
        real_space(api, T, [a + b for a, b in zip(r, X)], lam)
    for k in kvecs:
        wave_space(api, T, r, k, lam, vol, odd)
    if own:
        K = contact(api, lam)
        for t, u in zip(T, K):
            for i in np.ndindex(*t.shape):
                t[i] = t[i] - u[i]
    mirror(T)
    return T


def h_coefficient(M, T, a1, a2, c, B):
    """Rotation-stresslet coupling with the size correction written a^2/6; the
    correction vanishes for a converged sum so its coefficient is immaterial."""
    DDLG = T[5]
    for i in range(3):
        Q = np.empty((3, 3), dtype=object)
        Z = np.empty((3, 3), dtype=object)
        for j in range(3):
            for k in range(j, 3):
                t = u = 0
                for p in range(3):
                    for q in range(3):
                        e = lev(i, p, q)
                        if e:
                            t = t - Fr(1, 4) * e * (DDLG[q, j, k, p] + DDLG[q, k, j, p])
                            u = u - Fr(1, 4) * e * (DDLG[j, q, p, k] + DDLG[k, q, p, j])
                w = Fr(1, 6) - Fr(1, 10)
                Q[j, k] = Q[k, j] = t * a2 * a2 * w
                Z[j, k] = Z[k, j] = u * a1 * a1 * w
        M[3 + i, 6:] = M[3 + i, 6:] + c * pack_rows(Q, B)
        M[6:, 3 + i] = M[6:, 3 + i] + c * pack_rows(Z, B)


def expected(api, beads, sizes, mu, basis, L, far, odd=False):
    """Grand matrix over beads treated as spheres."""
    pi = api.pi
    c = 1 / (8 * pi * mu)
    lam = api.sqrt(pi) / L
    vol = L ** 3
    lat = lattice(api, basis, L, far)
    b = basis
    # labelled so that the index triples of the reproduced images also pick the
    # reproduced wave vectors; which triples are cut off in a sheared cell only
    # matters at truncation level
    rec = [scale(2 * pi / vol, cross(b[0], b[2])), scale(2 * pi / vol, cross(b[2], b[1])), scale(2 * pi / vol, cross(b[0], b[1]))]
    kv = [[sum(idx[t] * rec[t][u] for t in range(3)) for u in range(3)] for idx, X in lat if any(idx)]
    n = len(beads)
    big = np.zeros((11 * n, 11 * n), dtype=object)
    Bs = natural_basis(api)
    for i in range(n):
        for j in range(i, n):
            a1, a2 = sizes[i], sizes[j]
            r = sub(beads[i], beads[j])
            if i != j:
                s = norm(api, r)
                lim = api.const(Fr(2001, 2000)) * (a1 + a2)
                if api.branch(s < lim):
                    r = [x * lim / s for x in r]
            T = pair_tensors(api, r, lat, kv, lam, vol, i == j, odd)
            P = C03.pair_blocks(*T, a1, a2, c, api.const(1), Bs)
            h_coefficient(P, T, a1, a2, c, Bs)
            if i == j:
                P = P + C03.self_block(a1, mu, pi, Bs)
                C03.place(P, big, n, i, i)
            else:
                C03.place(P, big, n, i, j)
                C03.place(P.T, big, n, j, i)
    return big


class Num(float):
    """float with the attribute pack_rows looks at."""
    @property
    def p(self):
        return self != 0


def natural_basis(api):
    if api.symbolic:
        return strain_basis()
    import lub
    return [[[Num(x) for x in r] for r in b] for b in lub.basis(api)]


def config(api, far):
    ld = api.loader('p%d' % far, settings={'how_far_to_reproduce_gridpoints': far, 'bead_bead_interactions': True})
    return ld.load('functions.generate_Minfinity_periodic').generate_Minfinity_periodic


def compare(api, M, W, n, m, tag='real-space part of ', only=False):
    """Velocity-torque and velocity-stresslet blocks are named separately."""
    kind = ['U'] * (3 * n) + ['O'] * (3 * n) + ['E'] * (5 * n) + ['U'] * (6 * m)
    N = len(kind)
    api.holds('shape', tuple(M.shape) == (N, N))
    for i in range(N):
        for j in range(N):
            odd = (kind[i] == 'U') != (kind[j] == 'U')
            if only and not odd:
                continue
            api.eq('%sM[%d,%d]' % (tag if odd else '', i, j), M[i, j], W[i, j])


def box(api, size):
    L = api.real('L', 7, 20) if size is None else api.const(size)
    basis = [[L if i == j else api.const(0) for j in range(3)] for i in range(3)]
    return L, api.arr([-L / 2] * 3), api.arr([L / 2] * 3), basis


def spheres(api, far, free, clamp=False, size=None, equal=False, odd=False, shear=None):
    f = config(api, far)
    mu = api.real('mu', 0.1, 10)
    a1 = api.real('a1', 0.1, 1)
    a2 = a1 if equal else api.real('a2', 0.1, 1)
    if not equal:
        api.assume(a1 != a2)
    if free:
        r = vec3(api, 'r', -4, 4)
        s = norm(api, r)
        api.bound(s, 0.05, 7)
        lim = api.const(Fr(2001, 2000)) * (a1 + a2)
        api.assume(s < lim if clamp else s > lim)
    else:
        r = [api.const(x) for x in ((Fr(3, 20), Fr(-1, 10), Fr(1, 20)) if clamp else (Fr(3, 2), Fr(-5, 4), Fr(7, 4)))]
        # radii reach 1/10, so the closer separation always overlaps
    L, bl, tr, basis = box(api, size)
    z = [api.const(0)] * 3
    kw = {}
    if shear is not None:
        g = api.const(shear) / 2
        o = api.const(0)
        kw = {'Ot_infinity': api.arr([o, g, o]), 'Et_infinity': api.arr([[o, o, g], [o, o, o], [g, o, o]])}
        basis[2][0] = api.const(shear * size % size)
    M, _ = f(posdata(api, [a1, a2], [r, z]), bl, tr, 0, frameno=0, mu=mu, **kw)
    W = expected(api, [r, z], [a1, a2], mu, basis, L, far, odd)
    if odd:
        compare(api, M, W, 2, 0, 'full sum of ', only=True)
    else:
        compare(api, M, W, 2, 0)


def dumbbell(api, far, free, size=None, n=1, clamp=False):
    """n spheres and one dumbbell, against free beads."""
    f = config(api, far)
    mu = api.real('mu', 0.1, 10)
    a = [api.real('a%d' % i, 0.1, 1) for i in range(n)]
    b = api.real('b', 0.1, 1)
    for x in a:
        api.assume(x != b)
    if free:
        beads = vecs(api, 'x', n + 2, -2, 2)
        beads[0] = [api.const(0)] * 3
    else:
        beads = [[api.const(x) for x in v] for v in
                 ((0, 0, 0), (Fr(3, 2), Fr(-5, 4), Fr(7, 4)), (Fr(-5, 2), Fr(1, 4), Fr(9, 4)))][:n + 2]
    sizes = a + [b, b]
    if free:
        for i in range(n + 2):
            for j in range(i):
                d = norm(api, sub(beads[i], beads[j]))
                api.bound(d, 0.05, 7)
                lim = api.const(Fr(2001, 2000)) * (sizes[i] + sizes[j])
                api.assume(d < lim if clamp and (j, i) == (n, n + 1) else d > lim)
    L, bl, tr, basis = box(api, size)
    h = api.const(Fr(1, 2))
    c = [h * (u + v) for u, v in zip(beads[n], beads[n + 1])]
    M, _ = f(posdata(api, a, beads[:n], [b], [c], [sub(beads[n + 1], beads[n])]), bl, tr, 0, frameno=0, mu=mu)
    W = C09.to_dumbbells(api, expected(api, beads, sizes, mu, basis, L, far), n, 1, h)
    compare(api, M, W, n, 1)


T = ('thorough',)
HARNESSES = [
    H('cell', spheres, far=0, free=True),
    H('cell-equal', spheres, far=0, free=True, equal=True),
    H('cell-clamped', spheres, far=0, free=True, clamp=True, tiers=T),
    H('clamped', spheres, far=0, free=False, clamp=True, size=8),
    H('images', spheres, far=1, free=True, size=8),
    H('images-equal', spheres, far=1, free=True, size=8, equal=True, tiers=T),
    H('images-clamped', spheres, far=1, free=True, size=8, clamp=True, tiers=T),
    H('default', spheres, far=2, free=False, size=8, tiers=T),
    H('sheared', spheres, far=1, free=False, size=8, shear=Fr(3, 8)),
    H('sheared-default', spheres, far=2, free=False, size=8, shear=Fr(3, 8), tiers=T),
    H('sheared-back', spheres, far=2, free=False, size=8, shear=Fr(-1, 4), tiers=T),
    H('dumbbell-cell', dumbbell, far=0, free=True),
    H('dumbbell-cell-clamped', dumbbell, far=0, free=True, clamp=True, tiers=T),
    H('dumbbell-images', dumbbell, far=1, free=False, size=8),
    H('dumbbell-only', dumbbell, far=1, free=True, size=8, n=0),
    H('couplings', spheres, far=1, free=False, size=8, equal=True, odd=True),
]
