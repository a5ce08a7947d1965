"""Two-sphere lubrication tensors, written independently of the code."""

import hashlib
import numpy as np
from fractions import Fraction as Fr
from common import *

XA, YA, YB, XC, YC, XG, YG, YH, XM, YM, ZM = range(11)
LAMS = (Fr(1, 100), Fr(1, 10), Fr(1), Fr(10), Fr(100))


class Tables:
    """Access to the tabulated scalars; symbolically the interpolant of each
    table row is an uninterpreted function of the separation."""

    def __init__(self, api, ld, raw=None):
        self.api = api
        data = ld.load('resistance_scalars.data')
        self.raw = np.asarray(data.XYZ_raw if raw is None else raw)
        self.s = np.asarray(data.s_dash_range)
        if api.symbolic:
            import npshim
            npshim.INTERP_HOOK[0] = self.hook

    @staticmethod
    def key(fp):
        return hashlib.sha1(np.ascontiguousarray(np.asarray(fp, dtype=float)).tobytes()).hexdigest()[:16]

    def hook(self, x, xp, fp):
        import sym
        fp = np.asarray(fp, dtype=float)
        xp = np.asarray(xp, dtype=float)
        return sym.uf('interp', [x], num=lambda v: float(np.interp(v, xp, fp)),
                      extra_key=self.key(fp) + self.key(xp))

    def __call__(self, k, gamma, lam, s):
        """Scalar k of the pair seen from a sphere whose partner is lam times
        its size; gamma 0: on the sphere itself, 1: from the partner."""
        i = LAMS.index(Fr(lam).limit_denominator(1000))
        fp = self.raw[k, gamma, :, i]
        if self.api.symbolic:
            return self.hook(s, self.s, fp)
        return float(np.interp(s, self.s, fp))


def basis(api):
    s3 = api.sqrt(api.const(3))
    h = 1 / api.sqrt(api.const(2))
    p, m = (s3 + 3) / 6, (s3 - 3) / 6
    return [
        [[p, 0, 0], [0, m, 0], [0, 0, -p - m]],
        [[0, h, 0], [h, 0, 0], [0, 0, 0]],
        [[m, 0, 0], [0, p, 0], [0, 0, -p - m]],
        [[0, 0, h], [0, 0, 0], [h, 0, 0]],
        [[0, 0, 0], [0, 0, h], [0, h, 0]],
    ]


def tensors(api, tab, gamma, lam, s, d, a):
    """(A, B, C, G, H, M): force/torque/stresslet on a sphere of radius a due to
    the motion of itself (gamma 0) or of the partner (gamma 1); d points from
    it to the partner, lam = partner radius / own radius, s the scaled gap."""
    S = lambda k: tab(k, gamma, lam, s)
    pi = api.pi
    B5 = basis(api)
    xa, ya, yb, xc, yc, xg, yg, yh, xm, ym, zm = (S(k) for k in range(11))
    A = np.empty((3, 3), dtype=object)
    B = np.empty((3, 3), dtype=object)
    C = np.empty((3, 3), dtype=object)
    for i in range(3):
        for j in range(3):
            dd = d[i] * d[j]
            pp = (1 if i == j else 0) - dd
            A[i, j] = 6 * pi * a * (xa * dd + ya * pp)
            C[i, j] = 8 * pi * a ** 3 * (xc * dd + yc * pp)
            B[i, j] = 4 * pi * a ** 2 * yb * sum(lev(i, j, k) * d[k] for k in range(3))
    G = np.empty((5, 3), dtype=object)
    Hh = np.empty((5, 3), dtype=object)
    M = np.empty((5, 5), dtype=object)
    dbd = [dot(d, matvec(b, d)) for b in B5]          # d.B.d
    bd = [matvec(b, d) for b in B5]                   # B.d
    perp = [[bd[n][k] - dbd[n] * d[k] for k in range(3)] for n in range(5)]
    for n in range(5):
        for k in range(3):
            G[n, k] = 4 * pi * a ** 2 * (xg * dbd[n] * d[k] + yg * 2 * perp[n][k])
        # stresslet from rotation: S = YH [ (w x d) d + d (w x d) ], w x d perpendicular to d
        # B:S = 2 YH (B.d).(w x d) -> w.(d x B.d)
        c = cross(d, bd[n])
        for k in range(3):
            Hh[n, k] = 8 * pi * a ** 3 * yh * 2 * c[k]
        for m in range(5):
            p1 = Fr(3, 2) * dbd[n] * dbd[m]
            if not api.symbolic:
                p1 = float(p1)
            p2 = 2 * dot(perp[n], perp[m])
            full = 1 if n == m else 0
            M[n, m] = api.const(Fr(20, 3)) * pi * a ** 3 * (xm * p1 + ym * p2 + zm * (full - p1 - p2))
    return A, B, C, G, Hh, M


def block(T):
    """11x11 block F,T,S against U,O,E for a sphere acting on itself."""
    A, B, C, G, Hh, M = T
    out = np.zeros((11, 11), dtype=object)
    out[0:3, 0:3] = A
    out[3:6, 0:3] = B
    out[0:3, 3:6] = B.T
    out[3:6, 3:6] = C
    out[6:, 0:3] = G
    out[0:3, 6:] = G.T
    out[6:, 3:6] = Hh
    out[3:6, 6:] = Hh.T
    out[6:, 6:] = M
    return out


def cross_block(T12, T21):
    """Force moments on 1 from motion of 2; the F-from-O, F-from-E and
    T-from-E parts follow by reciprocity from the moments on 2."""
    A, B, C, G, Hh, M = T12
    _, B2, _, G2, H2, _ = T21
    out = np.zeros((11, 11), dtype=object)
    out[0:3, 0:3] = A
    out[3:6, 0:3] = B
    out[0:3, 3:6] = B2.T
    out[3:6, 3:6] = C
    out[6:, 0:3] = G
    out[0:3, 6:] = G2.T
    out[6:, 3:6] = Hh
    out[3:6, 6:] = H2.T
    out[6:, 6:] = M
    return out


def off(k, p, n):
    return {0: 3 * p, 1: 3 * n + 3 * p, 2: 6 * n + 5 * p}[k]


def add_block(big, blk, n, i, j):
    sl = [(0, 3, 0), (3, 6, 1), (6, 11, 2)]
    for a, b, k in sl:
        for c, d, l in sl:
            for u in range(b - a):
                for v in range(d - c):
                    x, y = off(k, i, n) + u, off(l, j, n) + v
                    big[x, y] = big[x, y] + blk[a + u, c + v]


def lubrication(api, tab, sizes, lams, positions, close):
    """Expected matrix for spheres of radii sizes[i] (exact ratios lams[i]);
    close(i, j, s) tells whether the pair is within the cutoff."""
    n = len(sizes)
    R = np.zeros((11 * n, 11 * n), dtype=object)
    for i in range(n):
        for j in range(i + 1, n):
            r = sub(positions[j], positions[i])
            dist = norm(api, r)
            s = 2 * dist / (sizes[i] + sizes[j])
            if not close(i, j, s):
                continue
            d = [x / dist for x in r]
            md = [-x for x in d]
            l12 = lams[j] / lams[i]
            l21 = lams[i] / lams[j]
            add_block(R, block(tensors(api, tab, 0, l12, s, d, sizes[i])), n, i, i)
            add_block(R, block(tensors(api, tab, 0, l21, s, md, sizes[j])), n, j, j)
            T12 = tensors(api, tab, 1, l12, s, d, sizes[i])
            T21 = tensors(api, tab, 1, l21, s, md, sizes[j])
            X = cross_block(T12, T21)
            add_block(R, X, n, i, j)
            add_block(R, X.T, n, j, i)
    return R
