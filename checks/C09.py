"""A dumbbell behaves as two force-only beads joined at its centre."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import lub

BOUNDS = ('1-2 spheres with 1-2 dumbbells and 2-3 dumbbells alone; bead positions any reals in [-8,8], radii in [1/10,3] (far field) or '
          'tabulated ratios (lubrication), viscosity in [1/10,10]; bead-bead interactions on and off')
OUTSIDE = ('coincident beads; with bead-bead interactions off, the self terms nearby beads add to the lubrication of a bead; '
           'more than three dumbbells')
ASSUMPTIONS = ['reference is the same routine on separate spheres (its own content is decided by C03 and C05)']


def to_dumbbells(api, B, n, m, half):
    """Grand matrix over n spheres + 2m beads (all as spheres) -> spheres and
    dumbbells.  half: 1/2 for mobility, 1 for resistance."""
    N = n + 2 * m
    keep = ([3 * i + k for i in range(n) for k in range(3)]
            + [3 * N + 3 * i + k for i in range(n) for k in range(3)]
            + [6 * N + 5 * i + k for i in range(n) for k in range(5)]
            + [3 * (n + b) + k for b in range(2 * m) for k in range(3)])
    X = np.array([[B[i, j] for j in keep] for i in keep], dtype=object)
    o, w = 11 * n, 3 * m

    def rows(X):
        Y = X.copy()
        for k in range(w):
            Y[o + k] = half * (X[o + k] + X[o + w + k])
            Y[o + w + k] = half * (X[o + w + k] - X[o + k])
        return Y
    return rows(rows(X).T).T


def geometry(api, n, m, lams=None, blams=None, clampd=False, w=8, cf=None):
    if lams is None:
        sizes = [api.real('a%d' % i, 0.1, 3) for i in range(n)]
        bs = [api.real('b%d' % i, 0.1, 3) for i in range(m)]
    else:
        a = api.real('a', 0.5, 2)
        sizes = [a * api.const(l) for l in lams]
        bs = [a * api.const(l) for l in blams]
    pos = vecs(api, 'x', n, -w, w)
    # the two bead positions are the free variables (same set of dumbbells)
    p, q = vecs(api, 'p', m, -w, w), vecs(api, 'q', m, -w, w)
    if n:
        pos[0] = [api.const(0)] * 3
    else:
        p[0] = [api.const(0)] * 3
    h = api.const(Fr(1, 2))
    c = [[h * (u + v) for u, v in zip(p[i], q[i])] for i in range(m)]
    dx = [sub(q[i], p[i]) for i in range(m)]
    beads = p + q
    allpos = pos + beads
    allsz = sizes + bs + bs
    k = api.const(Fr(2001, 1000))
    for i in range(len(allpos)):
        for j in range(i):
            d = norm(api, sub(allpos[i], allpos[j]))
            api.bound(d, 0.05, 60)
            if clampd and (j, i) == (n, n + m):
                api.assume(2 * d < k * (allsz[i] + allsz[j]))
            else:
                api.assume(2 * d > k * (allsz[i] + allsz[j]))
    return sizes, pos, bs, c, dx, allpos, allsz


def mobility(api, n, m, on=True, clampd=False):
    ld = api.loader('m', settings={'bead_bead_interactions': on})
    mod = ld.load('functions.generate_Minfinity')
    mu = api.real('mu', 0.1, 10)
    sizes, pos, bs, c, dx, allpos, allsz = geometry(api, n, m, clampd=clampd)
    for i in range(n + m):
        for j in range(i):
            u, v = (sizes + bs)[i], (sizes + bs)[j]
            api.assume(u != v)
    M, _ = mod.generate_Minfinity(posdata(api, sizes, pos, bs, c, dx), 0, frameno=0, mu=mu)
    B, _ = mod.generate_Minfinity(posdata(api, allsz, allpos), 0, frameno=0, mu=mu)
    if not on:
        B = np.array(B, dtype=object)
        for p in range(2 * m):
            for q in range(2 * m):
                if p != q:
                    B[3 * (n + p):3 * (n + p) + 3, 3 * (n + q):3 * (n + q) + 3] = 0
    W = to_dumbbells(api, B, n, m, api.const(Fr(1, 2)))
    api.holds('shape', tuple(M.shape) == W.shape)
    for i in range(W.shape[0]):
        for j in range(W.shape[0]):
            api.eq('M[%d,%d]' % (i, j), M[i, j], W[i, j])


def resistance(api, lams, blams, near, on=True):
    """near: pairs of beads within the cutoff (others outside)."""
    n, m = len(lams), len(blams)
    ld = api.loader('r', settings={'bead_bead_interactions': on})
    mod = ld.load('functions.generate_R2Bexact')
    lub.Tables(api, ld)
    mu = api.real('mu', 0.1, 10)
    sizes, pos, bs, c, dx, allpos, allsz = geometry(api, n, m, lams, blams)
    for i in range(len(allpos)):
        for j in range(i):
            d = norm(api, sub(allpos[i], allpos[j]))
            if (j, i) in near:
                api.assume(d < 2 * (allsz[i] + allsz[j]))
            else:
                api.assume(d > 2 * (allsz[i] + allsz[j]))
    R, _ = mod.generate_R2Bexact(posdata(api, sizes, pos, bs, c, dx), 0, cutoff_factor=2, frameno=0, mu=mu)
    B, _ = mod.generate_R2Bexact(posdata(api, allsz, allpos), 0, cutoff_factor=2, frameno=0, mu=mu)
    o, w = 11 * n, 3 * m
    if on:
        W = to_dumbbells(api, B, n, m, 1)
        api.holds('shape', tuple(R.shape) == W.shape)
        for i in range(o + 2 * w):
            for j in range(o + 2 * w):
                api.eq('R[%d,%d]' % (i, j), R[i, j], W[i, j])
        return
    W = to_dumbbells(api, B, n, m, 1)
    for i in range(o):
        for j in range(o + 2 * w):
            api.eq('R[%d,%d]' % (i, j), R[i, j], W[i, j])
    # undo the total/difference combination: bead blocks must be uncoupled
    q = api.const(Fr(1, 4))
    for i in range(w):
        for j in range(w):
            ss, sd = R[o + i, o + j], R[o + i, o + w + j]
            ds, dd = R[o + w + i, o + j], R[o + w + i, o + w + j]
            r11 = q * (ss - sd - ds + dd)
            r22 = q * (ss + sd + ds + dd)
            r12 = q * (ss + sd - ds - dd)
            api.eq('uncoupled12[%d,%d]' % (i, j), r12, 0)
            if i // 3 != j // 3:
                api.eq('uncoupled11[%d,%d]' % (i, j), r11, 0)
                api.eq('uncoupled22[%d,%d]' % (i, j), r22, 0)


one, ten = Fr(1), Fr(1, 10)
T = ('thorough',)
HARNESSES = [
    H('mob-1-1', mobility, n=1, m=1),
    H('mob-0-2', mobility, n=0, m=2),
    H('mob-2-1', mobility, n=2, m=1),
    H('mob-1-1-clamped', mobility, n=1, m=1, clampd=True),
    H('mob-1-2-off', mobility, n=1, m=2, on=False),
    H('mob-1-2', mobility, n=1, m=2, tiers=T),
    H('mob-0-3', mobility, n=0, m=3, tiers=T),
    H('res-1-1-all', resistance, lams=[one], blams=[one], near=[(0, 1), (0, 2), (1, 2)]),
    H('res-1-1-bead1', resistance, lams=[one], blams=[ten], near=[(0, 1)]),
    H('res-1-1-bead2', resistance, lams=[one], blams=[ten], near=[(0, 2)]),
    H('res-0-2', resistance, lams=[], blams=[one, one], near=[(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)]),
    H('res-0-2-mixed', resistance, lams=[], blams=[one, ten], near=[(0, 1), (2, 3)]),
    H('res-1-2-off', resistance, lams=[one], blams=[one, one], near=[(0, 1), (1, 3), (1, 2), (2, 4)], on=False),
    H('res-2-1', resistance, lams=[one, one], blams=[one], near=[(0, 1), (0, 2), (1, 3), (2, 3)]),
    H('res-1-2', resistance, lams=[one], blams=[one, ten], near=[(0, 1), (0, 4), (1, 2)], tiers=T),
]
