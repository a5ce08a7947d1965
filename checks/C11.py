"""Close-pair detection finds exactly the pairs within range with correct geometry."""

from fractions import Fraction as Fr
import numpy as np
from common import *
from C12 import SENSES, shear

BOUNDS = ('2-4 particles (unbounded) and 2-4 (periodic), radii any reals in [1/10,3], cutoff factor in [1,3]; unbounded positions in [-20,20]^3; '
          'periodic: cubic box of side 12 and oblong box 14x12x10, unsheared or with a given tilt, separations anywhere in the nearest cell (three and four particles: fixed relative positions) plus whole box vectors, '
          'pairs inside, outside and (unbounded) exactly at the cutoff')
OUTSIDE = 'separations exactly on the boundary of the nearest cell; cutoff ranges exceeding half the box'
ASSUMPTIONS = []


def check_pairs(api, out, near, disp, sizes, n):
    """near: pairs i<j expected; disp[i,j]: displacement from i to j."""
    pairs, d, s, lam = out
    want = sorted([(i, i) for i in range(n)] + [p for p in near])
    got = [tuple(int(k) for k in p) for p in pairs]
    api.holds('pairs found', sorted(got) == want)
    if sorted(got) != want:
        return
    api.holds('lengths', len(d) == len(got) and len(s) == len(got) and len(lam) == len(got))
    for k, (i, j) in enumerate(got):
        tot = sizes[i] + sizes[j]
        v = [api.const(0)] * 3 if i == j else [2 * x / tot for x in disp[i, j]]
        for c in range(3):
            api.eq('displacement %d%d[%d]' % (i, j, c), d[k][c], v[c])
        api.eq('distance %d%d' % (i, j), s[k], 0 if i == j else 2 * norm(api, disp[i, j]) / tot)
        api.eq('ratio %d%d' % (i, j), lam[k], sizes[j] / sizes[i])


def free(api, n, pattern, at=False):
    """pattern: pairs to be within the cutoff, or None to leave it open."""
    f = api.loader().load('functions.shared').close_particles
    cf = api.real('cutoff', 1, 3)
    a = [api.real('a%d' % i, 0.1, 3) for i in range(n)]
    x = [[api.const(0)] * 3] + vecs(api, 'x', n - 1, -20, 20)
    near, disp = [], {}
    for j in range(n):
        for i in range(j):
            d = sub(x[j], x[i])
            disp[i, j] = d
            l = norm(api, d)
            api.bound(l, 0.01, 70)
            lim = cf * (a[i] + a[j])
            if at:
                api.assume(l == lim)
            elif pattern is None:
                api.assume(l != lim)
                if api.branch(l < lim):
                    near.append((i, j))
            elif (i, j) in pattern:
                api.assume(l < lim)
                near.append((i, j))
            else:
                api.assume(l > lim)
    out = f(api.arr(x), api.arr(a), cf)
    check_pairs(api, out, near, disp, a, n)


def exact(api):
    """At the cutoff exactly, with exactly representable numbers."""
    f = api.loader().load('functions.shared').close_particles
    k = api.int('k', 1, 6)
    x = [[0.0, 0.0, 0.0], [4.0 * k, 0.0, 0.0]]
    out = f(api.arr(x), api.arr([1.0 * k, 1.0 * k]), 2)
    check_pairs(api, out, [], {}, [k, k], 2)


def periodic(api, n, pattern, sides, shifts, sense=None, g=None, cfs=None):
    f = api.loader().load('functions.shared').close_particles
    cf = api.const(cfs)
    a = [api.real('a%d' % i, 0.1, 1.4) for i in range(n)]
    L = [api.const(s) for s in sides]
    B = [[L[i] if i == j else api.const(0) for j in range(3)] for i in range(3)]
    O, E = [api.const(0)] * 3, [[api.const(0)] * 3 for _ in range(3)]
    if sense:
        i, j = SENSES[sense]
        O, E = shear(api, sense, api.const(g))
        B[j][i] = api.const(Fr(g) * sides[j] % sides[i])
    # fractional separations from the first particle within the nearest cell
    h = api.const(Fr(1, 2))
    w = Fr(49, 100)
    fr = [[api.const(0)] * 3] + [[api.real('f%d_%s' % (i, c), -w, w) for c in 'xyz'] for i in range(1, n)]
    if n > 2:
        for i, v in enumerate(((5, -4, 3), (-6, 5, 2), (4, 7, -5))[:n - 1]):
            fr[i + 1] = [api.const(Fr(k, 40)) for k in v]
    base = vec3(api, 'base', -20, 20)
    x = []
    for i in range(n):
        v = base
        for k in range(3):
            v = add(v, scale(fr[i][k] + shifts[i][k], B[k]))
        x.append(v)
    near, disp = [], {}
    for j in range(n):
        for i in range(j):
            w = [api.const(0)] * 3
            for k in range(3):
                df = fr[j][k] - fr[i][k]
                w = add(w, scale(df, B[k]))
            disp[i, j] = w
            l = norm(api, w)
            api.bound(l, 0.01, 40)
            lim = cf * (a[i] + a[j])
            if (i, j) in pattern:
                api.assume(l < lim)
                near.append((i, j))
            else:
                api.assume(l > lim)
    bl, tr = api.arr([-s * h for s in L]), api.arr([s * h for s in L])
    out = f(api.arr(x), api.arr(a), cf, bl, tr, api.arr(O), api.arr(E))
    check_pairs(api, out, near, disp, a, n)


T = ('thorough',)
z = (0, 0, 0)
HARNESSES = [
    H('free-2', free, n=2, pattern=None),
    H('free-3', free, n=3, pattern=None),
    H('free-4', free, n=4, pattern=[(0, 1), (1, 3)]),
    H('exact', exact),
    H('periodic-2-near', periodic, n=2, pattern=[(0, 1)], sides=(12, 12, 12), shifts=[z, z], cfs=2),
    H('periodic-2-far', periodic, n=2, pattern=[], sides=(12, 12, 12), shifts=[z, (1, 0, -1)], cfs=2),
    H('periodic-2-across', periodic, n=2, pattern=[(0, 1)], sides=(14, 12, 10), shifts=[z, (-1, 2, 1)], cfs=2),
    H('periodic-2-sheared', periodic, n=2, pattern=[(0, 1)], sides=(12, 12, 12), shifts=[z, (0, 0, 1)], cfs=2, sense='xz', g=Fr(1, 4)),
    H('periodic-2-sheared-xy', periodic, n=2, pattern=[(0, 1)], sides=(12, 12, 12), shifts=[(1, 0, 0), (0, -1, 0)], cfs=2, sense='xy', g=Fr(-1, 8)),
    H('periodic-2-sheared-far', periodic, n=2, pattern=[], sides=(12, 12, 12), shifts=[z, (0, 0, 1)], cfs=2, sense='xz', g=Fr(7, 4)),
    H('periodic-3', periodic, n=3, pattern=[(0, 1), (0, 2)], sides=(12, 12, 12), shifts=[z, (1, 0, 0), (0, -1, 0)], cfs=2),
    H('periodic-3-last', periodic, n=3, pattern=[(0, 2), (1, 2)], sides=(12, 12, 12), shifts=[z, (1, 0, 0), (0, -1, 0)], cfs=2),
    H('periodic-3-sheared', periodic, n=3, pattern=[(0, 2)], sides=(12, 12, 12), shifts=[z, (1, 0, 0), (0, -1, 1)], cfs=2, sense='xz', g=Fr(1, 4)),
    H('periodic-4', periodic, n=4, pattern=[(0, 1), (0, 3), (0, 2)], sides=(12, 12, 12), shifts=[z, (1, 0, 0), (0, -1, 0), (2, 0, 1)], cfs=2),
]
