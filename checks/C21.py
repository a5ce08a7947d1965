"""Position data and matrix blocks index every particle consistently."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import core

BOUNDS = ('block coordinates: any number of spheres and dumbbells up to 10^6 and any two particle numbers (symbolic '
          'integers); flattened data: 0-3 spheres and 0-2 dumbbells with any sizes and positions; orientation markers: '
          '0-3 spheres, any pair of direction vectors; saved files: 1-3 frames, any frame number; cubic lattice: any '
          'side length in [1/10,1000]')
OUTSIDE = 'more than 10^6 particles'
ASSUMPTIONS = ['block coordinates of a kind of particle are only used with numbers of that kind of particle']

BIG = 10 ** 6
# rows occupied by (force, torque, stresslet, first bead group, second bead group)
WIDTH = (3, 3, 5, 3, 3)
# (row kind, row particle, column kind, column particle) of each block in the order they are returned;
# particle 0/1 = first/second argument
ORDER = [(0, 0, 0, 1), (0, 0, 1, 1), (0, 1, 1, 0), (0, 0, 2, 1), (0, 1, 2, 0), (1, 0, 1, 1), (1, 0, 2, 1), (1, 1, 2, 0),
         (2, 0, 2, 1), (0, 0, 3, 1), (1, 0, 3, 1), (2, 0, 3, 1), (3, 0, 3, 1), (0, 0, 4, 1), (1, 0, 4, 1), (2, 0, 4, 1),
         (3, 0, 4, 1), (4, 0, 4, 1)]


def start(kind, i, n, m):
    """First row of particle i's block of the given kind."""
    return [3 * i, 3 * n + 3 * i, 6 * n + 5 * i, 11 * n + 3 * (i - n), 11 * n + 3 * m + 3 * (i - n - m)][kind]


def valid(api, kind, i, n, m):
    if kind <= 2:
        return api.And(i >= 0, i < n)
    if kind == 3:
        return api.And(i >= n, i < n + m)
    return api.And(i >= n + m, i < n + 2 * m)


def coords(api, tuples):
    sh = api.loader().load('functions.shared')
    n, m = api.int('n', 0, BIG), api.int('m', 0, BIG)
    a = [api.int('i', 0, 3 * BIG), api.int('j', 0, 3 * BIG)]
    f = sh.submatrix_coords_tuple if tuples else sh.submatrix_coords
    out = f(a[0], a[1], n, m)
    api.holds('number of blocks', len(out) == len(ORDER))
    for b, (rk, rp, ck, cp) in zip(out, ORDER):
        for side, k, p in ((0, rk, rp), (1, ck, cp)):
            first = b[side] if tuples else b[side].start
            api.eq('block %s start %d' % ((rk, rp, ck, cp), side), first, start(k, a[p], n, m))
            if not tuples:
                api.eq('block %s width %d' % ((rk, rp, ck, cp), side), b[side].stop - first, WIDTH[k])
                api.holds('block %s step %d' % ((rk, rp, ck, cp), side), b[side].step in (None, 1))


def tiling(api, kinds):
    """Blocks of different particles or kinds never overlap and stay inside."""
    sh = api.loader().load('functions.shared')
    n, m = api.int('n', 0, BIG), api.int('m', 0, BIG)
    a = [api.int('i', 0, 3 * BIG), api.int('j', 0, 3 * BIG)]
    p, q = kinds
    api.assume(valid(api, p, a[0], n, m))
    api.assume(valid(api, q, a[1], n, m))
    if p == q:
        api.assume(a[0] < a[1])
    out = sh.submatrix_coords(a[0], a[1], n, m)
    if (p, 0, q, 1) in ORDER:
        b = out[ORDER.index((p, 0, q, 1))]
        r, c = b[0], b[1]
    else:
        return
    api.holds('disjoint', api.Or(r.stop <= c.start, c.stop <= r.start))
    for s in (r, c):
        api.holds('inside', api.And(s.start >= 0, s.stop <= 11 * n + 6 * m))


def flat(api, n, m):
    sh = api.loader().load('functions.shared')
    sizes = [api.real('a%d' % i, Fr(1, 10), 10) for i in range(n)]
    bsizes = [api.real('b%d' % i, Fr(1, 10), 10) for i in range(m)]
    pos, bpos, dx = vecs(api, 'x', n, -50, 50), vecs(api, 'y', m, -50, 50), vecs(api, 'd', m, -50, 50)
    pd = posdata(api, sizes, pos, bsizes, bpos, dx)
    out = sh.posdata_data(pd)
    api.holds('counts', (out[6], out[7], out[11]) == (n, m, n + m) and list(out[12]) == [n, m])
    for i in range(n + m):
        api.eq('size %d' % i, out[8][i], (sizes + bsizes)[i])
        for k in range(3):
            api.eq('position %d,%d' % (i, k), out[9][i][k], (pos + bpos)[i][k])
            api.eq('bead vector %d,%d' % (i, k), out[10][i][k], 0 if i < n else dx[i - n][k])
    for i in range(n):
        api.eq('sphere size %d' % i, out[0][i], sizes[i])
        for k in range(3):
            api.eq('sphere %d,%d' % (i, k), out[1][i][k], pos[i][k])
            for j in range(2):
                api.eq('marker %d,%d,%d' % (i, j, k), out[2][i][j][k], pd[2][i][j][k])
    for i in range(m):
        api.eq('bead size %d' % i, out[3][i], bsizes[i])
        for k in range(3):
            api.eq('dumbbell %d,%d' % (i, k), out[4][i][k], bpos[i][k])
            api.eq('vector %d,%d' % (i, k), out[5][i][k], dx[i][k])
    api.holds('shapes', len(out[8]) == n + m and tuple(out[9].shape) == (n + m, 3) == tuple(out[10].shape))
    # where the five kinds of rows start, how wide they are and which particle comes first
    api.holds('row starts', list(out[14]) == [0, 3 * n, 6 * n, 11 * n, 11 * n + 3 * m])
    api.holds('row widths', list(out[15]) == [3, 3, 5, 3, 3])
    api.holds('row particles', list(out[13]) == [0, 0, 0, 1, 1] and list(out[16]) == [0, 0, 0, n, n])


def kinds_of(api):
    sh = api.loader().load('functions.shared')
    n, m, i = api.int('n', 0, BIG), api.int('m', 0, BIG), api.int('i', 0, 3 * BIG)
    api.assume(i < n + 2 * m)
    s = api.branch(sh.is_sphere(i, n))
    d = api.branch(sh.is_dumbbell(i, n))
    d1 = api.branch(sh.is_dumbbell_bead_1(i, n, m))
    d2 = api.branch(sh.is_dumbbell_bead_2(i, n, m))
    api.holds('exactly one', [s, d1, d2].count(True) == 1 and d == (not s))
    want = valid(api, 0 if s else 3 if d1 else 4, i, n, m)
    api.holds('right kind', want)


def markers(api, n):
    sh = api.loader().load('functions.shared')
    sizes = [api.real('a%d' % i, Fr(1, 10), 10) for i in range(n)]
    pos = vecs(api, 'x', n, -50, 50)
    v = vecs(api, 'v', 2, -2, 2)
    b = sh.add_sphere_rotations_to_positions(api.arr(pos) if n else empty3(api), api.arr(sizes) if n else np.array([]),
                                             api.arr(v))
    api.holds('shape', tuple(b.shape) == (n, 2, 3))
    for i in range(n):
        for j in range(2):
            for k in range(3):
                api.eq('marker %d,%d,%d' % (i, j, k), b[i][j][k], pos[i][k] + sizes[i] * v[j][k])


def saved(api, n, m, frames):
    """Starting again from a frame of a saved run."""
    ld = api.loader()
    sh = ld.load('functions.shared')
    centres = [vecs(api, 'c%d_' % f, n + m, -50, 50) for f in range(frames)]
    deltax = [vecs(api, 'd%d_' % f, m, -50, 50) for f in range(frames)]
    a, b = api.real('a', Fr(1, 10), 10), api.real('b', Fr(1, 10), 10)
    asked = []
    data = {'centres': api.arr(centres).reshape(frames, n + m, 3),
            'deltax': (api.arr(deltax) if m else np.empty((frames, 0, 3), dtype=object)).reshape(frames, m, 3)}

    def load(name, *x, **k):
        asked.append(str(name))
        return data
    old = ld.np.load
    ld.np.load = load
    try:
        for f in range(frames):
            S, X, R, B, Y, D = sh.same_setup_as('kept', frameno=f, sphere_size=a, dumbbell_size=b)
            api.holds('file', asked[-1].replace('\\', '/').split('/')[-1] == 'kept.npz')
            api.holds('counts %d' % f, (len(S), len(X), len(R), len(B), len(Y), len(D)) == (n, n, n, m, m, m))
            for i in range(n):
                api.eq('size %d,%d' % (f, i), S[i], a)
                for k in range(3):
                    api.eq('sphere %d,%d,%d' % (f, i, k), X[i][k], centres[f][i][k])
                    for j, v in enumerate(([1, 0, 0], [0, 0, 1])):
                        api.eq('marker %d,%d,%d,%d' % (f, i, j, k), R[i][j][k], centres[f][i][k] + a * v[k])
            for i in range(m):
                api.eq('bead size %d,%d' % (f, i), B[i], b)
                for k in range(3):
                    api.eq('dumbbell %d,%d,%d' % (f, i, k), Y[i][k], centres[f][n + i][k])
                    api.eq('vector %d,%d,%d' % (f, i, k), D[i][k], deltax[f][i][k])
    finally:
        ld.np.load = old


def lattice(api):
    mod = api.loader().load('setups.functions_positions')
    s = api.real('s', Fr(1, 10), 1000)
    pos, bl, tr = mod.simple_cubic_8(s)
    api.holds('shape', tuple(pos.shape) == (8, 3))
    h = s / 2
    for k in range(3):
        api.eq('box %d' % k, tr[k] - bl[k], s)
    # eight different lattice sites, all inside the box, next to each other half a box apart,
    # and the same distance again to the images across the boundary
    for i in range(8):
        for k in range(3):
            api.holds('inside %d,%d' % (i, k), api.And(pos[i][k] > bl[k], pos[i][k] < tr[k]))
        for j in range(i):
            diff = [pos[i][k] - pos[j][k] for k in range(3)]
            same = [api.branch(d == 0) for d in diff]
            api.holds('different %d,%d' % (i, j), not all(same))
            for k in range(3):
                if not same[k]:
                    api.eq('spacing %d,%d,%d' % (i, j, k), diff[k] * diff[k], h * h)


HARNESSES = [H('coordinates', coords, tuples=False), H('coordinates-tuple', coords, tuples=True)]
HARNESSES += [H('tiling-%d-%d' % (p, q), tiling, kinds=(p, q)) for p in range(5) for q in range(5) if (p, 0, q, 1) in ORDER]
HARNESSES += [H('kinds', kinds_of)]
HARNESSES += [H('flat-%d-%d' % (n, m), flat, n=n, m=m) for n in range(4) for m in range(3) if n + m]
HARNESSES += [H('markers-%d' % n, markers, n=n) for n in (1, 2, 3)]
HARNESSES += [H('saved-%d-%d' % (n, m), saved, n=n, m=m, frames=3) for n, m in ((1, 0), (2, 1), (0, 2), (1, 2))]
HARNESSES += [H('cubic', lattice)]
