"""Randomly placed particles lie in the region and do not overlap."""

from fractions import Fraction as Fr
import io
import sys
import types
import numpy as np
from common import *

BOUNDS = ('every sequence of random numbers with at most two rejected proposals (one for dumbbells); 1-3 new spheres, '
          '0-1 spheres already there, 1-2 dumbbells; box corners any reals (fixed for periodic placement), radii any '
          'reals in [1/20,2], bead separation any real in [1/2,3]; flat and three-dimensional boxes')
OUTSIDE = ('longer runs of rejected proposals (each proposal is judged on its own); periodic boxes narrower than four '
           'bead separations; termination when the region is full')
ASSUMPTIONS = ['after the last particle is placed, the minimum, the closest pair and the mean pitch only feed printed statistics']


class Shown:
    """A statistic that is only printed."""
    __array_ufunc__ = None

    def op(self, *a, **k):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __getitem__ = op

    def __eq__(self, o):
        return False

    def __format__(self, f):
        return ''


class Dice:
    """np.random.rand as free numbers in [0,1]."""

    def __init__(self, api, ld, limit, given=()):
        self.given = given
        self.api, self.ld, self.np, self.limit, self.k = api, ld, ld.np, limit, 0

    def one(self):
        self.k += 1
        if self.k > self.limit:
            self.api.assume(False)
        if self.k <= len(self.given):
            lo, hi = self.given[self.k - 1]
            return self.api.const(lo) if lo == hi else self.api.real('u%d' % self.k, lo, hi)
        return self.api.real('u%d' % self.k, 0, 1)

    def said(self, *a, **k):
        # everything is placed: what follows only feeds the printed statistics
        if any('succeeded' in str(x) for x in a):
            n = self.np
            n.min = n.amin = lambda a, *r, **k: Shown()
            n.nonzero = lambda a: np.nonzero(np.vectorize(lambda v: str(v) not in ('0', '0.0'), otypes=[bool])(a))
            n.where = lambda c, *xy: (('closest',),)
            n.arccos = lambda a: self.api.const(1)
            n.mean = lambda a, *r, **k: 1.0

    def __enter__(self):
        self.out = sys.stdout
        sys.stdout = io.StringIO()
        if self.api.symbolic:
            self.api.ctx.feas_timeout = 200      # an undecided branch is explored
            self.np.random.source = self.one
            self.kept = dict(vars(self.np))
            self.ld.builtins['print'] = self.said
        else:
            r = self.np.random
            self.old = r.rand, r.random, r.uniform

            def draw(*shape):
                a = np.empty(shape)
                for i in np.ndindex(*shape):
                    a[i] = self.one()
                return a if shape else float(a)
            r.rand = draw
            r.random = lambda size=None: draw(*(() if size is None else size if isinstance(size, tuple) else (size,)))
            r.uniform = lambda lo=0., hi=1., size=None: lo + (hi - lo) * r.random(size)
        return self

    def __exit__(self, *a):
        sys.stdout = self.out
        if self.api.symbolic:
            self.np.random.source = None
            vars(self.np).clear()
            vars(self.np).update(self.kept)
            self.ld.builtins['print'] = self.ld._print
        else:
            r = self.np.random
            r.rand, r.random, r.uniform = self.old
        return False


def box(api, flat, fixed=None):
    if fixed:
        bl = [api.const(0)] * 3
        tr = [api.const(Fr(v)) for v in fixed]
        return bl, tr
    bl = vec3(api, 'bl', -10, 10)
    dims = [api.real('L_%s' % k, 1, 20) for k in 'xyz']
    if flat:
        dims[1] = api.const(0)
    return bl, add(bl, dims)


def inside(api, name, p, bl, tr):
    # a hair of room for rounding
    e = api.const(Fr(1, 10 ** 9))
    for k in range(3):
        api.holds('%s in box [%d]' % (name, k), api.And(p[k] >= bl[k] - e, p[k] <= tr[k] + e))


def apart(api, name, p, q, r):
    api.holds(name, norm(api, sub(p, q)) >= r - api.const(Fr(1, 10 ** 9)))


def spheres(api, n, c, flat=False, extra=1):
    ld = api.loader()
    mod = ld.load('setups.functions_positions')
    bl, tr = box(api, flat)
    A = api.arr
    rad = [api.real('a%d' % i, Fr(1, 20), 2) for i in range(n)]
    crad = [api.real('c%d' % i, Fr(1, 20), 2) for i in range(c)]
    cpos = vecs(api, 'y', c, -10, 10)
    with Dice(api, ld, 3 * (n + extra)):
        out = mod.randomise_spheres(A(bl), A(tr), A(rad), A(crad) if c else np.array([]), A(cpos) if c else empty3(api))
    api.holds('count', tuple(out.shape) == (n, 3))
    for i in range(n):
        p = list(out[i])
        inside(api, 'sphere %d' % i, p, bl, tr)
        for j in range(i):
            apart(api, 'spheres %d,%d' % (j, i), list(out[j]), p, rad[i] + rad[j])
        for j in range(c):
            apart(api, 'sphere %d, existing %d' % (i, j), cpos[j], p, rad[i] + crad[j])


def beads(x, d):
    h = Fr(1, 2) if not isinstance(x[0], float) else 0.5
    return [[p - h * q for p, q in zip(x, d)], [p + h * q for p, q in zip(x, d)]]


def dumbbells(api, m, c, flat=False, extra=0, angles='r', fixed=None, top=2, given=()):
    ld = api.loader()
    mod = ld.load('setups.functions_positions')
    bl, tr = box(api, flat, fixed)
    A = api.arr
    rad = [api.real('a%d' % i, Fr(1, 20), top) for i in range(m)]
    crad = [api.real('c%d' % i, Fr(1, 20), top) for i in range(c)]
    cpos = vecs(api, 'y', c, -10, 10)
    dx = api.real('dx', Fr(1, 2), 3)
    kw = {}
    per = 5
    if angles == 'plane':
        kw = {'phi': 0}
        per = 4
    elif angles == 'up':
        kw = {'phi': 0, 'theta': 0}
        per = 3
    with Dice(api, ld, per * m + extra, given):
        x, d = mod.randomise_dumbbells(A(bl), A(tr), A(rad), dx=dx, current_sphere_sizes=A(crad) if c else np.array([]),
                                       current_sphere_positions=A(cpos) if c else empty3(api), **kw)
    api.holds('count', tuple(x.shape) == (m, 3) and tuple(d.shape) == (m, 3))
    B = [beads(list(x[i]), list(d[i])) for i in range(m)]
    for i in range(m):
        api.eq('separation %d' % i, dot(list(d[i]), list(d[i])), dx * dx)
        for s in range(2):
            inside(api, 'bead %d of %d' % (s, i), B[i][s], bl, tr)
            for j in range(c):
                apart(api, 'bead %d of %d, existing %d' % (s, i, j), cpos[j], B[i][s], rad[i] + crad[j])
            for j in range(i):
                for t in range(2):
                    apart(api, 'bead %d of %d, bead %d of %d' % (s, i, t, j), B[i][s], B[j][t], rad[i] + rad[j])


def periodic(api, m, c, flat=True, at=(Fr(15, 2), 4), given=()):
    ld = api.loader()
    mod = ld.load('setups.functions_positions')
    bl, tr = box(api, flat, fixed=(8, 0 if flat else 8, 8))
    A = api.arr
    rad = [api.const(Fr(1, 2))] * m
    crad = [api.const(Fr(1))] * c
    cpos = [[api.const(at[0]), api.const(0), api.const(at[1])]] if c else []
    dx = api.const(2)
    with Dice(api, ld, 4 * m, given):
        x, d = mod.randomise_dumbbells_periodic(A(bl), A(tr), A(rad), dx=dx, phi=0,
                                                current_sphere_sizes=A(crad) if c else np.array([]),
                                                current_sphere_positions=A(cpos) if c else empty3(api))
    x = [api.fix_ints(list(x[i])) for i in range(m)]
    B = [beads(list(x[i]), list(d[i])) for i in range(m)]
    for i in range(m):
        api.eq('separation %d' % i, dot(list(d[i]), list(d[i])), dx * dx)
        for k in (0, 2):
            api.holds('centre %d in box [%d]' % (i, k), api.And(x[i][k] >= -Fr(1, 10 ** 9), x[i][k] <= 8 + Fr(1, 10 ** 9)))
        for s in range(2):
            for j in range(c):
                for u in (-1, 0, 1):
                    for v in (-1, 0, 1):
                        q = add(cpos[j], [8 * u, 0, 8 * v])
                        apart(api, 'bead %d of %d, existing %d image %d,%d' % (s, i, j, u, v), q, B[i][s], rad[i] + crad[j])
            for j in range(i):
                for t in range(2):
                    for u in (-1, 0, 1):
                        for v in (-1, 0, 1):
                            q = add(B[j][t], [8 * u, 0, 8 * v])
                            apart(api, 'bead %d of %d, bead %d of %d image %d,%d' % (s, i, t, j, u, v), q, B[i][s],
                                  rad[i] + rad[j])


def quadrilateral(api, m, c):
    ld = api.loader()
    mod = ld.load('setups.functions_positions')
    A = api.arr
    rad = [api.real('a%d' % i, Fr(1, 20), 2) for i in range(m)]
    size = api.real('c', Fr(1, 20), 2)
    cpos = vecs(api, 'y', c, -10, 10)
    corners = [[0, 0], [8, 1], [6, 9], [-1, 7]]
    with Dice(api, ld, 6 * m):
        x, d = mod.randomise_beads_inside_quadrilateral(np.array(corners), A(rad), A(cpos) if c else empty3(api), size)
    api.holds('count', tuple(x.shape) == (m, 3) and tuple(d.shape) == (m, 3))
    B = [beads(list(x[i]), list(d[i])) for i in range(m)]
    e = Fr(1, 10 ** 9)
    flat = [(i, s) for i in range(m) for s in range(2)]
    for q, (i, s) in enumerate(flat):
        p = B[i][s]
        api.holds('bead %d of %d in plane' % (s, i), api.And(p[1] >= -e, p[1] <= e))
        for k in range(4):
            (x0, y0), (x1, y1) = corners[k], corners[(k + 1) % 4]
            api.holds('bead %d of %d inside edge %d' % (s, i, k),
                      (x1 - x0) * (p[2] - y0) - (y1 - y0) * (p[0] - x0) >= -e)
        for j in range(c):
            apart(api, 'bead %d of %d, existing %d' % (s, i, j), cpos[j], p, rad[i] + size)
        for (j, t) in flat[:q]:
            apart(api, 'bead %d of %d, bead %d of %d' % (s, i, t, j), p, B[j][t], rad[i] + rad[j])


HARNESSES = [
    H('spheres-1', spheres, n=1, c=1, extra=2),
    H('spheres-2', spheres, n=2, c=0, extra=1),
    H('spheres-2-existing', spheres, n=2, c=1, extra=1),
    H('spheres-flat', spheres, n=2, c=1, flat=True, extra=1),
    H('dumbbell', dumbbells, m=1, c=1, extra=0),
    H('dumbbell-flat', dumbbells, m=1, c=1, extra=1, flat=True, angles='plane'),
    H('dumbbells-2', dumbbells, m=2, c=0, angles='up', flat=True, fixed=(10, 0, 10), top=Fr(1, 2), max_paths=600),
    H('dumbbells-2-turned', dumbbells, m=2, c=0, angles='plane', flat=True, fixed=(10, 0, 10), top=Fr(1, 2),
      given=((Fr(2, 5), Fr(3, 5)),) * 3, max_paths=600),
    H('periodic', periodic, m=1, c=1),
    H('periodic-x', periodic, m=1, c=1, at=(Fr(1, 4), 4)),
    H('periodic-z', periodic, m=1, c=1, at=(4, Fr(1, 4))),
    H('periodic-z-top', periodic, m=1, c=1, at=(4, Fr(31, 4))),
    H('periodic-2', periodic, m=2, c=0, given=((Fr(15, 16), Fr(15, 16)), (0, 0), (Fr(1, 16), Fr(1, 16)), (0, 0)), max_paths=600),
    H('quadrilateral', quadrilateral, m=1, c=1, max_paths=600),
    H('spheres-3', spheres, n=3, c=1, extra=1, tiers=('thorough',), max_paths=600, limit_s=600),
]
