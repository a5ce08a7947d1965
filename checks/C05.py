"""Lubrication matrix is the pairwise sum of two-sphere resistance tensors."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import lub

BOUNDS = ('2 and 3 spheres, every tabulated size ratio 1/100..100 and both orders, base radius any real in [1/2,2], separation '
          'components any real within 8 times the larger radius scale, at any distance (touching, inside and outside the cutoff), viscosity in [1/10,10], cutoff factor in [1.1,2.2]; '
          'the interpolated scalars are uninterpreted functions of the separation')
OUTSIDE = 'coincident centres; size ratios absent from the table; more than three spheres'
ASSUMPTIONS = ['interpolant of every table row is an arbitrary function here; C06 decides that it is the linear interpolant']


def spheres(api, lams, near=None, order=None):
    ld = api.loader()
    mod = ld.load('functions.generate_R2Bexact')
    tab = lub.Tables(api, ld)
    n = len(lams)
    a = api.real('a', 0.5, 2)
    mu = api.real('mu', 0.1, 10)
    cf = api.real('cutoff', 1.1, 2.2)
    sizes = [a * api.const(l) for l in lams]
    w = 8 * max([1] + list(lams))
    pos = [[api.const(0)] * 3] + [vec3(api, 'x%d' % i, -w, w) for i in range(1, n)]
    for i in range(n):
        for j in range(i):
            d = norm(api, sub(pos[i], pos[j]))
            api.bound(d, 0.02, 4 * w)
            if near is not None:
                if (j, i) in near:
                    api.assume(2 * d < 2 * cf * (sizes[i] + sizes[j]))
                else:
                    api.assume(2 * d > 2 * cf * (sizes[i] + sizes[j]))
    pd = posdata(api, sizes, pos)
    R, name = mod.generate_R2Bexact(pd, 0, cutoff_factor=cf, frameno=0, mu=mu)
    W = lub.lubrication(api, tab, sizes, [Fr(l) for l in lams], pos,
                        lambda i, j, s: api.branch(s < 2 * cf))
    api.holds('shape', tuple(R.shape) == W.shape)
    for i in range(11 * n):
        for j in range(11 * n):
            api.eq('R[%d,%d]' % (i, j), R[i, j], mu * W[i, j])


L = {'1': Fr(1), 'x10': Fr(10), 'd10': Fr(1, 10), 'x100': Fr(100), 'd100': Fr(1, 100)}
HARNESSES = [H('pair-' + k, spheres, lams=[Fr(1), v]) for k, v in L.items()]
HARNESSES += [H('three-equal', spheres, lams=[Fr(1)] * 3),
              H('three-mixed', spheres, lams=[Fr(1), Fr(10), Fr(1)]),
              H('three-mixed-2', spheres, lams=[Fr(1), Fr(10), Fr(100)], tiers=('thorough',)),
              H('three-mixed-3', spheres, lams=[Fr(10), Fr(1), Fr(1)], tiers=('thorough',))]
