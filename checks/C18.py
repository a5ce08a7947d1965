"""Shear inputs describe one consistent shear flow and its time integral."""

from fractions import Fraction as Fr
import numpy as np
from common import *

BOUNDS = ('every shear rate and amplitude in [-5,5], period in [1/10,100], phase in [-7,7], timestep in [0,5], frame 0-10000, flow centre in [-10,10], '
          '0-4 spheres, both planes, transposed and opposite options; the shipped shear inputs through the input routine')
OUTSIDE = 'other values of the plane option'
ASSUMPTIONS = ['sine and cosine are uninterpreted functions of their argument (with range and derivative)']


def velocity_gradient(O, E):
    """G[i][j] = d u_i / d x_j"""
    return [[E[i][j] + sum(lev(i, k, j) * O[k] for k in range(3) if lev(i, k, j)) for j in range(3)] for i in range(3)]


def plane(axis, transpose):
    """(component of velocity, direction of gradient)"""
    p = (0, 2) if axis == 1 else (0, 1)
    return p[::-1] if transpose else p


def judge(api, out, n, rate, strain, where, centre):
    Ea, U, O, c, Ot, Et = out
    api.holds('one strain per sphere, at least one', len(Ea) == max(1, n))
    for k in range(3):
        api.eq('U[%d]' % k, U[k], 0)
        api.eq('centre[%d]' % k, c[k], centre[k])
    for s, E in enumerate(Ea):
        G = velocity_gradient(O, E)
        for i in range(3):
            for j in range(3):
                api.eq('gradient of sphere %d [%d,%d]' % (s, i, j), G[i][j], rate if (i, j) == where else 0)
                api.eq('strain symmetric %d [%d,%d]' % (s, i, j), E[i][j], E[j][i])
    G = velocity_gradient(Ot, Et)
    for i in range(3):
        for j in range(3):
            api.eq('accumulated [%d,%d]' % (i, j), G[i][j], strain if (i, j) == where else 0)
            api.eq('accumulated symmetric [%d,%d]' % (i, j), Et[i][j], Et[j][i])


def times(api):
    return api.int('frame', 0, 10000), api.real('dt', 0, 5)


def oscillatory(api, axis, transpose, opposite, n, default=False):
    f = api.loader().load('setups.functions_inputs').oscillatory_shear
    fr, dt = times(api)
    amp, T, ph = api.real('amp', -5, 5), api.real('T', 0.1, 100), api.real('phase', -7, 7)
    c = vec3(api, 'c', -10, 10)
    if default:
        out = f(amp, T, fr, dt)
        ph, c = 0, [0, 0, 0]
    else:
        out = f(amplitude=amp, period=T, frameno=fr, timestep=dt, phase=ph, centre_of_background_flow=api.arr(c),
                num_spheres=n, unused_axis=axis, transpose_shear=transpose, opposite_direction=opposite)
    w = 2 * api.pi / T
    s = -1 if opposite else 1
    judge(api, out, n, s * amp * w * api.cos(w * fr * dt + ph), s * amp * api.sin(w * fr * dt + ph), plane(axis, transpose), c)


def constant(api, n, default=False):
    f = api.loader().load('setups.functions_inputs').constant_shear
    fr, dt = times(api)
    g = api.real('g', -5, 5)
    c = vec3(api, 'c', -10, 10)
    if default:
        out = f(g, fr, dt)
        c = [0, 0, 0]
    else:
        out = f(gammadot=g, frameno=fr, timestep=dt, centre_of_background_flow=api.arr(c), num_spheres=n)
    judge(api, out, n, g, g * fr * dt, (0, 2), c)


def shipped(api, number, n, m):
    f = api.loader().load('setups.inputs').input_ftsuoe
    fr, dt = times(api)
    x, y, d = vecs(api, 'x', n, -9, 9), vecs(api, 'y', m, -9, 9), vecs(api, 'd', m, -3, 3)
    for v in d:
        api.bound(norm(api, v), 0.1, 6)
    pd = posdata(api, [1] * n, x, [api.const(Fr(1, 10))] * m, y, d)
    out = f(number, pd, fr, dt, [], input_form='fte')
    api.holds('number of results', len(out) == 21)
    (Fa, Ta, Sa, Sc, Fb, DFb, Ua, Oa, Ea, Ec, Ub, Hb, desc, U, O, c, Ot, Et, bl, tr, mu) = out
    if number == 3:
        w = 2 * api.pi / 10
        third = api.const(Fr(1, 3))
        judge(api, (Ea, U, O, c, Ot, Et), n, third * w * api.cos(w * fr * dt), third * api.sin(w * fr * dt), (0, 2),
              [Fr(9, 4), 0, Fr(9, 4)])
    else:
        judge(api, (Ea, U, O, c, Ot, Et), n, 1, fr * dt, (0, 2), [0, 0, 0])
    for i in range(n):
        for k in range(3):
            api.eq('F%d[%d]' % (i, k), Fa[i][k], 0)
            api.eq('T%d[%d]' % (i, k), Ta[i][k], 0)
    for i in range(m):
        l = norm(api, d[i])
        for k in range(3):
            api.eq('Fb%d[%d]' % (i, k), Fb[i][k], 0)
            # spring of natural length 2 and unit constant
            want = -(d[i][k] - 2 * d[i][k] / l) if number == 3 else 0
            api.eq('DFb%d[%d]' % (i, k), DFb[i][k], want)
    api.holds('not periodic', all(bool(bl[k] == tr[k]) for k in range(3)))
    api.eq('viscosity', mu, 1)


HARNESSES = [H('constant-%d' % n, constant, n=n) for n in (0, 1, 4)] + [H('constant-default', constant, n=1, default=True)]
for ax in (1, 2):
    for tr in (False, True):
        for op in (False, True):
            HARNESSES.append(H('oscillatory-%d%s%s' % (ax, '-transposed' * tr, '-opposite' * op), oscillatory,
                               axis=ax, transpose=tr, opposite=op, n=2 if ax == 1 else 0))
HARNESSES += [
    H('oscillatory-default', oscillatory, axis=1, transpose=False, opposite=False, n=1, default=True),
    H('input-oscillatory', shipped, number=3, n=2, m=1),
    H('input-oscillatory-dumbbells', shipped, number=3, n=0, m=2),
    H('input-constant', shipped, number=7, n=2, m=1),
]
