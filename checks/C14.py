"""Sphere orientation markers rotate rigidly with the sphere."""

from fractions import Fraction as Fr
import numpy as np
from common import *

BOUNDS = ('1-2 spheres; angular velocity along each axis, in each coordinate plane or of general direction with every '
          'magnitude up to 5; marker vectors, old and new centres and timestep in (0,1] free')
OUTSIDE = 'a marker point exactly at the sphere centre'
ASSUMPTIONS = []


def rodrigues(api, W, q, dt):
    """q turned about W through |W| dt."""
    w = norm(api, W)
    n = [x / w for x in W]
    c, s = api.cos(w * dt), api.sin(w * dt)
    nq, nxq = dot(n, q), cross(n, q)
    return [c * q[k] + s * nxq[k] + (1 - c) * nq * n[k] for k in range(3)]


def turn(api, kind, n=1, previous=False, basis=None, along=False):
    mod = api.loader().load('functions.timestepping')
    dt = api.real('dt', Fr(1, 1000), 1)
    x, xn = vecs(api, 'x', n, -10, 10), vecs(api, 'xn', n, -10, 10)
    q = [] if basis else [vecs(api, 'q%d' % i, 2, -2, 2) for i in range(n)]
    for v in sum(q, []):
        api.assume(dot(v, v) > Fr(1, 100))
    W = []
    z = api.const(0)
    for i in range(n):
        k = kind[i % len(kind)] if isinstance(kind, (list, tuple)) else kind
        v = {a: api.real('W%d%s' % (i, a), -5, 5) for a in 'xyz'}
        w = [v[a] if a in k else z for a in 'xyz']
        for a in k:
            api.assume(api.Or(v[a] > Fr(1, 100), v[a] < -Fr(1, 100)))
        W.append(w)
        if basis:
            # marker = components along the axis and two directions across it
            e1 = cross(w, basis)
            e2 = cross(w, e1)
            q.append([])
            for j in range(2):
                a, b, c = vec3(api, 'm%d%d' % (i, j), -2, 2)
                if along:
                    a = b = z
                    api.assume(c * c > Fr(1, 100))
                else:
                    api.assume(a * a + b * b > Fr(1, 100))
                q[-1].append([a * e1[t] + b * e2[t] + c * w[t] for t in range(3)])
    A = api.arr
    rot = A([[add(x[i], q[i][j]) for j in range(2)] for i in range(n)])
    new = A([[[0.0 if not api.symbolic else z] * 3 for j in range(2)] for i in range(n)])
    if previous:
        prev = vecs(api, 'P', n, -2, 2)
        now = [[(w + half(api) * p) / api.const(Fr(3, 2)) for w, p in zip(W[i], prev[i])] for i in range(n)]
        out = mod.ab2_timestep_rotation(A(x), rot, A(xn), new, A(now), A(prev), dt)
    else:
        out = mod.euler_timestep_rotation(A(x), rot, A(xn), new, A(W), dt)
    api.holds('shape', tuple(out.shape) == (n, 2, 3))
    for i in range(n):
        for j in range(2):
            want = rodrigues(api, W[i], q[i][j], dt) if any(k for k in W[i] if k is not z) else q[i][j]
            for k in range(3):
                api.eq('marker %d,%d[%d]' % (i, j, k), out[i][j][k], xn[i][k] + want[k])


def half(api):
    return api.const(Fr(1, 2))


def still(api, n):
    mod = api.loader().load('functions.timestepping')
    dt = api.real('dt', Fr(1, 1000), 1)
    x, xn = vecs(api, 'x', n, -10, 10), vecs(api, 'xn', n, -10, 10)
    q = [vecs(api, 'q%d' % i, 2, -2, 2) for i in range(n)]
    for i in range(n):
        for j in range(2):
            api.assume(dot(q[i][j], q[i][j]) > Fr(1, 100))
    A = api.arr
    z = api.const(0) if api.symbolic else 0.0
    rot = A([[add(x[i], q[i][j]) for j in range(2)] for i in range(n)])
    new = A([[[z] * 3 for j in range(2)] for i in range(n)])
    out = mod.euler_timestep_rotation(A(x), rot, A(xn), new, A([[z] * 3 for i in range(n)]), dt)
    for i in range(n):
        for j in range(2):
            for k in range(3):
                api.eq('marker %d,%d[%d]' % (i, j, k), out[i][j][k], xn[i][k] + q[i][j][k])


HARNESSES = [
    H('x', turn, kind='x'),
    H('y', turn, kind='y'),
    H('z', turn, kind='z'),
    H('xy', turn, kind='xy', basis=(1, 0, 0)),
    H('yz', turn, kind='yz', basis=(1, 0, 0)),
    H('xz', turn, kind='xz', basis=(1, 0, 0)),
    H('xyz', turn, kind='xyz', basis=(1, 0, 0)),
    H('along', turn, kind='xyz', basis=(1, 0, 0), along=True),
    H('two', turn, kind=['z', 'y'], n=2, basis=(1, 0, 0)),
    H('still', still, n=1),
    H('still-two', still, n=2, tiers=('thorough',)),
    H('ab2', turn, kind='z', previous=True),
]
