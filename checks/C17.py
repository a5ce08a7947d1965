"""Background flow is added to every particle at its own position."""

from fractions import Fraction as Fr
import numpy as np
from common import *

BOUNDS = ('1-3 spheres and/or 1-3 dumbbells; positions in [-20,20], velocities, background translation and rotation in [-5,5], '
          'strain components (a different one per sphere where the interface allows it) in [-3,3], any flow centre in [-10,10]')
OUTSIDE = 'more particles (the formulas are per particle)'
ASSUMPTIONS = []


def flow(U, O, E, x, c):
    d = sub(x, c)
    return add(U, add(cross(O, d), matvec(E, d)))


def inputs(api, n, m, per_sphere=True):
    U, O, c = vec3(api, 'U', -5, 5), vec3(api, 'O', -5, 5), vec3(api, 'c', -10, 10)
    E = traceless(api, 'E', max(n, 1) if per_sphere else 1, -3, 3)
    if not per_sphere:
        E = E * max(n, 1)
    return U, O, c, E


def spheres(api, n):
    mod = api.loader().load('functions.timestepping')
    U, O, c, E = inputs(api, n, 0)
    x, u, o = vecs(api, 'x', n, -20, 20), vecs(api, 'u', n, -5, 5), vecs(api, 'o', n, -5, 5)
    A = api.arr
    Un, On = mod.add_background_flow_spheres(A(u), A(o), A(E), A(U), A(O), A(x), A(c))
    api.holds('shape', tuple(Un.shape) == (n, 3) and tuple(On.shape) == (n, 3))
    for i in range(n):
        f = flow(U, O, E[i], x[i], c)
        for k in range(3):
            api.eq('U%d[%d]' % (i, k), Un[i][k], u[i][k] + f[k])
            api.eq('O%d[%d]' % (i, k), On[i][k], o[i][k] + O[k])


def dumbbells(api, m, n=1):
    mod = api.loader().load('functions.timestepping')
    U, O, c, E = inputs(api, n, m, per_sphere=False)
    x, d = vecs(api, 'x', m, -20, 20), vecs(api, 'd', m, -5, 5)
    u, h = vecs(api, 'u', m, -5, 5), vecs(api, 'h', m, -5, 5)
    A = api.arr
    Un, Hn = mod.add_background_flow_dumbbells(A(u), A(h), A(E), A(U), A(O), A(x), A(d), A(c))
    api.holds('shape', tuple(Un.shape) == (m, 3) and tuple(Hn.shape) == (m, 3))
    half = api.const(Fr(1, 2))
    for i in range(m):
        f = flow(U, O, E[0], x[i], c)
        # the two beads individually
        b1 = flow(U, O, E[0], [p - half * q for p, q in zip(x[i], d[i])], c)
        b2 = flow(U, O, E[0], [p + half * q for p, q in zip(x[i], d[i])], c)
        for k in range(3):
            api.eq('U%d[%d]' % (i, k), Un[i][k], u[i][k] + f[k])
            api.eq('H%d[%d]' % (i, k), Hn[i][k], h[i][k] + half * (b2[k] - b1[k]))
            api.eq('bead1 %d[%d]' % (i, k), Un[i][k] - Hn[i][k], u[i][k] - h[i][k] + b1[k])


def settle(api, kind):
    """A lone force-free particle moves with the flow: whole chain from inputs
    to velocities."""
    ld = api.loader('s')
    inp = ld.load('setups.inputs')
    U, O, c, E = inputs(api, 1, 1, per_sphere=False)
    mu = api.real('mu', 0.1, 10)
    a = api.real('a', 0.1, 3)
    x = vec3(api, 'x', -20, 20)
    A = api.arr
    z = [api.const(0)] * 3
    n, m = (1, 0) if kind == 'sphere' else (0, 1)
    if m:
        l = api.real('l', 0.3, 10)
        d = [l * api.const(Fr(k, 3)) for k in (2, -1, 2)]
    if n:
        pd = posdata(api, [a], [x])
    else:
        api.assume(l > api.const(Fr(2001, 1000)) * a)
        pd = posdata(api, [], [], [a], [x], [d])
    st = ld.load('functions.simulation_tools')

    def given(num, posdata, frameno, timestep, last_velocities, input_form='undefined', **kw):
        (Fa, Ta, Sa, Sc, Fb, DFb, Ua, Oa, Ea, Ec, Ub, Hb) = st.empty_vectors(posdata)
        if n:
            Fa[:] = [[0, 0, 0]]
            Ta[:] = [[0, 0, 0]]
            Ea = A(E)
        else:
            Fb[:] = [[0, 0, 0]]
            DFb[:] = [[0, 0, 0]]
            Ea = A(E)
        zz = np.array([0, 0, 0])
        return (Fa, Ta, Sa, Sc, Fb, DFb, Ua, Oa, Ea, Ec, Ub, Hb, '', A(U), A(O), A(c),
                zz, np.zeros((3, 3)), zz, zz, mu)
    inp.input_ftsuoe = given
    ts = ld.load('functions.timestepping')
    if hasattr(ts, 'input_ftsuoe'):
        ts.input_ftsuoe = given
    (Fa, Ta, Sa, Fb, DFb, Ua, Oa, Ea, Ub, Hb, Minv, gt, Ui, Oi, cen, Ot, Et, wf, lv) = ts.generate_output_FTSUOE(
        pd, 0, 1, 1, np.array([0]), True, 'fte' if n else 'fts', 2, 0, False, True, False, [0, 0, 0], [0])
    f = flow(U, O, E[0], x, c)
    if n:
        Un, On = ts.add_background_flow_spheres(Ua, Oa, Ea, Ui, Oi, pd[1], cen)
        for k in range(3):
            api.eq('U[%d]' % k, Un[0][k], f[k])
            api.eq('O[%d]' % k, On[0][k], O[k])
        # Einstein stresslet
        for i in range(3):
            for j in range(3):
                api.eq('S[%d,%d]' % (i, j), Sa[0][i][j], Fr(20, 3) * api.pi * mu * a ** 3 * E[0][i][j])
    else:
        Un, Hn = ts.add_background_flow_dumbbells(Ub, Hb, Ea, Ui, Oi, pd[4], pd[5], cen)
        g = add(cross(O, d), matvec(E[0], d))
        half = api.const(Fr(1, 2))
        for k in range(3):
            api.eq('U[%d]' % k, Un[0][k], f[k])
            api.eq('H[%d]' % k, Hn[0][k], half * g[k])


T = ('thorough',)
HARNESSES = [
    H('spheres-1', spheres, n=1),
    H('spheres-3', spheres, n=3),
    H('dumbbells-1', dumbbells, m=1),
    H('dumbbells-3', dumbbells, m=3),
    H('dumbbells-spheres', dumbbells, m=2, n=2),
    H('spheres-5', spheres, n=5, tiers=T),
    H('settle-sphere', settle, kind='sphere'),
    H('settle-dumbbell', settle, kind='dumbbell'),
]
