"""Repulsion forces are central, equal and opposite, and only act at short range."""

from fractions import Fraction as Fr
import numpy as np
from common import *

BOUNDS = ('2-3 spheres, 1 sphere with 1 dumbbell, 2 dumbbells; positions in [-8,8]^3, radii in [1/10,3], strength in [0,100], decay rate in [0,50], '
          'forces already present in [-5,5], 0 or 1 sphere in each lid; every combination of overlapping, close and separate for two particles')
OUTSIDE = 'coincident particles; separations exactly at contact or at the cutoff'
ASSUMPTIONS = ['exp is an uninterpreted function of its argument']

STATE = ('overlap', 'close', 'apart')


def gap_state(api, x, y, a, b, state):
    d = sub(y, x)
    l = norm(api, d)
    api.bound(l, 0.02, 50)
    h = 2 * l / (a + b)
    if state is None:
        api.assume(h != 2)
        api.assume(h != api.const(Fr(11, 5)))
        state = 'overlap' if api.branch(h < 2) else ('close' if api.branch(h < api.const(Fr(11, 5))) else 'apart')
    elif state == 'overlap':
        api.assume(h < 2)
    elif state == 'close':
        api.assume(h > 2)
        api.assume(h < api.const(Fr(11, 5)))
    else:
        api.assume(h > api.const(Fr(11, 5)))
    return state


def push(api, x, y, a, b, state, strength, tau):
    """Force on the particle at x from the one at y."""
    if state == 'apart':
        return [api.const(0)] * 3
    d = sub(x, y)
    l = norm(api, d)
    f = strength * 2 * a * b / (a + b)
    if state == 'close':
        f = f * api.exp(-tau * (2 * l / (a + b) - 2))
    return [f * c / l for c in d]


def forces(api, n, m, states, lid=0):
    """states: one per bead pair (i<j, beads: spheres, first beads, second beads)."""
    fn = api.loader().load('setups.functions_inputs').repulsion_forces
    k, tau = api.real('strength', 0, 100), api.real('tau', 0, 50)
    a = [api.real('a%d' % i, 0.1, 3) for i in range(n)]
    b = [api.real('b%d' % i, 0.1, 3) for i in range(m)]
    beads = vecs(api, 'x', n + 2 * m, -8, 8)
    beads[0] = [api.const(0)] * 3
    sizes = a + b + b
    N = n + 2 * m
    F = [[api.const(0)] * 3 for _ in range(N)]
    q = 0
    for j in range(N):
        for i in range(j):
            st = states[q] if states else None
            q += 1
            st = gap_state(api, beads[i], beads[j], sizes[i], sizes[j], st)
            f = push(api, beads[i], beads[j], sizes[i], sizes[j], st, k, tau)
            F[i] = add(F[i], f)
            F[j] = sub(F[j], f)
    h = api.const(Fr(1, 2))
    p, r = beads[n:n + m], beads[n + m:]
    c = [[h * (u + v) for u, v in zip(p[i], r[i])] for i in range(m)]
    dx = [sub(r[i], p[i]) for i in range(m)]
    A = api.arr
    Fa, Fb, DF = vecs(api, 'Fa', n, -5, 5), vecs(api, 'Fb', m, -5, 5), vecs(api, 'DF', m, -5, 5)
    e = empty3(api)
    args = (k, tau, n, m, A(beads[:n]) if n else e, A(c) if m else e, A(dx) if m else e,
            A(a) if n else np.array([]), A(b) if m else np.array([]), lid)
    oFa, oFb, oDF = fn(*args, [list(v) for v in Fa], [list(v) for v in Fb], [list(v) for v in DF])
    for i in range(n):
        for t in range(3):
            api.eq('sphere %d[%d]' % (i, t), oFa[i][t], Fa[i][t] + (0 if i < 2 * lid else F[i][t]))
    for i in range(m):
        for t in range(3):
            api.eq('dumbbell %d total[%d]' % (i, t), oFb[i][t], Fb[i][t] + F[n + i][t] + F[n + m + i][t])
            api.eq('dumbbell %d difference[%d]' % (i, t), oDF[i][t], DF[i][t] + F[n + m + i][t] - F[n + i][t])


def lists(api):
    """Called from the shipped input: lists of prescribed forces."""
    f = api.loader().load('setups.inputs').input_ftsuoe
    a, b = api.real('a', 0.1, 3), api.real('b', 0.1, 3)
    x, y, p, r = [api.const(0)] * 3, vec3(api, 'y', -8, 8), vec3(api, 'p', -8, 8), vec3(api, 'r', -8, 8)
    beads, sizes = [x, y, p, r], [a, a, b, b]
    sts = {(0, 1): 'close', (0, 2): 'overlap', (1, 2): 'apart', (0, 3): 'apart', (1, 3): 'apart', (2, 3): 'apart'}
    F = [[api.const(0)] * 3 for _ in range(4)]
    for (i, j), st in sts.items():
        gap_state(api, beads[i], beads[j], sizes[i], sizes[j], st)
        g = push(api, beads[i], beads[j], sizes[i], sizes[j], st, 50, 20)
        F[i], F[j] = add(F[i], g), sub(F[j], g)
    h = api.const(Fr(1, 2))
    pd = posdata(api, [a, a], [x, y], [b], [[h * (u + v) for u, v in zip(p, r)]], [sub(r, p)])
    out = f(4, pd, 0, api.const(Fr(1, 10)), [], input_form='fte')
    for i in range(2):
        for t in range(3):
            api.eq('sphere %d[%d]' % (i, t), out[0][i][t], F[i][t])
    for t in range(3):
        api.eq('dumbbell total[%d]' % t, out[4][0][t], F[2][t] + F[3][t])
        api.eq('dumbbell difference[%d]' % t, out[5][0][t], F[3][t] - F[2][t])


o, c, p = STATE
T = ('thorough',)
HARNESSES = [
    H('spheres-2', forces, n=2, m=0, states=None),
    H('spheres-3-close', forces, n=3, m=0, states=(c, c, c)),
    H('spheres-3-mixed', forces, n=3, m=0, states=(o, p, c)),
    H('spheres-3-lid', forces, n=3, m=0, states=(c, o, c), lid=1),
    H('sphere-dumbbell', forces, n=1, m=1, states=(c, o, p)),
    H('sphere-dumbbell-own', forces, n=1, m=1, states=(p, p, c)),
    H('dumbbell', forces, n=0, m=1, states=None),
    H('dumbbells-2', forces, n=0, m=2, states=(c, p, o, p, p, c)),
    H('spheres-2-dumbbell', forces, n=2, m=1, states=(c, p, c, p, o, p), lid=0),
    H('shipped', lists),
    H('spheres-3', forces, n=3, m=0, states=None),
]
