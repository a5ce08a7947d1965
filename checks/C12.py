"""Wrapping into the periodic box moves particles by whole box vectors only."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import simrun

BOUNDS = ('1-2 positions in [-30,30]^3; box sides any reals in [2,12] (all three different allowed) for unsheared boxes, fixed sides for sheared ones; '
          'accumulated shear any real in [-3,3] in the xz, zx, xy and yx senses, cubic boxes also with two planes sheared at once; '
          'the whole periodic script for 1-2 frames of each scheme with one sphere and one dumbbell and any accumulated shear per evaluation')
OUTSIDE = 'positions further than 30 from the origin; boxes not centred on the origin (the code wraps about the origin)'
ASSUMPTIONS = ['in the runs of the whole script the hydrodynamics is replaced by free outputs']

SENSES = {'xz': (0, 2), 'zx': (2, 0), 'xy': (0, 1), 'yx': (1, 0)}


def shear(api, sense, g):
    """Accumulated rotation and strain of u_i = g x_j."""
    i, j = SENSES[sense]
    h = g / 2
    z = api.const(0)
    E = [[z] * 3 for _ in range(3)]
    E[i][j] = E[j][i] = h
    O = [z] * 3
    k = 3 - i - j
    # (O x e_j)_i = eps_{i k j} O_k = h
    O[k] = h * lev(i, k, j)
    return O, E


def box(api, sides, sense=None, sense2=None):
    if sides is None:
        L = [api.real('L%s' % c, 2, 12) for c in 'xyz']
    elif sides == 'cube':
        L = [api.real('L', 2, 12)] * 3
    else:
        L = [api.const(x) for x in sides]
    basis = [[L[i] if i == j else api.const(0) for j in range(3)] for i in range(3)]
    O, E = [api.const(0)] * 3, [[api.const(0)] * 3 for _ in range(3)]
    for s, nm in ((sense, 'g'), (sense2, 'g2')):
        if s:
            i, j = SENSES[s]
            g = api.real(nm, -3, 3)
            O2, E2 = shear(api, s, g)
            O = add(O, O2)
            E = [add(a, b) for a, b in zip(E, E2)]
            basis[j][i] = basis[j][i] + wrap1(api, g * L[j], L[i])
    return L, basis, O, E


def wrap1(api, x, L):
    """x modulo L in [0, L)"""
    return x % L


def wrap(api, sides, sense=None, sense2=None, n=1):
    ts = api.loader().load('functions.timestepping')
    L, basis, O, E = box(api, sides, sense, sense2)
    x = vecs(api, 'x', n, -30, 30)
    h = api.const(Fr(1, 2))
    bl, tr = api.arr([-l * h for l in L]), api.arr([l * h for l in L])
    y = ts.wrap_around(api.arr(x), bl, tr, Ot_infinity=api.arr(O), Et_infinity=api.arr(E))
    api.holds('shape', tuple(y.shape) == (n, 3))
    for p in range(n):
        f0, f1 = frac(api, x[p], basis), frac(api, list(y[p]), basis)
        for k in range(3):
            api.holds('inside %d.%d' % (p, k), api.And(f1[k] >= -h, f1[k] < h) if api.symbolic else -0.5 - 1e-9 <= f1[k] < 0.5 + 1e-9)
            m = f0[k] - f1[k]
            if api.symbolic:
                import sym
                api.eq('whole number of box vectors %d.%d' % (p, k), m, sym.sym_floor(m + h))
            else:
                api.eq('whole number of box vectors %d.%d' % (p, k), m, float(np.round(m)))
        if api.branch(api.And(*[api.And(f > -h, f < h) for f in f0])):
            for k in range(3):
                api.eq('already inside %d.%d' % (p, k), y[p][k], x[p][k])


def frac(api, v, b):
    """Coordinates of v along the box vectors."""
    vol = dot(b[0], cross(b[1], b[2]))
    return [dot(v, cross(b[(k + 1) % 3], b[(k + 2) % 3])) / vol for k in range(3)]


def basis_vectors(api, sense, sides):
    """Box vectors themselves: sheared by the accumulated strain modulo the box."""
    sh = api.loader().load('functions.shared')
    L, basis, O, E = box(api, sides, sense)
    A = api.arr
    can = A([[L[i] if i == j else api.const(0) for j in range(3)] for i in range(3)])
    B = sh.shear_basis_vectors(can, A(L), A(O), A(E))
    i, j = SENSES[sense]
    for a in range(3):
        for b in range(3):
            if (a, b) == (j, i):
                d = B[a][b]
                g = api.real('g', -3, 3)
                api.holds('tilt in range', api.And(d >= 0, d < L[i]) if api.symbolic else -1e-9 <= d < L[i] + 1e-9)
                q = (g * L[j] - d) / L[i]
                if api.symbolic:
                    import sym
                    api.eq('tilt is the shear modulo the box', q, sym.sym_floor(q + api.const(Fr(1, 2))))
                else:
                    api.eq('tilt is the shear modulo the box', q, float(np.round(q)))
            else:
                api.eq('B[%d,%d]' % (a, b), B[a][b], L[a] if a == b else 0)


def whole(api, sense):
    """After a whole number of box lengths the box is unsheared."""
    sh = api.loader().load('functions.shared')
    k = api.int('k', -6, 6)
    L = api.const(4)        # exact in machine arithmetic
    O, E = shear(api, sense, k)
    A = api.arr
    can = A([[L if i == j else api.const(0) for j in range(3)] for i in range(3)])
    B = sh.shear_basis_vectors(can, A([L] * 3), A(O), A(E))
    for a in range(3):
        for b in range(3):
            api.eq('B[%d,%d]' % (a, b), B[a][b], L if a == b else 0)


def run(api, scheme, frames):
    """A run wraps with its own box and the shear accumulated by that frame."""
    w = simrun.World(api, 1, 1, periodic=True, shear=False, background=False)
    try:
        log = w.run(timestepping_scheme=scheme, timestep=api.real('dt', Fr(1, 1000), 1), num_frames=frames,
                    input_form='fte')
        per = 4 if scheme == 'rk4' else 1
        api.holds('every frame wraps', {(g.after - 1) // per for g in log.wraps} == set(range(frames)))
        for q, g in enumerate(log.wraps):
            api.holds('wrap %d box' % q, [float(v) for v in g.bl] == [-20.] * 3 and [float(v) for v in g.tr] == [20.] * 3)
            # an evaluation of the frame in hand
            mine = [c.e for c in log.calls[(g.after - 1) // per * per:g.after]]
            got = list(g.Ot) + [v for r in g.Et for v in r]
            want = [[e.Ot, 0, 0, e.Et] + [0] * 8 for e in mine]
            want = next((v for v in want if simrun.same(api, got, v)), want[-1])
            for j, (x, v) in enumerate(zip(got, want)):
                api.eq('wrap %d shear[%d]' % (q, j), x, v)
    finally:
        w.close()


T = ('thorough',)
HARNESSES = [H('unsheared', wrap, sides=None), H('unsheared-cube-2', wrap, sides='cube', n=2)]
for s in SENSES:
    HARNESSES.append(H('sheared-' + s, wrap, sides=(4, 4, 4), sense=s))
    HARNESSES.append(H('basis-' + s, basis_vectors, sense=s, sides=None))
    HARNESSES.append(H('whole-' + s, whole, sense=s))
HARNESSES += [
    H('sheared-oblong', wrap, sides=(6, 4, 3), sense='xz'),
    H('sheared-two', wrap, sides=(4, 4, 4), sense='xz', sense2='xy', tiers=T),
    H('sheared-cube', wrap, sides='cube', sense='xz', tiers=T),
]
for scheme, frames in (('euler', 2), ('ab2', 2), ('rk4', 1)):
    HARNESSES.append(H('run-' + scheme, run, scheme=scheme, frames=frames))
