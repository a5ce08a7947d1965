"""All solving modes return one consistent set of forces and velocities."""

import random
import numpy as np
from common import *

BOUNDS = ('up to 3 spheres and 3 dumbbells with every split into fixed-velocity and free particles; all prescribed '
          'values any real in [-2,2]; resistance matrices D*R0*D with R0 a dense symmetric positive definite rational '
          'matrix (fixed per configuration) and D any positive diagonal in [1/2,2]')
OUTSIDE = 'resistance matrices outside the family D*R0*D; more particles; conditioning of the floating-point solve'
ASSUMPTIONS = ['grand resistance matrix generation replaced by the symbolic family D*R0*D (its content is the subject of C03, C05, C07)',
               'user input function replaced by one returning symbolic prescribed values, which it leaves out when told to skip the computation']


def base_matrix(n, seed):
    rng = random.Random(seed)
    A = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            A[i][j] = A[j][i] = rng.randint(-3, 3)
    for i in range(n):
        A[i][i] = sum(abs(x) for x in A[i]) + rng.randint(1, 5)
    return A


def solve(api, mode, n, m, nfs=0, nfd=0, extract=False, cache=False):
    ld = api.loader()
    ggrm = ld.load('functions.generate_grand_resistance_matrix')
    inp = ld.load('setups.inputs')
    size = 11 * n + 6 * m
    R0 = base_matrix(size, 10 * n + m)
    p = [api.real('p%d' % i, 0.5, 2) for i in range(size)]
    R = api.arr([[p[i] * p[j] * R0[i][j] for j in range(size)] for i in range(size)])
    marker = api.arr([[1.5]])

    shared = R.copy()

    def fake(*a, **k):
        if cache:       # far-field only: matrix and cached inverse are one object
            return shared, 'stub', shared, [0, 0, 0]
        return R.copy(), 'stub', marker, [0, 0, 0]
    ggrm.generate_grand_resistance_matrix = fake
    ggrm.generate_grand_resistance_matrix_periodic = fake
    P3 = ['pippa'] * 3
    F, T = vecs(api, 'F', n), vecs(api, 'T', n)
    S, E = traceless(api, 'S', n), traceless(api, 'E', n)
    U = vecs(api, 'U', n)
    Fb, DF, Ub, DU = (vecs(api, k, m) for k in ('Fb', 'DF', 'Ub', 'DU'))
    P33 = [P3, P3, P3]
    Fa_in = [list(P3) if i < nfs else list(F[i]) for i in range(n)]
    Ua_in = [list(U[i]) if i < nfs else list(P3) for i in range(n)]
    Fb_in = [list(P3) if i < nfd else list(Fb[i]) for i in range(m)]
    DF_in = [list(P3) if i < nfd else list(DF[i]) for i in range(m)]
    Ub_in = [list(Ub[i]) if i < nfd else list(P3) for i in range(m)]
    DU_in = [list(DU[i]) if i < nfd else list(P3) for i in range(m)]
    Ta_in = [list(t) for t in T]
    Sa_in = S if mode == 'fts' else [P33] * n
    Ea_in = E if mode != 'fts' else [P33] * max(n, 0)
    z = [0, 0, 0]

    def unless(skip, x):
        # an input may leave out what takes time when it is told that it is not needed
        return [v if isinstance(v, str) else api.const(0) for v in x] if skip else list(x)

    def fake_input(number, data, frameno, timestep, last, input_form='undefined', skip_computation=False,
                   grand_resistance_matrix_fte=0):
        skip = skip_computation
        return ([unless(skip, x) for x in Fa_in], [unless(skip, x) for x in Ta_in], [[list(y) for y in x] for x in Sa_in],
                [['pippa'] * 5] * n, [unless(skip, x) for x in Fb_in], [unless(skip, x) for x in DF_in],
                [list(x) for x in Ua_in], [list(P3) for _ in range(n)], [[list(y) for y in x] for x in Ea_in],
                [['pippa'] * 5] * n, [list(x) for x in Ub_in], [list(x) for x in DU_in], '',
                api.arr(z), api.arr(z), api.arr(z), api.arr(z), api.arr([z, z, z]), api.arr(z), api.arr(z), 1)
    inp.input_ftsuoe = fake_input
    ts = ld.load('functions.timestepping')
    pd = posdata(api, [1] * n, [[4.0 * i, 0.0, 0.0] for i in range(n)],
                 [1] * m, [[0.0, 4.0 * i, 9.0] for i in range(m)], [[2.5, 0.0, 0.0]] * m)
    out = ts.generate_output_FTSUOE(pd, 0, 0.1, 1, marker, True, mode, 2, 0, False, False, extract, [], [])
    if extract:
        # wall force due to the dumbbells = change when their forces are removed
        Fb_in = [[api.const(0)] * 3 for i in range(m)]
        DF_in = [[api.const(0)] * 3 for i in range(m)]
        ref = ts.generate_output_FTSUOE(pd, 0, 0.1, 1, marker, True, mode, 2, 0, False, False, False, [], [])
        wall = out[17]
        api.holds('wall force shape', tuple(wall.shape) == (nfs, 3))
        for i in range(nfs):
            for c in range(3):
                api.eq('wall force[%d,%d]' % (i, c), wall[i][c], out[0][i][c] - ref[0][i][c])
    Fo, To, So, Fbo, DFo, Uo, Oo, Eo, Ubo, DUo = out[:10]
    if cache:
        api.eq_arr('cached inverse', out[10], R)
        return
    st = ld.load('functions.simulation_tools')

    def flat(f, t, s, fb, df):
        s5 = []
        for i in range(n):
            s5.extend(st.condense([s[i]], 1)[0])
        v = [x for i in range(n) for x in f[i]] + [x for i in range(n) for x in t[i]] + s5
        v += [x for i in range(m) for x in fb[i]] + [x for i in range(m) for x in df[i]]
        return v
    fv = flat(Fo, To, So, Fbo, DFo)
    uv = flat(Uo, Oo, Eo, Ubo, DUo)
    for i in range(size):
        api.eq('relation[%d]' % i, dot([R[i, j] for j in range(size)], uv), fv[i], 1e-7)
    # prescribed quantities come back unchanged
    for i in range(n):
        for c in range(3):
            if i < nfs:
                api.eq('U[%d,%d]' % (i, c), Uo[i][c], U[i][c])
            else:
                api.eq('F[%d,%d]' % (i, c), Fo[i][c], F[i][c])
            api.eq('T[%d,%d]' % (i, c), To[i][c], T[i][c])
            for d in range(3):
                if mode == 'fts':
                    api.eq('S[%d,%d,%d]' % (i, c, d), So[i][c][d], S[i][c][d])
                else:
                    api.eq('E[%d,%d,%d]' % (i, c, d), Eo[i][c][d], E[i][c][d])
    for i in range(m):
        for c in range(3):
            if i < nfd:
                api.eq('Ub[%d,%d]' % (i, c), Ubo[i][c], Ub[i][c])
                api.eq('DU[%d,%d]' % (i, c), DUo[i][c], DU[i][c])
            else:
                api.eq('Fb[%d,%d]' % (i, c), Fbo[i][c], Fb[i][c])
                api.eq('DF[%d,%d]' % (i, c), DFo[i][c], DF[i][c])


def drag_only(api, m):
    """Dumbbells moving with isolated bead drag: the relation is diagonal."""
    ld = api.loader()
    inp = ld.load('setups.inputs')
    mu, a = api.real('mu', 0.1, 10), api.real('a', 0.1, 3)
    Fb, DF = vecs(api, 'Fb', m), vecs(api, 'DF', m)
    z = [0, 0, 0]

    def fake_input(number, data, frameno, timestep, last, input_form='undefined', skip_computation=False,
                   grand_resistance_matrix_fte=0):
        w = 0 if skip_computation else 1
        return ([], [], [], [], [[w * y for y in x] for x in Fb], [[w * y for y in x] for x in DF], [], [], [], [],
                [['pippa'] * 3] * m, [['pippa'] * 3] * m, '',
                api.arr(z), api.arr(z), api.arr(z), api.arr(z), api.arr([z, z, z]), api.arr(z), api.arr(z), mu)
    inp.input_ftsuoe = fake_input
    ts = ld.load('functions.timestepping')
    pd = posdata(api, [], [], [a] * m, [[0.0, 4.0 * i, 9.0] for i in range(m)], [[2.5, 0.0, 0.0]] * m)
    out = ts.generate_output_FTSUOE(pd, 0, 0.1, 1, None, True, 'stokes_drag_dumbbells_only', 2, 0, False, False, False, [], [])
    for i in range(m):
        for c in range(3):
            api.eq('Fb[%d,%d]' % (i, c), out[3][i][c], Fb[i][c])
            api.eq('DF[%d,%d]' % (i, c), out[4][i][c], DF[i][c])
            api.eq('relation Ub[%d,%d]' % (i, c), 2 * mu * a * out[8][i][c], Fb[i][c])
            api.eq('relation DUb[%d,%d]' % (i, c), 2 * mu * a * out[9][i][c], DF[i][c])


HARNESSES = [
    H('drag-2', drag_only, m=2),
    H('extract-2-1-1', solve, mode='ufte', n=2, m=1, nfs=1, extract=True),
    H('extract-3-1-2', solve, mode='ufte', n=3, m=1, nfs=2, extract=True),
    H('fts-2-2', solve, mode='fts', n=2, m=2, tiers=('thorough',)),
    H('fte-3-1', solve, mode='fte', n=3, m=1, tiers=('thorough',)),
    H('ufte-3-2-2', solve, mode='ufte', n=3, m=2, nfs=2, tiers=('thorough',)),
    H('ufteu-3-3-2-1', solve, mode='ufteu', n=3, m=3, nfs=2, nfd=1, tiers=('thorough',)),
    H('duf-4-3', solve, mode='duf', n=0, m=4, nfd=3, tiers=('thorough',)),
    H('fts-1-0', solve, mode='fts', n=1, m=0),
    H('fts-2-1', solve, mode='fts', n=2, m=1),
    H('fts-0-2', solve, mode='fts', n=0, m=2),
    H('fte-2-0', solve, mode='fte', n=2, m=0),
    H('fte-2-1', solve, mode='fte', n=2, m=1),
    H('fte-1-2', solve, mode='fte', n=1, m=2),
    H('ufte-2-0-1', solve, mode='ufte', n=2, m=0, nfs=1),
    H('ufte-2-1-1', solve, mode='ufte', n=2, m=1, nfs=1),
    H('ufte-2-1-2', solve, mode='ufte', n=2, m=1, nfs=2),
    H('ufteu-2-2-1-1', solve, mode='ufteu', n=2, m=2, nfs=1, nfd=1),
    H('ufteu-1-2-1-2', solve, mode='ufteu', n=1, m=2, nfs=1, nfd=2),
    H('duf-3-1', solve, mode='duf', n=0, m=3, nfd=1),
    H('duf-3-2', solve, mode='duf', n=0, m=3, nfd=2),
]
