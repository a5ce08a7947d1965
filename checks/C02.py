"""Packing of tensors and of grand vectors loses nothing and is conjugate."""

import numpy as np
from common import *

BOUNDS = 'up to 2 spheres and 2 dumbbells; every component any real in [-2, 2]'
OUTSIDE = 'more particles (same loop bodies), strain tensors with trace'
ASSUMPTIONS = []


def tensors(api, n):
    st = api.loader().load('functions.simulation_tools')
    S = traceless(api, 'S', n)
    E = traceless(api, 'E', n)
    s = st.condense(S, n)
    e = st.condense(E, n)
    sflat = st.condense_and_flatten(api.arr(S) if api.symbolic else np.array(S, dtype=float), n)
    back = st.uncondense(api.arr(s) if api.symbolic else np.array(s, dtype=float), n)
    for i in range(n):
        api.eq('double-contraction[%d]' % i, dot(s[i], e[i]), ddot(S[i], E[i]))
        for a in range(3):
            for b in range(3):
                api.eq('roundtrip[%d,%d,%d]' % (i, a, b), back[i][a][b], S[i][a][b])
        for j in range(5):
            api.eq('flat[%d,%d]' % (i, j), sflat[5 * i + j], s[i][j])


def vectors(api, n, m):
    ld = api.loader()
    st = ld.load('functions.simulation_tools')
    pd = posdata(api, [1] * n, [[4.0 * i, 0.0, 0.0] for i in range(n)],
                 [1] * m, [[0.0, 4.0 * i, 9.0] for i in range(m)], [[2.5, 0.0, 0.0]] * m)
    F, T, S = vecs(api, 'F', n), vecs(api, 'T', n), traceless(api, 'S', n)
    U, O, E = vecs(api, 'U', n), vecs(api, 'O', n), traceless(api, 'E', n)
    Fb, DF = vecs(api, 'Fb', m), vecs(api, 'DF', m)
    Ub, DU = vecs(api, 'Ub', m), vecs(api, 'DU', m)
    if n:
        f = st.construct_force_vector_from_fts(pd, F, T, S, Fb, DF)
        u = st.construct_force_vector_from_fts(pd, U, O, E, Ub, DU)
    else:
        SS = np.zeros((0, 3, 3))
        f = st.construct_force_vector_from_fts(pd, F, T, SS, Fb, DF)
        u = st.construct_force_vector_from_fts(pd, U, O, SS, Ub, DU)
    api.holds('length', len(f) == 11 * n + 6 * m)
    work = sum((dot(F[i], U[i]) + dot(T[i], O[i]) + ddot(S[i], E[i]) for i in range(n)), 0)
    work = work + sum((dot(Fb[i], Ub[i]) + dot(DF[i], DU[i]) for i in range(m)), 0)
    api.eq('work', dot(list(f), list(u)), work)
    A = api.arr(list(u)) if api.symbolic else np.array(u, dtype=float)
    U2, O2, E2, Ub2, DU2 = st.deconstruct_velocity_vector_for_fts(pd, A)
    if n:
        api.eq_arr('U', np.array(U2, dtype=object), np.array(U, dtype=object))
        api.eq_arr('O', np.array(O2, dtype=object), np.array(O, dtype=object))
        api.eq_arr('E', np.array(E2, dtype=object), np.array(E, dtype=object))
    if m:
        api.eq_arr('Ub', np.array(Ub2, dtype=object), np.array(Ub, dtype=object))
        api.eq_arr('DU', np.array(DU2, dtype=object), np.array(DU, dtype=object))


HARNESSES = [
    H('tensors-1', tensors, n=1),
    H('tensors-3', tensors, n=3),
    H('vectors-1-0', vectors, n=1, m=0),
    H('vectors-2-1', vectors, n=2, m=1),
    H('vectors-1-2', vectors, n=1, m=2),
    H('vectors-0-2', vectors, n=0, m=2),
    H('vectors-3-3', vectors, n=3, m=3, tiers=('thorough',)),
]
