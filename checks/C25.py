"""Mid-field tables hold the inverse of the two-sphere mobility."""

from fractions import Fraction as Fr
import types
import numpy as np
from common import *
import lub
from scripts import Folder

BOUNDS = ('size ratios 1/2 and 1 with their reciprocals; one and two separations; every set of two-sphere mobility '
          'functions obeying reciprocity (entries in [-10,10]; translations and rotations diagonally dominant)')
OUTSIDE = 'the external solver that supplies the mobility functions; other size ratios (the scaling is the same expression)'
ASSUMPTIONS = ['the external solver returns the velocities, spins and stresslets of two spheres on the x axis for a unit '
               'force, torque or strain on one of them, sphere 1 of radius 1 at the origin side and the separation along +x']

FAM = ('xa', 'ya', 'yb', 'xc', 'yc', 'xg', 'yg', 'yh', 'xm', 'ym', 'zm')
ODD = ('yb', 'xg', 'yg')


def unknowns(api, tag, equal, simple):
    """Dimensional mobility functions m[fam][i][j] of one pair."""
    m = {}
    for f in FAM:
        v = {}
        sg = -1 if f in ODD else 1
        for i in (0, 1):
            for j in (0, 1):
                n = '%s%d%d%s' % (f, i + 1, j + 1, tag)
                if f not in ('yb', 'xg', 'yg', 'yh') and i > j:
                    v[i, j] = v[j, i]
                elif equal and i == 1:
                    v[i, j] = sg * v[0, 1 - j]
                elif simple and f == 'yb':
                    v[i, j] = api.const(0)
                else:
                    # what is inverted stays away from being singular
                    lo, hi = ((1, 2) if i == j else (-Fr(1, 10), Fr(1, 10))) if f in ('xa', 'ya', 'xc', 'yc') \
                        else (-Fr(1, 10), Fr(1, 10)) if f == 'yb' else (-10, 10)
                    v[i, j] = api.real(n, lo, hi)
        m[f] = v
    return m


def tensors(api, m, i, j, d):
    """Tensors of pair function set m acting on sphere i from sphere j."""
    pi = api.pi
    sc = {'a': 6 * pi, 'b': 4 * pi, 'c': 8 * pi, 'g': 4 * pi, 'h': 8 * pi, 'm': api.const(Fr(20, 3)) * pi}
    return lub.tensors(api, lambda k, g, lam, s: m[FAM[k]][i, j] / sc[FAM[k][1]], 0, 1, 0, d, 1)


def assemble(T):
    """FT x UO, S x UO and S x E parts of the two-sphere matrix."""
    P = np.zeros((12, 12), dtype=object)
    Q = np.zeros((10, 12), dtype=object)
    W = np.zeros((10, 10), dtype=object)
    for i in (0, 1):
        for j in (0, 1):
            A, B, C, G, Hh, M = T[i, j]
            P[3 * i:3 * i + 3, 3 * j:3 * j + 3] = A
            P[6 + 3 * i:9 + 3 * i, 3 * j:3 * j + 3] = B
            P[3 * j:3 * j + 3, 6 + 3 * i:9 + 3 * i] = B.T
            P[6 + 3 * i:9 + 3 * i, 6 + 3 * j:9 + 3 * j] = C
            Q[5 * i:5 * i + 5, 3 * j:3 * j + 3] = G
            Q[5 * i:5 * i + 5, 6 + 3 * j:9 + 3 * j] = Hh
            W[5 * i:5 * i + 5, 5 * j:5 * j + 5] = M
    return P, Q, W


def solver(api, sets, ratios, gaps):
    """Stands in for the external two-sphere program."""
    B5 = lub.basis(api)
    cache = {}

    def respond(command, *a, **k):
        words = command.split() if isinstance(command, str) else [str(c) for c in command]
        s, a1, lam, case = float(words[-5]), float(words[-4]), float(words[-3]), words[-2]
        if a1 != 1:
            raise ValueError('first sphere is not of radius 1')
        q = min(range(len(ratios)), key=lambda t: abs(lam - float(ratios[t])))
        g = min(range(len(gaps)), key=lambda t: abs(s - float(gaps[t]) * (1 + lam) / 2))
        if abs(lam - float(ratios[q])) > 1e-9 or abs(s - float(gaps[g]) * (1 + lam) / 2) > 1e-9:
            raise ValueError('unexpected configuration')
        if (q, g) not in cache:
            m = sets[q, g]
            cache[q, g] = {(i, j): tensors(api, m, i, j, [1, 0, 0]) for i in (0, 1) for j in (0, 1)}
        T = cache[q, g]
        j, kind, c = int(case[1]) - 1, case[0], int(case[2]) - 1
        out = []
        for i in (0, 1):
            A, B, C, G, Hh, M = T[i, j]
            Bt, Gt, Ht = T[j, i][1], T[j, i][3], T[j, i][4]
            if kind == 'F':
                U, O, S = A[:, c], B[:, c], G[:, c]
            elif kind == 'T':
                U, O, S = Bt[c, :], C[:, c], Hh[:, c]
            else:
                E = {'1': [[1, 0, 0], [0, -.5, 0], [0, 0, -.5]], '3': [[0, 0, 0], [0, 0, 1], [0, 1, 0]],
                     '4': [[0, 1, 0], [1, 0, 0], [0, 0, 0]]}[case[2]]
                E = [[api.const(Fr(x)) for x in r] for r in E]
                e = [sum(B5[n][p][r] * E[p][r] for p in range(3) for r in range(3)) for n in range(5)]
                U = [-sum(Gt[n, p] * e[n] for n in range(5)) for p in range(3)]
                O = [-sum(Ht[n, p] * e[n] for n in range(5)) for p in range(3)]
                S = [sum(M[n, r] * e[r] for r in range(5)) for n in range(5)]
            full = [[sum(S[n] * B5[n][p][r] for n in range(5)) for r in range(3)] for p in range(3)]
            out += list(U) + list(O) + [full[0][0], full[1][1], full[0][1], full[0][2], full[1][2]]
        if api.symbolic:
            return Words(out)
        return ' '.join(repr(float(x)) for x in out).encode()
    return respond


class Words(list):
    def split(self, *a):
        return list(self)

    def decode(self, *a, **k):
        return self

    def strip(self, *a):
        return self


SCALE = {'a': lambda pi, a: 6 * pi * a, 'b': lambda pi, a: 4 * pi * a ** 2, 'c': lambda pi, a: 8 * pi * a ** 3,
         'g': lambda pi, a: 4 * pi * a ** 2, 'h': lambda pi, a: 8 * pi * a ** 3,
         'm': lambda pi, a: Fr(20, 3) * pi * a ** 3}
MSCALE = {'a': lambda pi, a: 1 / (6 * pi * a), 'b': lambda pi, a: 1 / (4 * pi * a ** 2),
          'c': lambda pi, a: 1 / (8 * pi * a ** 3), 'g': lambda pi, a: 2 * a, 'h': lambda pi, a: a / a,
          'm': lambda pi, a: Fr(20, 3) * pi * a ** 3}


def midfield(api, ratios, gaps, simple=False):
    sets = {(q, g): unknowns(api, '_%d_%d' % (q, g), ratios[q] == 1, simple)
            for q in range(len(ratios)) for g in range(len(gaps))}
    sub = types.ModuleType('subprocess')
    respond = solver(api, sets, ratios, gaps)
    sub.check_output = respond
    sub.getoutput = respond
    sub.run = lambda *a, **k: types.SimpleNamespace(stdout=respond(*a, **k), returncode=0)
    sub.PIPE = -1
    f = Folder(api, values={'values_of_lambda.txt': ratios, 'values_of_s_dash_midfield.txt': gaps},
               stubs={'subprocess': sub})
    try:
        f.run('generate_scalars_midfield')
        table = f.array('scalars_general_resistance_midfield.npy')
        both = sorted(set(list(ratios) + [1 / x for x in ratios]))
        api.holds('shape', table.shape == (11, 2, len(gaps), len(both)))
        if table.shape != (11, 2, len(gaps), len(both)):
            return
        human = f.rows('scalars_general_resistance_midfield.txt')
        mhuman = f.rows('scalars_general_mobility_midfield.txt')
        pi = api.pi
        cst = lambda x: api.const(x) if api.symbolic else float(x)
        for q, lam in enumerate(ratios):
            for g, s in enumerate(gaps):
                m = sets[q, g]
                T = {}
                R = {}
                for i in (0, 1):
                    own = lam if i == 0 else 1 / lam
                    a = cst(1 if i == 0 else lam)
                    d = [1, 0, 0] if i == 0 else [-1, 0, 0]
                    li = both.index(own)
                    for j in (0, 1):
                        gam = 0 if i == j else 1
                        T[i, j] = tensors(api, m, i, j, [1, 0, 0])
                        R[i, j] = lub.tensors(api, lambda k, *r: table[k, gam, g, li], 0, 1, 0, d, a)
                        row = (li * len(gaps) + g) * 2 + gam
                        for c, v in enumerate((s, own, gam)):
                            api.eq('readable %s row %d col %d' % (lam, row, c), human[row, c], cst(v), 1e-6)
                            api.eq('readable mobility %s row %d col %d' % (lam, row, c), mhuman[row, c], cst(v), 1e-6)
                        for k in range(11):
                            api.eq('readable %d %s %d %d' % (k, own, g, gam), human[row, 3 + k], table[k, gam, g, li], 1e-6)
                            sg = -1 if FAM[k] in ODD and i == 1 else 1
                            sc = MSCALE[FAM[k][1]](pi, a)
                            if not api.symbolic:
                                sc = float(sc)
                            api.eq('mobility %s %s %d %d' % (FAM[k], own, g, gam), mhuman[row, 3 + k] * sc,
                                   sg * m[FAM[k]][i, j], 1e-6)
                mu, mg, mm = assemble(T)
                P, Q, W = assemble(R)
                I = mu.dot(P)
                t = '%s %d' % (lam, g)
                for i in range(12):
                    for j in range(12):
                        api.eq('inverse %s [%d,%d]' % (t, i, j), I[i, j], 1 if i == j else 0, 1e-7)
                        api.eq('symmetric %s [%d,%d]' % (t, i, j), P[i, j], P[j, i], 1e-7)
                gp = mg.dot(P)
                ms = mm + Q.dot(mg.T)
                for i in range(10):
                    for j in range(12):
                        api.eq('stresslet from motion %s [%d,%d]' % (t, i, j), gp[i, j], Q[i, j], 1e-7)
                    for j in range(10):
                        api.eq('stresslet from strain %s [%d,%d]' % (t, i, j), ms[i, j], W[i, j], 1e-7)
    finally:
        f.close()


HARNESSES = [H('unequal', midfield, ratios=[Fr(1, 2)], gaps=[Fr(5, 2)]),
             H('equal', midfield, ratios=[Fr(1)], gaps=[Fr(5, 2)]),
             H('several', midfield, ratios=[Fr(1, 4), Fr(1, 2), Fr(1)], gaps=[Fr(5, 2), Fr(3)], simple=True),
             H('shipped', midfield, ratios=[Fr(1, 100), Fr(1, 10), Fr(1)], gaps=[Fr(5, 2)])]
