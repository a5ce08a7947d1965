"""Scalar tables are assembled with every entry in its own place."""

from fractions import Fraction as Fr
import types
import numpy as np
from common import *
import loader
import lub
from scripts import Folder, is_sym
import C25

BOUNDS = ('combining: two near-field and two mid-field separations in any order, interleaved in any way, with arbitrary '
          'table contents; far-field subtraction: size ratios 1/2 and 1 with reciprocals at two separations, every symmetric '
          'two-sphere far-field resistance and arbitrary tables; near-field table: ratios 1/2 and 1, two separations, arbitrary formulas')
OUTSIDE = 'equal separations listed twice; ratios listed together with their reciprocals'
ASSUMPTIONS = ['the far-field matrix of the pair is a free symmetric pair resistance (its value is decided separately)']

RATIOS = [Fr(1, 2), Fr(1)]
BOTH = [Fr(1, 2), Fr(1), Fr(2)]
LETTER = 'aabccgghmmm'


def free_table(api, tag, ns, nl):
    t = np.empty((11, 2, ns, nl), dtype=object)
    for i in np.ndindex(*t.shape):
        t[i] = api.real('%s%d_%d_%d_%d' % ((tag,) + i), -100, 100)
    return t


def combine(api, near, mid):
    gaps = [api.real('s%d' % i, 2, 5) for i in range(near + mid)]
    for i in range(near + mid):
        for j in range(i):
            api.assume(api.Or(gaps[i] - gaps[j] >= Fr(1, 1000), gaps[j] - gaps[i] >= Fr(1, 1000)))
    tn, tm = free_table(api, 'n', near, 3), free_table(api, 'm', mid, 3)
    f = Folder(api, values={'values_of_lambda.txt': RATIOS, 'values_of_s_dash_nearfield.txt': gaps[:near],
                            'values_of_s_dash_midfield.txt': gaps[near:]},
               tables={'scalars_general_resistance_nearfield.npy': tn, 'scalars_general_resistance_midfield.npy': tm})
    try:
        f.run('combine_scalars')
        s = f.column('values_of_s_dash.txt')
        table = f.array('scalars_general_resistance.npy')
        human = f.rows('scalars_general_resistance.txt')
        ok = len(s) == near + mid and table.shape == (11, 2, near + mid, 3)
        api.holds('sizes', ok)
        if not ok:
            return
        both = np.concatenate((tn, tm), axis=2)
        cst = lambda x: api.const(x) if api.symbolic else float(x)
        for k in range(near + mid):
            if k:
                api.holds('ascending %d' % k, s[k - 1] < s[k])
            o = [q for q in range(near + mid) if same(s[k], gaps[q])]
            api.holds('separation %d is one of the given' % k, len(o) == 1)
            for q in o:
                api.eq_arr('row %d' % k, table[:, :, k, :], both[:, :, q, :])
                for li, lam in enumerate(BOTH):
                    for g in (0, 1):
                        r = (li * (near + mid) + k) * 2 + g
                        api.eq('readable separation %d' % r, human[r, 0], gaps[q], 1e-6)
                        api.eq('readable ratio %d' % r, human[r, 1], cst(lam), 1e-6)
                        api.eq('readable member %d' % r, human[r, 2], cst(g), 1e-6)
                        for c in range(11):
                            api.eq('readable %d %d' % (r, c), human[r, 3 + c], both[c, g, q, li], 1e-6)
    finally:
        f.close()


def same(a, b):
    if is_sym(a) or is_sym(b):
        return not (a - b).p
    return abs(float(a) - float(b)) < 1e-6


def resistances(api, gaps):
    """Free pair scalars, for the sphere of radius 1, keyed by ratio and gap."""
    sc = {}
    for li, lam in enumerate(BOTH):
        for g in range(len(gaps)):
            for k in range(11):
                for gam in (0, 1):
                    lo, hi = (1, 2) if gam == 0 and C25.FAM[k][1] in 'acm' else (-Fr(1, 20), Fr(1, 20))
                    sc[li, g, k, gam] = api.real('r%d_%d_%d_%d' % (li, g, k, gam), lo, hi)
    return sc


def pair_matrix(api, sc, li, g, partner):
    """22 x 22 resistance of a sphere of radius 1 and its partner."""
    lam = BOTH[li]
    cst = lambda x: api.const(x) if api.symbolic else float(x)
    T = {}
    for i in (0, 1):
        a = cst(1 if i == 0 else lam)
        d = [1, 0, 0] if i == 0 else [-1, 0, 0]
        for j in (0, 1):
            gam = 0 if i == j else 1

            def scalar(k, *r):
                if i == 0:
                    return sc[li, g, k, gam]
                if gam and C25.FAM[k][1] in 'acm':        # reciprocity
                    p = {'a': 1, 'c': 3, 'm': 3}[C25.FAM[k][1]]
                    return sc[li, g, k, 1] / cst(lam) ** p
                return partner[k, gam]
            T[i, j] = lub.tensors(api, scalar, 0, 1, 0, d, a)
    P, Q, W = C25.assemble(T)
    R = np.zeros((22, 22), dtype=object)
    R[:12, :12], R[12:, :12], R[:12, 12:], R[12:, 12:] = P, Q, Q.T, W
    return R


def subtract(api, drag):
    gaps = [Fr(5, 2), Fr(3)]
    table = free_table(api, 't', len(gaps), len(BOTH))
    sc = resistances(api, gaps)
    partner = {(k, g): api.real('q%d_%d' % (k, g), *((1, 2) if g == 0 and C25.FAM[k][1] in 'acm' else (-Fr(1, 20), Fr(1, 20))))
               for k in range(11) for g in (0, 1)}
    mats = {}

    def far(posdata, *a, **k):
        sizes, pos = posdata[0], posdata[1]
        x = [float(sub_f(pos[1][c], pos[0][c])) for c in range(3)]
        lam, s = float(num(sizes[1])), abs(x[0]) * 2 / (1 + float(num(sizes[1])))
        li = [i for i, q in enumerate(BOTH) if abs(float(q) - lam) < 1e-9]
        g = [i for i, q in enumerate(gaps) if abs(float(q) - s) < 1e-9]
        if float(num(sizes[0])) != 1 or not li or not g or abs(x[1]) + abs(x[2]) > 0 or x[0] <= 0 or len(posdata[3]):
            raise ValueError('unexpected pair')
        key = li[0], g[0]
        if key not in mats:
            R = pair_matrix(api, sc, key[0], key[1], partner)
            if api.symbolic:
                mats[key] = Marked(R)
            else:
                mats[key] = np.linalg.inv(np.array(R, dtype=float))
        return mats[key], 'far'
    mod = types.ModuleType('functions.generate_Minfinity')
    mod.generate_Minfinity = far
    name = 'subtract_R2Binfinitydrag_from_scalars' if drag else 'subtract_R2Binfinity_from_scalars'
    out = 'scalars_general_resistance_d_drag' if drag else 'scalars_general_resistance_d'
    f = Folder(api, values={'values_of_lambda.txt': RATIOS, 'values_of_s_dash.txt': gaps},
               tables={'scalars_general_resistance.npy': table}, stubs={'functions.generate_Minfinity': mod},
               roots=[loader.FRS, loader.SD])

    def prepare(ld):
        if not api.symbolic:
            return
        inv = ld.np.linalg.inv
        f = lambda M: ld.npshim.SAv(M.R.copy()) if isinstance(M, Marked) else inv(M)
        ld.np.linalg.inv = f
        ld.stubs['scipy.linalg'].inv = f
    try:
        f.run(name, prepare)
        got = f.array(out + '.npy')
        human = f.rows(out + '.txt')
        cst = lambda x: api.const(x) if api.symbolic else float(x)
        api.holds('shape', got.shape == table.shape)
        for li, lam in enumerate(BOTH):
            for g, s in enumerate(gaps):
                for gam in (0, 1):
                    r = (li * len(gaps) + g) * 2 + gam
                    for c, v in enumerate((s, lam, gam)):
                        api.eq('readable heading %d %d' % (r, c), human[r, c], cst(v), 1e-6)
                    for k in range(11):
                        if drag:
                            away = 1 if gam == 0 and C25.FAM[k][1] in 'acm' else 0
                        else:
                            away = sc[li, g, k, gam]
                        want = table[k, gam, g, li] - away
                        api.eq('%s%d ratio %s gap %s' % (C25.FAM[k], gam, lam, s), got[k, gam, g, li], want, 1e-7)
                        api.eq('readable %s%d ratio %s gap %s' % (C25.FAM[k], gam, lam, s), human[r, 3 + k], want, 1e-6)
    finally:
        f.close()


class Marked:
    """A matrix known by its inverse."""

    def __init__(self, R):
        self.R = R


def num(x):
    import sym
    return x.const_value() if isinstance(x, sym.Sym) else x


def sub_f(a, b):
    return num(a) - num(b)


def near(api):
    """The near-field table lists the formulas at the listed gaps and ratios."""
    gaps = [Fr(2001, 1000), Fr(201, 100)]
    mod = types.ModuleType('functions_nearfield')
    value = {}

    def formula(n):
        def f(xi, lam):
            import math
            li = [i for i, q in enumerate(BOTH) if abs(float(q) - float(num(lam))) < 1e-9]
            g = [i for i, q in enumerate(gaps) if abs(float(q) - 2 - float(num(xi))) < 1e-9]
            if len(li) != 1 or len(g) != 1:
                raise ValueError('unexpected gap or ratio')
            return value[n, li[0], g[0]]
        f.__name__ = n
        return f
    names = []
    for k in range(11):
        for g in (0, 1):
            n = '%s1%d%s' % (C25.FAM[k][0].upper(), g + 1, C25.FAM[k][1].upper())
            names.append(n)
            for li in range(3):
                for q in range(2):
                    value[n, li, q] = api.real('%s_%d_%d' % (n, li, q), -100, 100)
            setattr(mod, n, formula(n))
    f = Folder(api, values={'values_of_lambda.txt': RATIOS, 'values_of_s_dash_nearfield.txt': gaps},
               stubs={'functions_nearfield': mod})
    try:
        f.run('generate_scalars_nearfield')
        got = f.array('scalars_general_resistance_nearfield.npy')
        human = f.rows('scalars_general_resistance_nearfield.txt')
        api.holds('shape', got.shape == (11, 2, 2, 3))
        for c, n in enumerate(names):
            for li in range(3):
                for q in range(2):
                    api.eq('%s %d %d' % (n, li, q), got[c // 2, c % 2, q, li], value[n, li, q])
                    api.eq('readable %s %d %d' % (n, li, q), human[(li * 2 + q) * 2 + c % 2, 3 + c // 2], value[n, li, q], 1e-6)
    finally:
        f.close()


HARNESSES = [H('combine', combine, near=2, mid=2), H('combine-short', combine, near=1, mid=2),
             H('subtract', subtract, drag=False), H('subtract-drag', subtract, drag=True), H('near', near)]
