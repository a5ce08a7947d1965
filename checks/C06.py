"""Tabulated scalars are interpolated linearly and obey two-sphere reciprocity."""

from fractions import Fraction as Fr
import numpy as np
from common import *

BOUNDS = ('every separation from contact (and below) to beyond the table, all eleven scalars, both members of the pair and '
          'all five size ratios; reciprocal relations to 1e-4 of the entries around it (table precision)')
OUTSIDE = 'tables other than the ones in the repository; the drag-subtracted table, which the repository does not contain'
ASSUMPTIONS = ['the table values are read as exact rationals']

FAM = ['XA', 'YA', 'YB', 'XC', 'YC', 'XG', 'YG', 'YH', 'XM', 'YM', 'ZM']
# scaling power p of scalar family: X12(lam) = lam^p X12(1/lam)
POWER = {'XA': 1, 'YA': 1, 'XC': 3, 'YC': 3, 'XM': 3, 'YM': 3, 'ZM': 3}


def tables(api, ld):
    data = ld.load('resistance_scalars.data')
    import os
    import loader
    d = os.path.join(loader.SD, 'resistance_scalars')
    raw = np.load(os.path.join(d, 'scalars_general_resistance_d.npy'))
    s = np.loadtxt(os.path.join(d, 'values_of_s_dash.txt'))
    lam = np.loadtxt(os.path.join(d, 'values_of_lambda.txt'))
    return raw, s, lam


def q(api, v):
    if api.symbolic:
        import sym
        return api.const(sym.to_q(float(v)))
    return float(v)


def linear(api, s, grid, row):
    """Straight line between the entries around s (end values outside)."""
    if api.branch(s < q(api, grid[0])):
        return q(api, row[0])
    for k in range(len(grid) - 1):
        if api.branch(s < q(api, grid[k + 1])):
            t = (s - q(api, grid[k])) / (q(api, grid[k + 1]) - q(api, grid[k]))
            return q(api, row[k]) * (1 - t) + q(api, row[k + 1]) * t
    return q(api, row[-1])


def interpolate(api, settings=None, scalars=range(11), lo=1, hi=6, lams=range(5)):
    ld = api.loader('m', settings=settings or {})
    mod = ld.load('functions.generate_R2Bexact')
    raw, grid, lam = tables(api, ld)
    s = api.real('s', lo, hi)
    names = {k: getattr(mod, FAM[k]) for k in scalars}
    for k in scalars:
        for g in (0, 1):
            for l in lams:
                want = linear(api, s, grid, raw[k, g, :, l])
                got = names[k](g, s, l)
                api.eq('%s%s ratio %d' % (FAM[k], ('11', '12')[g], l), got, want)


def reciprocal(api, fam):
    """The scalars in use for a size ratio and its reciprocal."""
    ld = api.loader()
    mod = ld.load('functions.generate_R2Bexact')
    raw, grid, lam = tables(api, ld)
    s = api.real('s', Fr(200001, 100000), Fr(9, 2))
    f = getattr(mod, fam)
    lr = [Fr(1, 100), Fr(1, 10), Fr(1), Fr(10), Fr(100)]
    for l in (3, 4):
        a, b = f(1, s, l), f(1, s, 4 - l)
        p = POWER[fam]
        # scalars of the pair are normalised by the first sphere's radius:
        # X12(lam) a^p = X12(1/lam) (lam a)^p
        d = api.const(lr[l] ** p) * b - a
        size = api.const(Fr(1, 10 ** 4)) * linear(api, s, grid, np.abs(raw[FAM.index(fam), 1, :, l]))
        api.holds('%s12 ratio %d' % (fam, l), api.And(d <= size, -d <= size))


def lookup(api):
    """Size ratios are looked up among the tabulated ones and their
    reciprocals, in increasing order."""
    ld = api.loader()
    data = ld.load('resistance_scalars.data')
    got = [float(v) for v in data.lam_range_with_reciprocals]
    raw, grid, lam = tables(api, ld)
    want = sorted(set([float(v) for v in lam] + [1 / float(v) for v in lam]))
    k = api.int('k', 0, 4)
    for i in range(5):
        if api.branch(k == i):
            api.holds('ratio %d' % i, len(got) == 5 and abs(got[i] - want[i]) < 1e-12 * want[i])
            api.holds('mirror %d' % i, abs(got[i] * got[4 - i] - 1) < 1e-12)


HARNESSES = [H('interp-' + FAM[k], interpolate, scalars=[k]) for k in range(11)]
HARNESSES += [H('interp-drag', interpolate, settings={'use_drag_Minfinity': True}, scalars=[0, 10], lams=[0, 2])]
HARNESSES += [H('reciprocal-' + f, reciprocal, fam=f) for f in POWER]
HARNESSES += [H('lookup', lookup)]
