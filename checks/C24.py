"""Near-field formulas obey reciprocity and rigid-motion balance and join the mid-field table."""

from fractions import Fraction as Fr
import builtins
import math
import os
import sys
import types
from common import *
import loader

BOUNDS = ('reciprocity: every gap in [10^-5,1/20] (the logarithm of the gap a free value in [0,30]), every size ratio in [1/10,1] with '
          'the series cut at 10 terms, and the ratios 1/100, 1/10, 1/2, 1 and their reciprocals with 50 terms; rigid-motion balance and '
          'squeezing flow: every gap and every ratio in [1/100,100]; series agreement (cut at 40 against 80 terms) and '
          'joining the mid-field table: ratios 1/10, 1/2, 1 and every gap in [0.02498,0.02502]')
OUTSIDE = 'the limit of infinitely many terms; the full number of terms for symbolic ratios'
ASSUMPTIONS = ['sums over every second integer are cut short where stated (each term obeys the relation on its own)']

POWER = {'A': 1, 'C': 3, 'M': 3}
FACTOR = {'A': Fr(6), 'B': Fr(4), 'C': Fr(8), 'G': Fr(4), 'H': Fr(8), 'M': Fr(20, 3)}
NAMES = ('X11A X12A Y11A Y12A Y11B Y12B X11C X12C Y11C Y12C X11G X12G Y11G Y12G Y11H Y12H '
         'X11M X12M Y11M Y12M Z11M Z12M').split()


def formulas(api, cap, L=None):
    """The module with series cut at cap terms and, with L, the logarithm of
    the gap replaced by L."""
    sys.setrecursionlimit(20000)
    m = api.fresh_loader(roots=[loader.FRS]).load('functions_nearfield')
    m.range = lambda *a: builtins.range(*a) if len(a) < 3 or abs(a[2]) != 2 else builtins.range(*a)[:cap // 2]
    if L is not None:
        real = m.__dict__.get('log')

        def log(x, *b):
            c = x.const_value() if hasattr(x, 'const_value') and x.is_const() else x
            if isinstance(c, (int, float, Fr)) and c == 2:
                return math.log(2)
            return L
        if real is not None:
            m.log = log
        for n in ('math', 'np', 'numpy'):
            if n in m.__dict__:
                old = m.__dict__[n]
                new = types.SimpleNamespace(**{k: getattr(old, k) for k in ('log', 'comb', 'sqrt', 'pi', 'floor', 'ceil') if hasattr(old, k)})
                new.log = log
                setattr(m, n, new)
    return m


def num(api, x):
    return api.const(x) if api.symbolic else float(x)


def flo(x):
    return float(x)


def reciprocal(api, names, lo, hi, cap):
    """12 functions: f(lam) = lam^n f(1/lam), any ratio in a window."""
    L = api.real('L', 0, 30)
    m = formulas(api, cap, L)
    xi = api.real('xi', Fr(1, 100000), Fr(1, 20))
    lam = api.real('lam', lo, hi)
    for n in names:
        f = getattr(m, n)
        api.eq(n, f(xi, lam), lam ** POWER[n[-1]] * f(xi, 1 / lam), 1e-6)


def table_ratios(api, names, cap):
    L = api.real('L', 0, 30)
    m = formulas(api, cap, L)
    xi = api.real('xi', Fr(1, 100000), Fr(1, 20))
    for lam in (0.01, 0.1, 0.5, 1.0):
        for n in names:
            f = getattr(m, n)
            api.eq('%s ratio %s' % (n, lam), f(xi, lam), num(api, Fr(str(lam)) ** POWER[n[-1]]) * f(xi, 1 / lam), 1e-8)


def balance(api, lo, hi):
    """The singular (logarithmic and inverse-gap) parts of force, torque and
    stresslet vanish when both spheres move as one rigid body."""
    L = api.real('L', 1, 30)
    m, m0 = formulas(api, 4, L), formulas(api, 4, num(api, 0))
    xi = api.real('xi', Fr(1, 1000), Fr(1, 20))
    xj = api.real('xj', Fr(1, 1000), Fr(1, 20))
    lam = api.real('lam', lo, hi)

    def part(n, x, l):
        return getattr(m, n)(x, l) - getattr(m0, n)(x, l)
    for a, b in (('X11A', 'X12A'), ('Y11A', 'Y12A'), ('Y11B', 'Y12B'), ('X11G', 'X12G'), ('Y11G', 'Y12G')):
        api.eq('translation %s' % b, part(a, xi, lam) + part(b, xi, lam), 0, 1e-9)
        pole = sum((getattr(m0, k)(xi, lam) - getattr(m0, k)(xj, lam)) for k in (a, b))
        api.eq('translation pole %s' % b, pole, 0, 1e-9)

    def arm(n):
        # (1 + xi/2) times the singular part, to first order in the gap
        one, two = part(n, xi, lam), part(n, 2 * xi, lam)
        zero = 2 * one - two
        return (1 + lam) * (one + xi / 2 * zero)
    c = lambda q: num(api, q)
    api.eq('rotation force', 6 * arm('Y12A') - 4 * part('Y11B', xi, lam)
           + 4 * lam ** 2 * part('Y12B', xi, 1 / lam), 0, 1e-9)
    api.eq('rotation torque', -4 * arm('Y12B') + 8 * (part('Y11C', xi, lam) + part('Y12C', xi, lam)), 0, 1e-9)
    api.eq('rotation stresslet', 4 * arm('Y12G') + 8 * (part('Y11H', xi, lam) + part('Y12H', xi, lam)), 0, 1e-9)
    # twisting about the line of centres: no singular torque on the pair
    api.eq('twist', part('X11C', xi, lam) + part('X12C', xi, lam), 0, 1e-9)


def squeeze(api, lo, hi):
    """The inverse-gap parts come from one squeezing flow."""
    m0 = formulas(api, 4, num(api, 0))
    xi = api.real('xi', Fr(1, 1000), Fr(1, 20))
    lam = api.real('lam', lo, hi)

    def pole(n, l):
        f = getattr(m0, n)
        return (f(xi, l) - f(2 * xi, l)) * 2 * xi      # coefficient of 1/xi
    a, g, mm, m12 = (pole(n, lam) for n in ('X11A', 'X11G', 'X11M', 'X12M'))
    # two-sphere lubrication: 6 X11A -> 12 lam^2/(1+lam)^3 / xi
    api.eq('X11A', a * (1 + lam) ** 3, 2 * lam ** 2, 1e-9)
    api.eq('X11G', 2 * g, 3 * a, 1e-9)
    api.eq('X11M', 5 * mm, 3 * a, 1e-9)
    api.eq('X12M', m12, lam * mm, 1e-9)
    for n in NAMES:
        if n not in ('X11A', 'X12A', 'X11G', 'X12G', 'X11M', 'X12M'):
            if n == 'X11C':
                continue                                # contains a zeta function of the ratio
            api.eq('no pole in ' + n, pole(n, lam), 0, 1e-9)


def settled(api, names, pair, tol):
    """Longer series change the formulas little."""
    L = api.real('L', 0, 30)
    xi = api.real('xi', Fr(1, 100000), Fr(1, 20))
    ms = [formulas(api, c, L) for c in pair]
    for lam in (0.1, 0.5, 1.0):
        for n in names:
            d = getattr(ms[0], n)(xi, lam) - getattr(ms[1], n)(xi, lam)
            api.holds('%s ratio %s' % (n, lam), api.And(d <= tol, d >= -tol))


def join(api, names, room):
    """At the mid-field separation 2.025 both tables describe the same pair."""
    L = api.real('L', Fr(3688, 1000), Fr(369, 100))
    xi = api.real('xi', Fr(2498, 100000), Fr(2502, 100000))
    m = formulas(api, 80, L)
    mid = np.load(os.path.join(loader.FRS, 'scalars_general_resistance_midfield.npy'))
    for k, lam in ((1, 0.1), (2, 1.0)):
        for n in names:
            i = NAMES.index(n)
            want = float(mid[i // 2, i % 2, 0, k])
            d = getattr(m, n)(xi, lam) - num(api, Fr(want))
            r = room + Fr(abs(want)) / 300
            api.holds('%s ratio %s' % (n, lam), api.And(d <= r, d >= -r))


R12 = ['X12A', 'Y12A', 'X12C', 'Y12C', 'X12M', 'Y12M', 'Z12M']
GROUPS = {'x': ['X11A', 'X12A', 'X11G', 'X12G', 'X11C', 'X12C'], 'ya': ['Y11A', 'Y12A', 'Y11B', 'Y12B', 'Y11G', 'Y12G'],
          'yc': ['Y11C', 'Y12C', 'Y11H', 'Y12H'], 'xm': ['X11M', 'X12M'], 'ym': ['Y11M', 'Y12M'], 'zm': ['Z11M', 'Z12M']}
HARNESSES = []
for n_ in R12:
    HARNESSES.append(H('ratios-' + n_, table_ratios, names=[n_], cap=50))
W = [Fr(1, 10), Fr(1, 6), Fr(1, 4), Fr(2, 5), Fr(3, 5), Fr(1)]
for k_ in range(5):
    HARNESSES.append(H('reciprocal-%d' % k_, reciprocal, names=R12, lo=W[k_], hi=W[k_ + 1], cap=10))
HARNESSES += [H('balance', balance, lo=Fr(1, 100), hi=Fr(100)), H('squeeze', squeeze, lo=Fr(1, 100), hi=Fr(100))]
ROOM = {'x': Fr(8, 1000), 'ya': Fr(10, 1000), 'yc': Fr(8, 1000), 'xm': Fr(8, 1000), 'ym': Fr(8, 1000), 'zm': Fr(3, 1000)}
TOL = {'x': Fr(1, 200), 'ya': Fr(1, 800), 'yc': Fr(1, 800), 'xm': Fr(6, 1000), 'ym': Fr(4, 1000), 'zm': Fr(1, 2000)}
for g_, ns_ in GROUPS.items():
    HARNESSES.append(H('settled-' + g_, settled, names=[n for n in ns_ if n[1:] != '11C' or n[0] == 'Y'], pair=(40, 80), tol=TOL[g_]))
    HARNESSES.append(H('join-' + g_, join, names=ns_, room=ROOM[g_]))
