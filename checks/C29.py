"""Built-in scenarios prescribe what they document."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import simrun
import C18
import C19

BOUNDS = ('the seven built-in force and flow scenarios with each of the forms fte, fts and ufte: 0-3 spheres (5 for the '
          'moving walls, 99 for the walls around an array) and 0-2 dumbbells of any radii, positions and bead separations, '
          'any timestep in [0,5] and frame 0-10000, with and without the computation of position-dependent forces; '
          'scenario numbers 8-10^6 for the refusal; the starting positions that are not drawn at random')
OUTSIDE = ('the repulsion scenario with prescribed velocities, which sets none; starting positions drawn at random and '
           'those read from a file (decided on their own)')
ASSUMPTIONS = ['beads of a dumbbell are at least 1/10 apart']

# what each form prescribes, and so starts from zero
FORMS = {'fte': ('F', 'T', 'E', 'Fb', 'DFb'), 'fts': ('F', 'T', 'S', 'Fb', 'DFb'), 'ufte': ('T', 'E', 'Fb', 'DFb')}
NAMES = ('F', 'T', 'S', 'Sc', 'Fb', 'DFb', 'U', 'O', 'E', 'Ec', 'Ub', 'Hb')


def entries(a):
    for r in a:
        if isinstance(r, (list, tuple, np.ndarray)):
            yield from entries(r)
        else:
            yield r


def unset(v):
    return isinstance(v, str)


def plain(api, what, a, form, count):
    """Untouched by the scenario: zero where the form prescribes it, unset elsewhere."""
    api.holds('%s: one per particle' % what, len(a) == count)
    for v in entries(a):
        if what in FORMS[form]:
            api.holds('%s: set' % what, not unset(v))
            if not unset(v):
                api.eq('%s: zero' % what, v, 0)
        else:
            api.holds('%s: not set' % what, unset(v))


def vectors(api, what, a, want):
    api.holds('%s: one per particle' % what, len(a) == len(want))
    for i, (p, q) in enumerate(zip(a, want)):
        api.holds('%s %d: three components' % (what, i), len(p) == 3 and not any(unset(v) for v in p))
        if not any(unset(v) for v in p):
            for j in range(3):
                api.eq('%s %d[%d]' % (what, i, j), p[j], q[j])


def scenario(api, number, form, n, m, skip=False):
    ld = api.loader()
    f = ld.load('setups.inputs').input_ftsuoe
    fr, dt = api.int('frame', 0, 10000), api.real('dt', 0, 5)
    x, y, d = vecs(api, 'x', min(n, 5), -50, 50), vecs(api, 'y', m, -50, 50), vecs(api, 'd', m, -5, 5)
    x += [[api.const(10 * i), api.const(100), api.const(0)] for i in range(len(x), n)]
    for v in d:
        api.bound(norm(api, v), 0.1, 9)
    rad = [api.real('a%d' % i, Fr(1, 10), 5) if i < 5 else api.const(1) for i in range(n)]
    brad = [api.real('b%d' % i, Fr(1, 10), 5) for i in range(m)]
    if number == 4:
        # everything far apart: no repulsion to speak of is decided here
        for i in range(n):
            for j in range(i):
                api.assume(x[i][0] - x[j][0] > 20)
    pd = posdata(api, rad, x, brad, y, d)
    out = f(number, pd, fr, dt, [[], [], [], []], input_form=form, skip_computation=skip)
    api.holds('number of results', len(out) == 21)
    q = dict(zip(NAMES, out))
    desc, U, O, c, Ot, Et, bl, tr, mu = out[12:]
    want = {}
    if number in (1, 2):
        want['F'] = [[0, 0, -1]] * n
    elif number == 3 and not skip:
        want['DFb'] = [[-(v[k] - 2 * v[k] / norm(api, v)) for k in range(3)] for v in d]
    elif number == 5:
        want['U'] = [[-1, 0, 0]] * (n // 2) + [[1, 0, 0]] * (n - n // 2)
    elif number == 6:
        want['U'] = [[-1, 0, 0]] * 45 + [[1, 0, 0]] * 45
        want['F'] = [[10, 0, 0]] * 9
    touched = {3: ('E',), 7: ('E',), 4: ('F', 'Fb', 'DFb')}.get(number, ())
    if number == 3 and skip:
        touched += ('DFb',)
    for k in NAMES:
        if number == 6 and k == 'U':
            vectors(api, 'U', q['U'][:90], want['U'])
            api.holds('U: array not prescribed', len(q['U']) == 99 and all(unset(v) for v in entries(q['U'][90:])))
        elif number == 6 and k == 'F':
            vectors(api, 'F', q['F'][90:], want['F'])
            plain(api, 'F', q['F'][:90], form, 90)
        elif k in want:
            vectors(api, k, q[k], want[k])
        elif k not in touched:
            plain(api, k, q[k], form, m if k in ('Fb', 'DFb', 'Ub', 'Hb') else n)
    api.eq('viscosity', mu, 1)
    for k in range(3):
        api.eq('uniform flow', U[k], 0)
    if number not in (3, 7):
        for k in range(3):
            api.eq('rotation', O[k], 0)
            api.eq('accumulated rotation', Ot[k], 0)
            for j in range(3):
                api.eq('accumulated strain', Et[k][j], 0)
    if number == 2:
        # the box of the lattice of the third starting configuration
        pos, lbl, ltr = ld.load('setups.functions_positions').simple_cubic_8(8)
        for k in range(3):
            api.eq('box, lower corner', bl[k], lbl[k])
            api.eq('box, upper corner', tr[k], ltr[k])
            api.eq('box, side', tr[k] - bl[k], 8)
    else:
        for k in range(3):
            api.eq('not periodic', tr[k], bl[k])
    api.holds('description', desc == {1: 'gravity', 2: 'gravity-periodic', 3: 'oscillatory-background-flow', 4: 'repulsion',
                                      7: 'constant-shear'}.get(number, ''))


def refused(api):
    f = api.loader().load('setups.inputs').input_ftsuoe
    k = api.int('number', 8, 10 ** 6)
    pd = posdata(api, [1], [vec3(api, 'x', -9, 9)])
    try:
        f(k, pd, 0, api.const(1), [[], [], [], []], input_form='fte')
        api.holds('a scenario that does not exist is refused', False)
    except SystemExit:
        api.holds('a scenario that does not exist is refused', True)


def starts(api, random):
    ld = api.loader()
    g = ld.load('setups.positions')
    k = simrun.pick(api, 'setup', 0, 4)
    k = (1, 2, 3, 4, 7)[k]
    (s, x, r, bs, y, d), desc = g.pos_setup(k)
    n, m = {1: (15, 0), 2: (3, 0), 3: (8, 0), 4: (2, 2), 7: (99, 0)}[k]
    api.holds('number of particles', len(s) == len(x) == len(r) == n and len(bs) == len(y) == len(d) == m)
    if len(x) != n or len(y) != m:
        return
    fixed = {1: [[4 * i, 0, 0] for i in range(15)], 2: [[-5, 0, 0], [0, 0, 0], [7, 0, 0]],
             4: [[0, 0, 0], [Fr(9, 2), 0, Fr(9, 2)]],
             7: [None] * 90 + [[i, 0, j] for i in (-4, 0, 4) for j in (Fr(-5, 2), 0, Fr(5, 2))]}
    num = (lambda v: v) if api.symbolic else float
    for i in range(n):
        api.eq('radius %d' % i, s[i], 1)
        if k in fixed and fixed[k][i] is not None:
            for j in range(3):
                api.eq('sphere %d[%d]' % (i, j), x[i][j], num(fixed[k][i][j]))
        for a, e in enumerate(([1, 0, 0], [0, 0, 1])):
            for j in range(3):
                api.eq('marker %d of sphere %d[%d]' % (a, i, j), r[i][a][j] - x[i][j], e[j])
        for j in range(i):
            t = [x[i][q] - x[j][q] for q in range(3)]
            api.holds('spheres %d and %d apart' % (i, j), dot(t, t) > 4)
    if k == 7:
        for i in range(90):
            api.eq('wall %d' % i, x[i][2], -5 if i < 45 else 5)
    for i in range(m):
        api.holds('bead radius %d' % i, abs(float(bs[i]) - 0.1) < 1e-12)
        for j in range(3):
            api.eq('dumbbell %d[%d]' % (i, j), y[i][j], num([[Fr(9, 2), 0, 0], [0, 0, Fr(9, 2)]][i][j]))
            api.eq('separation %d[%d]' % (i, j), d[i][j] * d[i][j], [2, 0, 2][j])
            api.holds('separation %d[%d] not negative' % (i, j), d[i][j] >= 0)


Q, T = ('quick', 'thorough'), ('thorough',)
HARNESSES = []
for k in (1, 2, 3, 4, 5, 7):
    for form in FORMS:
        for n, m in ((2, 1), (0, 2), (3, 0), (1, 0), (5, 1)):
            if n == 5 and k != 5 or k == 4 and (m > 0 or form == 'ufte'):
                continue
            HARNESSES.append(H('%d-%s-%d-%d' % (k, form, n, m), scenario, number=k, form=form, n=n, m=m,
                               tiers=Q))
    HARNESSES.append(H('%d-skip' % k, scenario, number=k, form='fte', n=2, m=0 if k == 4 else 1, skip=True))
HARNESSES += [H('6-%s' % form, scenario, number=6, form=form, n=99, m=0) for form in FORMS]
HARNESSES += [H('refused', refused), H('starts', starts, random=False)]
HARNESSES += [H('oscillatory', C18.shipped, number=3, n=2, m=1), H('oscillatory-dumbbells', C18.shipped, number=3, n=0, m=2),
              H('constant', C18.shipped, number=7, n=2, m=1), H('repulsion', C19.lists)]
