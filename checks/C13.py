"""Every time step follows the chosen scheme."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import simrun

BOUNDS = ('the whole simulation script run for 1-3 frames (4 in thorough) with Euler, two-step Adams-Bashforth and '
          'fourth-order Runge-Kutta; 0-2 spheres and 0-2 dumbbells; every timestep in (0,1]; initial positions, '
          'marker points, the velocities and angular velocities returned by each evaluation of the hydrodynamics, '
          'background translation, rotation and strain of each evaluation and the flow centre all free; far-field '
          'matrix reuse interval 1-3 symbolic; periodic runs with free lattice shifts')
OUTSIDE = 'more frames or particles; the graphics branch of the script; the rotation and wrapping formulas (other properties)'
ASSUMPTIONS = ['the hydrodynamics below the script is replaced by free outputs, the marker rotation by a bilinear '
               'stand-in, periodic wrapping by free shifts and the dumbbell sanity test by its no-error outcome']


def half(api):
    return api.const(Fr(1, 2))


class Track:
    """Expected state of all particles."""

    def __init__(self, w):
        self.w = w
        self.x = [list(v) for v in w.x0]
        self.r = [[list(q) for q in v] for v in w.r0]
        self.y = [list(v) for v in w.y0]
        self.d = [list(v) for v in w.d0]


def rates(w, e, s):
    """Total velocities for evaluation e at state s."""
    return ([w.sphere_velocity(e, i, s.x[i]) for i in range(w.n)],
            [w.sphere_spin(e, i) for i in range(w.n)],
            [w.dumbbell_velocity(e, i, s.y[i]) for i in range(w.m)],
            [w.dumbbell_stretch(e, i, s.d[i]) for i in range(w.m)])


def mix(*terms):
    """Linear combination of rate sets."""
    out = []
    for part in range(4):
        rows = []
        for i in range(len(terms[0][1][part])):
            v = [0, 0, 0]
            for c, t in terms:
                v = add(v, scale(c, t[part][i]))
            rows.append(v)
        out.append(rows)
    return tuple(out)


def advance(w, s, v, dt, wrap=None):
    t = Track(w)
    t.x = [add(s.x[i], scale(dt, v[0][i])) for i in range(w.n)]
    t.y = [add(s.y[i], scale(dt, v[2][i])) for i in range(w.m)]
    t.d = [add(s.d[i], scale(dt, v[3][i])) for i in range(w.m)]
    t.raw_x, t.raw_y = t.x, t.y
    if wrap is not None:
        t.x = [add(v, w.shift(v)) for v in t.x]
        t.y = [add(v, w.shift(v)) for v in t.y]
    t.r = [[w.turn(s.x[i], s.r[i][j], t.x[i], v[1][i], dt) for j in range(2)] for i in range(w.n)]
    return t


def check_call(api, w, c, s, frame, dt, name):
    for i in range(w.n):
        for k in range(3):
            api.eq('%s sphere %d[%d]' % (name, i, k), c.spheres[i][k], s.x[i][k])
    for i in range(w.m):
        for k in range(3):
            api.eq('%s dumbbell %d[%d]' % (name, i, k), c.dumbbells[i][k], s.y[i][k])
            api.eq('%s dumbbell vector %d[%d]' % (name, i, k), c.deltax[i][k], s.d[i][k])
    api.eq(name + ' time', c.frame, api.const(Fr(frame)) if api.symbolic else float(frame))
    api.eq(name + ' timestep', c.dt, dt)


def expected(api, w, calls, scheme, frames, dt, at_stage=True, flat=False):
    """States at the start of each frame, the state of each evaluation, and the
    blended rates of each frame."""
    s = Track(w)
    states, evals, prev = [s], [], None
    wrap = True if w.periodic else None
    sixth, third, h = api.const(Fr(1, 6)), api.const(Fr(1, 3)), half(api)
    k = 0
    last = []
    for f in range(frames):
        if scheme == 'rk4':
            es = [c.e for c in calls[k:k + 4]]
            k += 4
            if len(es) < 4:
                break
            evals.append((f, s))
            v1 = rates(w, es[0], s)
            s1 = advance(w, s, v1, h * dt, wrap)
            evals.append((Fr(2 * f + 1, 2), s1))
            v2 = rates(w, es[1], s1 if at_stage else s)
            s2 = advance(w, s, v2, h * dt, wrap)
            evals.append((Fr(2 * f + 1, 2), s2))
            v3 = rates(w, es[2], s2 if at_stage else s)
            s3 = advance(w, s, v3, dt, wrap)
            evals.append((f + 1, s3))
            v4 = rates(w, es[3], s3 if at_stage else s)
            v = mix((sixth, v1), (third, v2), (third, v3), (sixth, v4))
        else:
            if k >= len(calls):
                break
            evals.append((f, s))
            now = rates(w, calls[k].e, s)
            if flat:
                now = ([[u[0], 0, u[2]] for u in now[0]],) + now[1:]
            k += 1
            if scheme == 'ab2' and prev is not None:
                v = mix((api.const(Fr(3, 2)), now), (-h, prev))
            else:
                v = now
            prev = now
        if flat and scheme == 'rk4':
            v = ([[u[0], 0, u[2]] for u in v[0]],) + v[1:]
        s = advance(w, s, v, dt, wrap)
        states.append(s)
        last.append(v)
    return states, evals, last


def history(api, w, name, states, tol=1e-9):
    d = w.read(name)
    n, m = w.n, w.m
    C, D, R = d['centres'], d['deltax'], d['sphere_rotations']
    api.holds('history length', C.shape[0] == len(states) and C.shape[1] == n + m
              and D.shape[0] == len(states) and D.shape[1] == m and R.shape[0] == len(states))
    for q, s in enumerate(states):
        if q >= len(C):
            break
        for k in range(3):
            for i in range(n):
                api.eq('x%d(%d)[%d]' % (i, q, k), C[q][i][k], s.x[i][k])
                for j in range(2):
                    api.eq('marker%d,%d(%d)[%d]' % (i, j, q, k), R[q][i][j][k], s.r[i][j][k])
            for i in range(m):
                api.eq('y%d(%d)[%d]' % (i, q, k), C[q][n + i][k], s.y[i][k])
                api.eq('d%d(%d)[%d]' % (i, q, k), D[q][i][k], s.d[i][k])


def trajectory(api, scheme, n, m, frames, shear=True, background=True, periodic=False, flat=False, stage='any',
               invert=False):
    w = simrun.World(api, n, m, periodic=periodic, shear=shear, background=background)
    try:
        dt = api.real('dt', Fr(1, 1000), 1)
        opts = dict(timestepping_scheme=scheme, timestep=dt, num_frames=frames, fully_2d_problem=flat,
                    input_form='fts' if n == 0 else 'fte')
        every = 1
        if invert:
            every = simrun.pick(api, 'every', 1, 3)
            each = invert == 'each'
            opts.update(invert_m_every=every, rk4_generate_minfinity_for_each_stage=each)
        log = w.run(**opts)
        calls = log.calls
        per = 4 if scheme == 'rk4' else 1
        api.holds('number of evaluations', len(calls) == per * frames)
        at_stage = True
        if scheme == 'rk4' and stage == 'any':
            st, ev, _ = expected(api, w, calls, scheme, frames, dt, at_stage=False, flat=flat)
            at_stage = not all(simrun.same(api, sum(c.spheres + c.dumbbells + c.deltax, []), sum(s.x + s.y + s.d, []))
                               for c, (f, s) in zip(calls, ev))
        st, ev, rate = expected(api, w, calls, scheme, frames, dt, at_stage=at_stage, flat=flat)
        for q, (c, (f, s)) in enumerate(zip(calls, ev)):
            check_call(api, w, c, s, f, dt, 'evaluation %d' % q)
        for q, c in enumerate(calls):
            # reuse of the far-field inverse
            f, stg = q // per, q % per
            fresh = f % every == 0
            if stg and invert and invert != 'each':
                fresh = False
            api.holds('evaluation %d renews the far field' % q, bool(c.regenerate) == fresh)
            if not fresh:
                src = 1000 + per * (f // every * every)
                api.holds('evaluation %d reuses the latest far field' % q, [int(v) for v in c.Minv] == [src])
        if periodic:
            for q, g in enumerate(log.wraps):
                api.holds('wrap %d box' % q, [float(v) for v in g.bl] == [-20.] * 3 and [float(v) for v in g.tr] == [20.] * 3)
        done = simrun.finished(w)
        api.holds('one output file', len(done) == 1 and not simrun.temporary(w))
        if done:
            history(api, w, done[0], st)
    finally:
        w.close()


HARNESSES = [
    H('euler', trajectory, scheme='euler', n=2, m=2, frames=2),
    H('euler-spheres', trajectory, scheme='euler', n=2, m=0, frames=3),
    H('euler-dumbbells', trajectory, scheme='euler', n=0, m=2, frames=3),
    H('ab2', trajectory, scheme='ab2', n=1, m=1, frames=3),
    H('ab2-spheres', trajectory, scheme='ab2', n=2, m=0, frames=3),
    H('ab2-dumbbells', trajectory, scheme='ab2', n=0, m=2, frames=3),
    H('rk4-uniform', trajectory, scheme='rk4', n=1, m=1, frames=2, shear=False),
    H('rk4', trajectory, scheme='rk4', n=1, m=1, frames=1),
    H('rk4-spheres', trajectory, scheme='rk4', n=2, m=0, frames=1),
    H('rk4-dumbbells', trajectory, scheme='rk4', n=0, m=2, frames=1),
    H('rk4-shear', trajectory, scheme='rk4', n=1, m=1, frames=1, stage='stage'),
    H('euler-periodic', trajectory, scheme='euler', n=1, m=1, frames=2, periodic=True),
    H('ab2-periodic', trajectory, scheme='ab2', n=1, m=1, frames=2, periodic=True),
    H('rk4-periodic', trajectory, scheme='rk4', n=1, m=1, frames=1, periodic=True, shear=False),
    H('euler-2d', trajectory, scheme='euler', n=2, m=1, frames=2, flat=True),
    H('ab2-2d', trajectory, scheme='ab2', n=1, m=1, frames=2, flat=True),
    H('euler-reuse', trajectory, scheme='euler', n=1, m=0, frames=4, invert='one', shear=False),
    H('rk4-reuse', trajectory, scheme='rk4', n=1, m=0, frames=3, invert='one', shear=False),
    H('rk4-reuse-each', trajectory, scheme='rk4', n=1, m=0, frames=3, invert='each', shear=False),
    H('euler-long', trajectory, tiers=('thorough',), scheme='euler', n=2, m=2, frames=4),
    H('ab2-long', trajectory, tiers=('thorough',), scheme='ab2', n=2, m=2, frames=4),
    H('rk4-long', trajectory, tiers=('thorough',), scheme='rk4', n=2, m=2, frames=2),
]
