"""Pictures show the state the simulation computed."""

from fractions import Fraction as Fr
import glob
import os
import numpy as np
from common import *
import drawing
import simrun

BOUNDS = ('1-3 spheres or dumbbells of any radius in [1/100,10] at any positions with any markers and forces; any viewing '
          'direction with the elevation in [0.01,89.99] or [-89.99,-0.01] degrees, level, or from straight above; disc outlines at four points; trace lines every '
          '1-3 frames at frames 0-6; whole runs of 1-3 frames with graphics on, with any velocities')
OUTSIDE = ('colours and shading other than their range, titles and axes; what the plotting library then paints; the radii '
           'used by the scripts that redraw a saved file (the file does not hold them)')
ASSUMPTIONS = ['plotting library replaced by a recorder of circles, lines, arrows and labels',
               'sine and cosine are positive for angles between 0 and 90 degrees']


def view(api, side):
    """A viewing direction; `side` is the sign of the elevation."""
    e = {0: lambda: api.const(0), 1: lambda: api.real('elev', Fr(1, 100), Fr(8999, 100)),
         -1: lambda: api.real('elev', Fr(-8999, 100), Fr(-1, 100)), 2: lambda: api.const(90)}[side]()
    a = api.real('azim', -180, 180)
    return e, a


def direction(api, ld, e, a, side):
    s, c = ld.np.sin, ld.np.cos
    th, ph = e * api.pi / 180, a * api.pi / 180
    if side in (1, -1):
        api.assume(side * s(th) > 0)
        api.assume(c(th) > 0)
    return [c(th) * c(ph), c(th) * s(ph), s(th)]


def load(api, e, a):
    b = drawing.Board(api, e, a)
    ld = api.fresh_loader(stubs=b.modules())
    return b, ld, ld.load('functions.graphics')


def disc(api, what, p, centre, radius, v):
    pts = [list(q) for q in p._segment3d]
    api.holds('%s: has an outline' % what, len(pts) >= 3)
    for k, q in enumerate(pts):
        d = sub(q, centre)
        api.eq('%s: outline point %d at the radius' % (what, k), dot(d, d), radius * radius)
        if v is not None:
            api.eq('%s: outline point %d in the plane facing the viewer' % (what, k), dot(d, v), 0)
    for j in range(3):
        api.eq('%s: outline centred' % what, sum(q[j] for q in pts), len(pts) * centre[j])


def ends(api, what, line, p, q):
    api.holds('%s: two ends' % what, len(line.ends) == 2)
    for k, w in enumerate((p, q)):
        for j in range(3):
            api.eq('%s: end %d' % (what, k), line.ends[k][j], w[j])


def pos(api, n, m):
    rad = [api.real('a%d' % i, Fr(1, 100), 10) for i in range(n)]
    x = vecs(api, 'x', n, -20, 20)
    mk = [[vec3(api, 'mk%d%d' % (i, j), -30, 30) for j in range(2)] for i in range(n)]
    br = [api.real('b%d' % i, Fr(1, 100), 10) for i in range(m)]
    y, d = vecs(api, 'y', m, -20, 20), vecs(api, 'd', m, -5, 5)
    return rad, x, mk, br, y, d, posdata(api, rad, x, br, y, d, rotations=mk)


def spheres(api, n, side):
    e, a = view(api, side)
    b, ld, g = load(api, e, a)
    v = direction(api, ld, e, a, side)
    rad, x, mk, br, y, d, pd = pos(api, n, 0)
    f = api.arr(vecs(api, 'f', n, -2, 2) if n == 1 else [[0, 0, 0]] * n)
    out = g.plot_all_spheres(b.ax, 0, pd, pd, 0, [], f)
    discs, lines = b.of('disc'), b.of('line')
    api.holds('one disc per sphere', len(discs) == n and len(out[0]) == n)
    api.holds('two marker lines per sphere', len(lines) == 2 * n and len(out[1]) == 2 * n)
    api.holds('all of it handed back for removal', all(q in out[0] for q in discs) and all(q in out[1] for q in lines))
    if len(out[0]) != n or len(out[1]) != 2 * n:
        return
    discs = match(api, out[0], lambda q: centroid(api, q), x)
    lines = match(api, out[1], lambda q: q.ends[0] + q.ends[1], [x[i] + mk[i][j] for i in range(n) for j in range(2)])
    for i in range(n):
        colour = discs[i].style.get('facecolor')
        for c in colour if isinstance(colour, (list, tuple)) else ():
            api.holds('colour of sphere %d in range' % i, api.And(c >= 0, c <= 1))
        disc(api, 'sphere %d' % i, discs[i], x[i], rad[i], v)
        for j in range(2):
            ends(api, 'marker %d of sphere %d' % (j, i), lines[2 * i + j], x[i], mk[i][j])


def traces(api, n):
    b, ld, g = load(api, api.const(0), api.const(-90))
    rad, x, mk, br, y, d, pd = pos(api, n, 0)
    old = vecs(api, 'o', n, -20, 20)
    pp = posdata(api, rad, old, [], [], [], rotations=mk)
    every, frame = simrun.pick(api, 'every', 0, 3), simrun.pick(api, 'frame', 0, 6)
    kept = [object()]
    out = g.plot_all_spheres(b.ax, frame, pd, pp, every, kept, api.arr([[0, 0, 0]] * n))
    tr = list(out[2])
    due = every > 0 and frame % every == 0
    api.holds('earlier trace lines kept', len(tr) >= 1 and tr[0] is kept[0])
    api.holds('trace lines when due', len(tr) == 1 + (n if due else 0))
    api.holds('lines on the picture', len(b.of('line')) == 2 * n + (n if due else 0))
    for i in range(len(tr) - 1):
        ends(api, 'trace of sphere %d' % i, tr[1 + i], old[i], x[i])


def dumbbells(api, m, side, no_line):
    e, a = view(api, side)
    b, ld, g = load(api, e, a)
    v = direction(api, ld, e, a, side)
    rad, x, mk, br, y, d, pd = pos(api, 0, m)
    if m == 1 and side == 1 and not no_line:
        f, df = api.arr(vecs(api, 'f', m, -2, 2)), api.arr(vecs(api, 'df', m, -2, 2))
    else:
        f, df = api.arr([[0, 0, 0]] * m), api.arr([[0, 0, 0]] * m)
    out = g.plot_all_dumbbells(b.ax, pd, 0, [], f, df, no_line=no_line)
    discs, lines = b.of('disc'), b.of('line')
    api.holds('two discs per dumbbell', len(discs) == 2 * m and len(out[0]) == 2 * m)
    api.holds('a line per dumbbell if asked for', len(lines) == len(out[1]) == (0 if no_line else m))
    api.holds('all of it handed back for removal', all(q in out[0] for q in discs) and all(q in out[1] for q in lines))
    if len(discs) != 2 * m or len(lines) != (0 if no_line else m):
        return
    h = Fr(1, 2) if api.symbolic else 0.5
    beads = [[sub(y[i], scale(h, d[i])), add(y[i], scale(h, d[i]))] for i in range(m)]
    discs = match(api, discs, lambda q: centroid(api, q), [c for p in beads for c in p])
    lines = match(api, lines, lambda q: q.ends[0] + q.ends[1], [] if no_line else [p + q for p, q in beads])
    for i in range(m):
        for j in range(2):
            disc(api, 'bead %d of dumbbell %d' % (j, i), discs[2 * i + j], beads[i][j], br[i], v)
        if not no_line:
            p, q = beads[i]
            if not simrun.same(api, lines[i].ends[0], p) and simrun.same(api, lines[i].ends[0], q):
                p, q = q, p
            ends(api, 'line of dumbbell %d' % i, lines[i], p, q)


ARROWS = {'force': 'plot_all_force_lines', 'torque': 'plot_all_torque_lines',
          'velocity': 'plot_all_velocity_lines', 'spin': 'plot_all_angular_velocity_lines'}


def arrows(api, what, n):
    b, ld, g = load(api, api.const(0), api.const(-90))
    rad = [api.const(1)] * n
    x = [[api.real('x%d_x' % i, -20, 20), api.real('x%d_y' % i, Fr(-9, 10), Fr(1, 50)), api.real('x%d_z' % i, -20, 20)]
         for i in range(n)]
    pd = posdata(api, rad, x)
    q = vecs(api, 'q', n, -3, 3)
    zero = []
    for i in range(n):
        if api.branch(api.And(*[c == 0 for c in q[i]])):
            zero.append(i)
    given = api.arr(q)
    getattr(g, ARROWS[what])(b.ax, pd, given)
    arr = b.of('arrow')
    want = [i for i in range(n) if i not in zero]
    api.holds('one arrow for every sphere that has any', len(arr) == len(want))
    if len(arr) != len(want):
        return
    got = []
    for i, a in zip(want, match(api, arr, lambda a: (b.arrow(a) or [[]])[0], [x[i] for i in want])):
        pts = b.arrow(a)
        api.holds('an arrow has two ends', len(pts) == 2)
        for j in range(3):
            api.eq('arrow of sphere %d starts at its centre' % i, pts[0][j], x[i][j])
        got.append(sub(pts[1], pts[0]))
    for i, v in zip(want, got):
        for c in cross(v, q[i]):
            api.eq('arrow of sphere %d along its %s' % (i, what), c, 0)
        api.holds('arrow of sphere %d not reversed' % i, dot(v, q[i]) > 0)
    for i, v in zip(want[1:], got[1:]):
        # one and the same scale: |v_i| |q_0| = |v_0| |q_i|, component by component
        for j in range(3):
            for k in range(3):
                api.eq('arrows of spheres %d and %d drawn to one scale' % (want[0], i), v[j] * q[want[0]][k],
                       got[0][k] * q[i][j])
    for i in range(n):
        for j in range(3):
            api.eq('the quantities are left as they were', given[i, j], q[i][j])


class Drawn(simrun.World):
    """A run with pictures; without forces, which only colour them."""

    def evaluation(self, k):
        e = super().evaluation(k)
        e.F = [[self.api.const(0)] * 3 for _ in range(self.n)]
        e.Fb = [[self.api.const(0)] * 3 for _ in range(self.m)]
        e.D = [[self.api.const(0)] * 3 for _ in range(self.m)]
        return e


def centroid(api, a):
    pts = [list(q) for q in a._segment3d]
    k = Fr(1, len(pts)) if api.symbolic else 1 / len(pts)
    return [k * sum(q[j] for q in pts) for j in range(3)]


def match(api, drawn, where, wanted):
    """Pair what is drawn with what should be, in whatever order it was drawn."""
    left, out = list(drawn), []
    for w in wanted:
        hit = next((a for a in left if simrun.same(api, where(a), w)), left[0])
        left.remove(hit)
        out.append(hit)
    return out


def saved_output(w):
    names = [f for f in w.files() if f.endswith('.npz')]
    return w.read(names[-1]) if names else None


def run(api, n, m, frames, method, trace=0):
    w = Drawn(api, n, m, shear=False, background=False)
    try:
        st = dict(num_frames=frames, timestepping_scheme=method, input_form='fte' if n else 'fts')
        off = w.run(**st)
        plain, final = saved_output(w), off.module.posdata
        b = drawing.Board(api)
        on = w.run(view_graphics=True, extra=b.modules(), viewing_angle=(0, -90), trace_paths=trace, **st)
        api.holds('run with pictures finishes', on.error is None)
        api.holds('as many evaluations as without pictures', len(on.calls) == len(off.calls))
        drawn = saved_output(w)
        for k in plain.files:
            api.holds('%s saved with pictures too' % k, k in drawn.files and np.shape(drawn[k]) == np.shape(plain[k]))
            for p, q in zip(np.asarray(drawn[k]).ravel(), np.asarray(plain[k]).ravel()):
                api.eq('%s the same as without pictures' % k, p, q)
        discs, lines = b.of('disc'), b.of('line')
        traces = n * len([f for f in range(frames) if trace and f % trace == 0])
        api.holds('discs of the current state only', len(discs) == n + 2 * m)
        api.holds('markers of the current state only', len(lines) == 2 * n + traces)
        h = Fr(1, 2) if api.symbolic else 0.5
        want = [(list(final[1][i]), final[0][i]) for i in range(n)]
        for i in range(m):
            y, d = list(final[4][i]), list(final[5][i])
            want += [(sub(y, scale(h, d)), final[3][i]), (add(y, scale(h, d)), final[3][i])]
        if len(discs) == len(want):
            order = match(api, discs, lambda a: centroid(api, a), [c for c, _ in want])
            for i, (a, (c, r)) in enumerate(zip(order, want)):
                disc(api, 'disc %d' % i, a, c, r, [0, -1, 0])
        mk = [(list(final[1][i]), list(final[2][i][j])) for i in range(n) for j in range(2)]
        if len(lines) == len(mk) + traces:
            order = match(api, lines, lambda a: a.ends[0] + a.ends[1], [p + q for p, q in mk])
            for i, (a, (p, q)) in enumerate(zip(order, mk)):
                ends(api, 'marker line %d' % i, a, p, q)
    finally:
        w.close()


def redraw(api, script, n, m, frames):
    """The scripts that draw a saved file."""
    cen = [vecs(api, 'c%d_' % f, n + m, -20, 20) for f in range(frames)]
    dx = [vecs(api, 'd%d_' % f, m, -5, 5) for f in range(frames)]
    mk = [[[vec3(api, 'mk%d%d%d' % (f, i, j), -30, 30) for j in range(2)] for i in range(n)] for f in range(frames)]

    def arr(v, *shape):
        return api.arr(v) if 0 not in shape else np.zeros(shape)
    none = lambda k: np.zeros((frames, k, 3))
    data = simrun.Archive(centres=arr(cen, frames, n + m, 3), deltax=arr(dx, frames, m, 3), Fa=none(n), Fb=none(m),
                          DFb=none(m), sphere_rotations=arr(mk, frames, n, 2, 3), Sa=np.zeros((frames, n, 3, 3)))
    b = drawing.Board(api)
    ld = api.fresh_loader(stubs=b.modules())
    sp, si = ld.load('setups.positions'), ld.load('setups.inputs')
    sp.pos_setup = lambda *a, **k: (None, '')
    z, zz = np.zeros(3), np.zeros((3, 3))
    si.input_ftsuoe = lambda *a, **k: tuple([None] * 12 + ['', z, z, z, z, zz, z, z, 1])
    seen = []

    def load(name, *a, **k):
        if 'output' not in str(name):
            return keep[0](name, *a, **k)
        seen.append(str(name))
        return data
    fname = '2601010000-s1-i1-%dfr-t0p1-M1-gravity' % frames
    keep = ld.np.load, os.path.getctime, glob.glob, glob.iglob
    ld.np.load, os.path.getctime = load, lambda p: 1.0
    glob.glob = glob.iglob = lambda pat, **k: [str(pat).replace('*.[Nn][Pp][Zz]', fname + '.npz')]
    try:
        ld.run_script('plotting.' + script)
        b.show()
    finally:
        ld.np.load, os.path.getctime, glob.glob, glob.iglob = keep
    api.holds('one saved file is read', len(set(seen)) == 1)
    shots = [(f, live) for f, live in b.after_frame] or [(0, b.live)]
    api.holds('frames drawn in turn', [f for f, _ in shots] == (list(range(frames)) if script == 'make_video' else [0]))
    h = Fr(1, 2) if api.symbolic else 0.5
    for f, live in shots:
        discs = b.of('disc', live)
        want = [cen[f][i] for i in range(n)]
        for i in range(m):
            want += [sub(cen[f][n + i], scale(h, dx[f][i])), add(cen[f][n + i], scale(h, dx[f][i]))]
        api.holds('frame %d: discs of that frame only' % f, len(discs) == len(want))
        if len(discs) == len(want):
            for i, (a, w) in enumerate(zip(match(api, discs, lambda a: centroid(api, a), want), want)):
                for p, q in zip(centroid(api, a), w):
                    api.eq('frame %d: disc %d in its place' % (f, i), p, q)
        if script == 'make_video' and not m:
            lines = b.of('line', live)
            want = [cen[f][i] + mk[f][i][j] for i in range(n) for j in range(2)]
            api.holds('frame %d: markers of that frame only' % f, len(lines) == len(want))
            if len(lines) == len(want):
                for i, (a, w) in enumerate(zip(match(api, lines, lambda a: a.ends[0] + a.ends[1], want), want)):
                    for p, q in zip(a.ends[0] + a.ends[1], w):
                        api.eq('frame %d: marker line %d' % (f, i), p, q)


SIDES = {1: '', -1: '-below', 0: '-level', 2: '-top'}
Q = ('quick', 'thorough')
T = ('thorough',)
HARNESSES = [H('spheres-%d%s' % (n, SIDES[s]), spheres, n=n, side=s,
               tiers=Q if n < 3 else T) for n in (1, 2, 3) for s in SIDES]
HARNESSES += [H('traces-%d' % n, traces, n=n, tiers=Q if n < 3 else T) for n in (1, 2, 3)]
HARNESSES += [H('dumbbells-%d%s%s' % (m, SIDES[s], '-bare' if nl else ''), dumbbells,
                m=m, side=s, no_line=nl, tiers=Q if m < 3 else T)
              for m in (1, 2, 3) for s in SIDES for nl in (False, True)]
HARNESSES += [H('arrows-%s-%d' % (k, n), arrows, what=k, n=n, tiers=Q if n < 3 else T)
              for k in ARROWS for n in (1, 2, 3)]
HARNESSES += [H('run-%d-%d-%s-%d' % (n, m, k, f), run, n=n, m=m, method=k, frames=f, tiers=t)
              for n, m, k, f, t in ((1, 0, 'euler', 1, Q), (1, 1, 'euler', 2, Q), (2, 0, 'ab2', 3, Q), (0, 1, 'euler', 2, Q),
                                    (1, 1, 'rk4', 2, Q), (2, 1, 'ab2', 3, T))]
HARNESSES += [H('run-trace-%d' % t, run, n=1, m=0, method='euler', frames=3, trace=t) for t in (1, 2)]
HARNESSES += [H('%s-%d-%d' % (k, n, m), redraw, script=k, n=n, m=m, frames=3)
              for k in ('make_video', 'plot_positions') for n, m in ((2, 0), (1, 1), (0, 2))]
