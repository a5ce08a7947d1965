"""Grand resistance matrix = far-field inverse + lubrication, also when cached."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import lub
import C01
import simrun

BOUNDS = ('unbounded: one sphere, two spheres, one sphere and one dumbbell, at any positions in [-8,8]^3, radii in tabulated ratios, '
          'viscosity in [1/10,10], cutoff in [1.1,2.2], any cached matrix; periodic: one sphere and sphere plus dumbbell with any viscosity, cutoff '
          'and cached matrix in a fixed cubic box; every combination of regenerate / drag / far-field-only; the matrix a solution is made with: two '
          'spheres at fixed positions, unbounded and in a sheared box, any viscosity, cutoff and cached matrix; '
          'the options of a run: the whole script for 1-2 frames of each scheme, any cutoff and timestep, every combination of four input forms, '
          'two inputs, drag / far-field-only / wall force')
OUTSIDE = 'invertibility of the far-field matrix; more particles; the positions in the periodic configurations are fixed'
ASSUMPTIONS = ['matrix inversion of more than 6x6 is an uninterpreted function of the matrix entries (same matrix, same inverse)',
               'content of the far-field and lubrication matrices is decided by C03, C05, C09, C10']


def config(api, kind):
    a = api.real('a', 0.5, 2)
    z = [api.const(0)] * 3
    if kind == '1-0':
        return [a], [z], [], [], [], 11
    if kind == '2-0':
        x = vec3(api, 'x', -8, 8)
        d = norm(api, x)
        api.bound(d, 0.02, 30)
        api.assume(d > api.const(Fr(2001, 1000)) * a)
        return [a, a], [z, x], [], [], [], 22
    p, q = vec3(api, 'p', -8, 8), vec3(api, 'q', -8, 8)
    h = api.const(Fr(1, 2))
    for u in (p, q, sub(p, q)):
        d = norm(api, u)
        api.bound(d, 0.02, 40)
        api.assume(d > api.const(Fr(2001, 1000)) * a)
    return [a], [z], [a], [[h * (u + v) for u, v in zip(p, q)]], [sub(q, p)], 17


def drag(api, sizes, dsizes, mu):
    out = []
    f = [api.const(1), api.const(Fr(4, 3)), api.const(Fr(10, 9))]
    for e, c, k in ((1, f[0], 3), (3, f[1], 3), (3, f[2], 5)):
        for s in sizes:
            out += [mu * c * s ** e] * k
    for _ in range(2):
        for s in dsizes:
            out += [2 * mu * s] * 3
    return out


def inverse(api, ld, M):
    if api.symbolic:
        return ld.np.linalg.inv(M)
    return np.linalg.inv(np.array(M, dtype=float))


def assemble(api, kind, regen, dragged, only, lubonly=False):
    ld = api.loader()
    lub.Tables(api, ld)
    mod = ld.load('functions.generate_grand_resistance_matrix')
    gm = ld.load('functions.generate_Minfinity')
    gr = ld.load('functions.generate_R2Bexact')
    mu = api.real('mu', 0.1, 10)
    cf = api.real('cutoff', 1.1, 2.2)
    sizes, pos, bs, c, dx, n = config(api, kind)
    pd = posdata(api, sizes, pos, bs, c, dx)
    cached = api.reals('K', (n, n), -2, 2)
    keep = cached.copy()
    R, _, Minv, times = mod.generate_grand_resistance_matrix(
        pd, cached, regenerate_Minfinity=regen, cutoff_factor=cf, printout=0, use_drag_Minfinity=dragged,
        use_Minfinity_only=only, frameno=3, mu=mu)
    if dragged:
        W = np.zeros((n, n), dtype=object)
        for i, v in enumerate(drag(api, sizes, bs, mu)):
            W[i, i] = v
    elif regen:
        W = inverse(api, ld, gm.generate_Minfinity(pd, 0, frameno=3, mu=mu)[0])
    else:
        W = keep
    finish(api, R, Minv, W, cached, keep,
           None if only else gr.generate_R2Bexact(pd, 0, cutoff_factor=cf, frameno=3, mu=mu)[0])


def finish(api, R, Minv, W, cached, keep, L):
    n = W.shape[0]
    api.holds('shape', tuple(R.shape) == (n, n) and tuple(Minv.shape) == (n, n))
    for i in range(n):
        for j in range(n):
            api.eq('R[%d,%d]' % (i, j), R[i, j], W[i, j] + L[i, j] if L is not None else W[i, j])
            api.eq('inverse[%d,%d]' % (i, j), Minv[i, j], W[i, j])
            api.eq('cache untouched[%d,%d]' % (i, j), cached[i, j], keep[i, j])


def periodic(api, kind, regen, dragged, only):
    ld = api.loader('p', settings={'how_far_to_reproduce_gridpoints': 1})
    lub.Tables(api, ld)
    mod = ld.load('functions.generate_grand_resistance_matrix')
    gm = ld.load('functions.generate_Minfinity_periodic')
    gr = ld.load('functions.generate_R2Bexact')
    mu = api.real('mu', 0.1, 10)
    cf = api.real('cutoff', 1.1, 2.2)
    sizes, pos = [1.0], [[0.5, 0.25, -0.75]]
    if kind == '1-0':
        bs, c, dx, n = [], [], [], 11
    elif kind == '2-0':
        sizes, pos = [1.0, 1.0], [[0.5, 0.25, -0.75], [-3.0, 3.0, 1.5]]
        bs, c, dx, n = [], [], [], 22
    else:
        bs, c, dx, n = [1.0], [[-3.0, 3.0, 1.5]], [[2.25, 0.5, -0.25]], 17
    pd = posdata(api, sizes, pos, bs, c, dx)
    cached = api.reals('K', (n, n), -2, 2)
    keep = cached.copy()
    bl, tr = np.array([-4.0, -4.0, -4.0]), np.array([4.0, 4.0, 4.0])
    Ot, Et = np.array([0.0, 0.125, 0.0]), np.array([[0, 0, 0.125], [0, 0, 0], [0.125, 0, 0]])
    R, _, Minv, times = mod.generate_grand_resistance_matrix_periodic(
        pd, cached, bl, tr, regenerate_Minfinity=regen, cutoff_factor=cf, printout=0, use_drag_Minfinity=dragged,
        use_Minfinity_only=only, frameno=3, mu=mu, Ot_infinity=Ot, Et_infinity=Et)
    if dragged:
        W = np.zeros((n, n), dtype=object)
        for i, v in enumerate(drag(api, sizes, bs, mu)):
            W[i, i] = v
    elif regen:
        W = inverse(api, ld, gm.generate_Minfinity_periodic(
            pd, bl, tr, 0, frameno=3, mu=mu, Ot_infinity=Ot, Et_infinity=Et)[0])
    else:
        W = keep
    L = None if only else gr.generate_R2Bexact(pd, 0, cutoff_factor=cf, frameno=3, mu=mu, box_bottom_left=bl,
                                               box_top_right=tr, Ot_infinity=Ot, Et_infinity=Et)[0]
    finish(api, R, Minv, W, cached, keep, L)


def used(api, mode, kind, box, regen=True, dragged=False, only=False):
    """The matrix that forces and velocities are related by is the one of the
    viscosity, box, accumulated shear, cutoff and options in force."""
    ld = api.fresh_loader(settings={'how_far_to_reproduce_gridpoints': 1})
    lub.Tables(api, ld)
    mod = ld.load('functions.generate_grand_resistance_matrix')
    inp = ld.load('setups.inputs')
    mu = api.real('mu', 0.1, 10)
    cf = api.real('cutoff', 1.1, 2.2)
    sizes, pos, n = [1.0], [[0.5, 0.25, -0.75]], 11
    if kind == '2-0':
        sizes, n = [1.0, 1.0], 22
        # in the box: close across the sheared boundary
        pos = [[0.5, 0.25, -3.25], [0.75, 0.5, 2.5]] if box else [[0.5, 0.25, -0.75], [2.5, 1.25, 0.5]]
    pd = posdata(api, sizes, pos, [], [], [])
    m = len(sizes)
    cached = api.reals('K', (n, n), -2, 2)
    keep = cached.copy()
    seen = []

    def watch(name):
        real = getattr(mod, name)

        def call(*a, **k):
            out = real(*a, **k)
            seen.append(out[0].copy())
            return out
        setattr(mod, name, call)
        return real
    free = watch('generate_grand_resistance_matrix')
    per = watch('generate_grand_resistance_matrix_periodic')
    half = 4.0 if box else 0.0
    bl, tr = np.array([-half] * 3), np.array([half] * 3)
    Ot, Et = np.array([0.0, 0.125, 0.0]), np.array([[0, 0, 0.125], [0, 0, 0], [0.125, 0, 0]])
    z = [0.0, 0.0, 0.0]

    def fake_input(*a, **k):
        zero = [list(z) for _ in range(m)]
        return ([[1.0, 2.0, 0.5]] * m, zero, [[list(z)] * 3] * m, [['pippa'] * 5] * m, [], [],
                [['pippa'] * 3] * m, [['pippa'] * 3] * m, [[list(z)] * 3] * m, [['pippa'] * 5] * m, [], [], '',
                np.array(z), np.array([0.0, 0.5, 0.0]), np.array(z), Ot, Et, bl, tr, mu)
    inp.input_ftsuoe = fake_input
    ts = ld.load('functions.timestepping')
    out = ts.generate_output_FTSUOE(pd, 3, 0.125, 1, cached, regen, mode, cf, 0, dragged, only, False, [], [])
    opts = dict(regenerate_Minfinity=regen, cutoff_factor=cf, printout=0, use_drag_Minfinity=dragged,
                use_Minfinity_only=only, frameno=3, mu=mu)
    if box:
        R, _, Minv, _ = per(pd, keep, bl, tr, Ot_infinity=Ot, Et_infinity=Et, **opts)
    else:
        R, _, Minv, _ = free(pd, keep, **opts)
    api.holds('matrix made once', len(seen) >= 1)
    api.eq_arr('matrix in use', seen[-1], R)
    api.eq_arr('inverse kept', out[10], Minv)


FORMS = ('fts', 'fte', 'ufte', 'ufteu')


def options(api, scheme, frames):
    """Every evaluation of a run is made with the options of the run."""
    w = simrun.World(api, 1, 1, shear=False, background=False)
    try:
        cut = api.real('cut', Fr(11, 10), 4)
        form = FORMS[simrun.pick(api, 'form', 0, len(FORMS) - 1)]
        number = simrun.pick(api, 'number', 1, 2)
        dragged, only, wall = [bool(simrun.pick(api, f, 0, 1)) for f in ('drag', 'only', 'wall')]
        log = w.run(timestepping_scheme=scheme, timestep=api.real('dt', Fr(1, 1000), 1), num_frames=frames,
                    input_form=form, input_number=number, cutoff_factor=cut, use_drag_Minfinity=dragged,
                    use_Minfinity_only=only, extract_force_on_wall_due_to_dumbbells=wall)
        api.holds('evaluated', len(log.calls) >= frames)
        for q, c in enumerate(log.calls):
            api.eq('evaluation %d cutoff' % q, c.cutoff, cut)
            api.holds('evaluation %d input form' % q, c.form == form)
            api.holds('evaluation %d input number' % q, int(c.input) == number)
            api.holds('evaluation %d drag only' % q, bool(c.drag) == dragged)
            api.holds('evaluation %d far field only' % q, bool(c.far_only) == only)
            api.holds('evaluation %d wall force' % q, bool(c.wall) == wall)
    finally:
        w.close()


HARNESSES = []
for k in ('1-0', '2-0', '1-1'):
    for r, d, o in ((True, False, False), (True, False, True), (False, False, False), (False, False, True),
                    (True, True, False), (False, True, True)):
        HARNESSES.append(H('free-%s-%s%s%s' % (k, 'regen' if r else 'cached', '-drag' if d else '', '-only' if o else ''),
                           assemble, kind=k, regen=r, dragged=d, only=o))
        HARNESSES.append(H('periodic-%s-%s%s%s' % (k, 'regen' if r else 'cached', '-drag' if d else '', '-only' if o else ''),
                           periodic, kind=k, regen=r, dragged=d, only=o))

for mode, n, m, f, g in (('fts', 1, 1, 0, 0), ('fte', 2, 1, 0, 0), ('ufte', 2, 1, 1, 0), ('ufteu', 2, 2, 1, 1), ('duf', 0, 2, 0, 1)):
    HARNESSES.append(H('solve-' + mode, C01.solve, mode=mode, n=n, m=m, nfs=f, nfd=g, cache=True))
for mode in ('fts', 'fte'):
    for box in (False, True):
        w = '%s-%s' % ('periodic' if box else 'free', mode)
        HARNESSES.append(H('used-%s' % w, used, mode=mode, kind='2-0', box=box))
        HARNESSES.append(H('used-%s-cached' % w, used, mode=mode, kind='2-0', box=box, regen=False))
        HARNESSES.append(H('used-%s-drag' % w, used, mode=mode, kind='2-0', box=box, dragged=True))
        HARNESSES.append(H('used-%s-only' % w, used, mode=mode, kind='2-0', box=box, regen=False, only=True))
for scheme, frames in (('euler', 2), ('ab2', 2), ('rk4', 1)):
    HARNESSES.append(H('run-' + scheme, options, scheme=scheme, frames=frames))
