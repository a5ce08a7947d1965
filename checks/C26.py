"""Guards stop a run exactly on their documented conditions."""

from fractions import Fraction as Fr
import contextlib
import io
import numpy as np
from common import *
import simrun
from simrun import pick, World

BOUNDS = ('1-3 dumbbells of any old and new lengths, turning by any angle in a family of planes; whole runs of 2-3 steps '
          'with one dumbbell of any length and any stretching; 2-3 particles, the last of any radius in [1/200,200] and '
          'the others of radius 1, 1/10 or 3; every '
          'input form, with and without spheres')
OUTSIDE = 'beads exactly on top of each other; ratios within 10^-4 relative of a tabulated one but not equal to 10^-6'
ASSUMPTIONS = ['whole runs: the velocities are free variables']


def quietly(api):
    return contextlib.redirect_stdout(io.StringIO())


def explosion(api, m, turning=False):
    ld = api.loader()
    mod = ld.load('functions.timestepping')
    if turning:
        # the old vector along a fixed direction, of any length
        ps = [api.real('p%d' % i, Fr(1, 10), 4) for i in range(m)]
        old = [[3 * x, 4 * x, 0 * x] for x in ps]
        new = [[api.real('q%d' % i, -20, 20), 1, api.real('r%d' % i, Fr(1, 10), 20)] for i in range(m)]
    else:
        # parallel vectors: only the lengths matter
        old = [[api.real('p%d' % i, Fr(1, 10), 20), 0, 0] for i in range(m)]
        new = [[api.real('q%d' % i, Fr(1, 10), 20), 0, 0] for i in range(m)]
    protect = bool(pick(api, 'protect', 0, 1))
    before = bool(pick(api, 'before', 0, 1))
    A = api.arr
    ld.printed = []
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        err = mod.did_something_go_wrong_with_dumbells(before, A(old), A(new), protect)
    said = out.getvalue() + ' '.join(str(x) for a in getattr(ld, 'printed', []) for x in a)
    flagged = bool(err)
    # the recorded length keeps clear of the limit by a rounding error
    e = Fr(1, 10 ** 9)
    lengths = [norm(api, v) for v in new]
    if before:
        api.holds('an earlier error stays', flagged)
    elif not protect:
        api.holds('no alarm without protection', not flagged)
    elif flagged:
        api.holds('alarm has a reason', api.Or(*[l >= 5 - e for l in lengths]))
    else:
        for i, l in enumerate(lengths):
            api.holds('no long dumbbell missed %d' % i, l <= 5 + e)
    if protect and 'exceeded' not in said:
        for i, l in enumerate(lengths):
            api.holds('long dumbbell is reported %d' % i, l <= 5 + e)
    if turning:
        for i in range(m):
            c = (3 * new[i][0] + 4 * new[i][1]) / (5 * lengths[i])
            if 'reached on dumbbell %d' % i in said:
                api.holds('turned dumbbell %d' % i, c <= Fr(1, 1000))
            else:
                api.holds('not turned dumbbell %d' % i, c >= -Fr(1, 1000))


def stops(api, frames, protect, scheme='euler'):
    """A run with protection ends at the step that makes a dumbbell too long;
    without it, it goes on."""
    w = World(api, 1, 1, background=False, shear=False)
    w.d0 = [[api.real('d_x', Fr(1, 10), 4), api.const(0), api.const(0)]]
    zero = [api.const(0)] * 3
    real = w.evaluation

    def evaluation(k):
        e = real(k)
        if not hasattr(e, 'along'):
            e.along = api.real('stretch%s' % k, 0, 3)
            e.H = [[e.along, api.const(0), api.const(0)]]
        return e
    w.evaluation = evaluation
    try:
        log = w.run(guard=True, explosion_protection=protect, num_frames=frames, timestep=api.const(1) if api.symbolic else 1.0,
                    timestepping_scheme=scheme, save_positions_every_n_timesteps=1, save_forces_every_n_timesteps=1)
        api.holds('not refused', log.error is None)
        d = w.d0[0][0]
        steps = len(log.calls)
        if not protect:
            api.holds('all steps', steps == frames)
            return
        for k in range(frames):
            if k >= steps:
                break
            d = d + 2 * w.evaluation(k).along
            if k < steps - 1:
                api.holds('length before going on %d' % k, d <= 5 + Fr(1, 10 ** 9))
        if steps < frames:
            api.holds('stopped for a reason', d >= 5 - Fr(1, 10 ** 9))
        api.holds('output is saved', len(simrun.finished(w)) == 1)
    finally:
        w.close()


def sizes_of(api, n):
    """One particle of radius 1, the last of any radius, between them radii
    that do or do not go with the first."""
    between = [Fr(1, 10), Fr(3)]
    sizes = [Fr(1)] + [between[pick(api, 'size%d' % i, 0, 1)] for i in range(1, n - 1)]
    return [api.const(x) if api.symbolic else float(x) for x in sizes] + [api.real('a_last', Fr(1, 200), 200)]


def ratios(api, n, m):
    """Function form: any sizes; an unlisted ratio raises the flag."""
    ld = api.loader()
    mod = ld.load('functions.timestepping')
    lam = [Fr(1, 100), Fr(1, 10), Fr(1)]
    listed = [Fr(1, 100), Fr(1, 10), Fr(1), Fr(10), Fr(100)]
    sizes = sizes_of(api, n + m)
    before = n + m == 2 and bool(pick(api, 'before', 0, 1))
    ld.printed = []
    out = io.StringIO()
    lr = np.array([float(x) for x in lam])
    with contextlib.redirect_stdout(out):
        got = bool(mod.do_we_have_all_size_ratios(before, api.arr(sizes), lr, n))
    said = out.getvalue() + ' '.join(str(x) for a in getattr(ld, 'printed', []) for x in a)
    e = Fr(1, 10 ** 4)
    pairs = [(i, j) for i in range(n + m) for j in range(i)]
    if before:
        api.holds('an earlier error stays', got)
    if not before and not got:
        for i, j in pairs:
            api.holds('ratio is listed %d,%d' % (i, j), api.Or(*[
                api.And(sizes[i] >= sizes[j] * l * (1 - e), sizes[i] <= sizes[j] * l * (1 + e)) for l in listed]))
    if 'Offending' in said or (not before and got):
        name = lambda i: 'sphere %d' % i if i < n else 'dumbbell %d' % (i - n)
        where = said[said.index('Offending'):]
        named = [(i, j) for i, j in pairs if name(i) in where and name(j) in where]
        api.holds('two particles named', len(named) == 1)
        for i, j in named:
            for l in listed:
                e = Fr(1, 10 ** 6)
                api.holds('named pair is unlisted %s' % l, api.Or(sizes[i] < sizes[j] * l * (1 - e),
                                                                  sizes[i] > sizes[j] * l * (1 + e)))


def start(api, n):
    """The script refuses spheres whose size ratio is not tabulated."""
    w = World(api, n, 0, background=False, shear=False)
    w.sizes = sizes_of(api, n)
    listed = [Fr(1, 100), Fr(1, 10), Fr(1), Fr(10), Fr(100)]
    try:
        log = w.run(num_frames=1, timestep=api.const(Fr(1, 2)) if api.symbolic else 0.5)
        ran = len(log.calls)
        pairs = [(i, j) for i in range(n) for j in range(i)]
        if log.error is None:
            api.holds('ran', ran == 1)
            e = Fr(1, 10 ** 4)
            for i, j in pairs:
                api.holds('ratio is listed %d,%d' % (i, j), api.Or(*[
                    api.And(w.sizes[i] >= w.sizes[j] * l * (1 - e), w.sizes[i] <= w.sizes[j] * l * (1 + e)) for l in listed]))
        else:
            api.holds('nothing was computed', ran == 0 and not w.files())
            e = Fr(1, 10 ** 6)
            api.holds('refused for a reason', api.Or(*[
                api.And(*[api.Or(w.sizes[i] < w.sizes[j] * l * (1 - e), w.sizes[i] > w.sizes[j] * l * (1 + e))
                          for l in listed]) for i, j in pairs]))
    finally:
        w.close()


FORMS = ['fts', 'fte', 'ufte', 'ufteu', 'duf', 'RPY_dumbbells_only', 'stokes_drag_dumbbells_only']
ONLY = ['duf', 'RPY_dumbbells_only', 'stokes_drag_dumbbells_only']


def forms(api, n, m):
    """Input forms that do not fit the particles are refused before anything
    is computed; the others run."""
    k = pick(api, 'form', 0, len(FORMS) - 1)
    form = FORMS[k]
    w = World(api, n, m, background=False, shear=False)
    try:
        log = w.run(num_frames=1, input_form=form, timestep=api.const(Fr(1, 2)) if api.symbolic else 0.5)
        fits = form not in ONLY if n else form in ONLY + ['fts']
        api.holds('decision', (log.error is None) == fits)
        api.holds('computed', len(log.calls) == (1 if fits else 0))
        api.holds('files', len(w.files()) == (1 if fits else 0))
    finally:
        w.close()


def scheme(api):
    """An unknown time stepping scheme or setup stops the run."""
    w = World(api, 1, 0, background=False, shear=False)
    try:
        log = w.run(num_frames=1, timestepping_scheme='leapfrog', timestep=api.const(Fr(1, 2)) if api.symbolic else 0.5)
        api.holds('scheme refused', log.error is not None and not simrun.finished(w))
        k = pick(api, 'which', 0, 2)
        num = [9, 0, 100000][k]
        log = w.run(argv=(str(num), '1'), num_frames=1)
        api.holds('setup refused', log.error is not None and not simrun.finished(w))
    finally:
        w.close()


HARNESSES = [H('explosion-%d' % m, explosion, m=m) for m in (1, 2, 3)]
HARNESSES += [H('turning-%d' % m, explosion, m=m, turning=True) for m in (1, 2)]
HARNESSES += [H('stops-on', stops, frames=3, protect=True), H('stops-off', stops, frames=2, protect=False),
              H('ratios-2-0', ratios, n=2, m=0), H('ratios-1-1', ratios, n=1, m=1), H('ratios-2-1', ratios, n=2, m=1),
              H('start-2', start, n=2), H('start-3', start, n=3),
              H('forms-1-0', forms, n=1, m=0), H('forms-1-1', forms, n=1, m=1), H('forms-0-1', forms, n=0, m=1),
              H('unknown', scheme)]
