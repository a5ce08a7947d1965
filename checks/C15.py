"""Saved output is the true history at the requested cadence."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import simrun
import C13

BOUNDS = ('the whole simulation script, 1-6 frames; the intervals for saving positions (1-3), forces (1-3) and the '
          'temporary copy (1-3) and the first saved frame (0-3) are symbolic, (a first saved frame that is not '
          'a saving step is a known finding); Euler and Runge-Kutta; 1-2 spheres and 0-2 dumbbells with free positions and '
          'velocities per frame')
OUTSIDE = ('more frames; a first saved frame that is not a multiple of the intervals; saving switched off entirely; the '
           'graphics branch')
ASSUMPTIONS = ['the hydrodynamics below the script is replaced by free outputs; the saved archive is read back through an '
               'in-memory file system (a real scratch directory in the replay)']


def check_archive(api, w, d, scheme, states, calls, pos_frames, force_frames, tag=''):
    n, m = w.n, w.m
    C, D, R = d['centres'], d['deltax'], d['sphere_rotations']
    api.holds(tag + 'number of saved positions', C.shape[0] == len(pos_frames) and D.shape[0] == len(pos_frames)
              and R.shape[0] == len(pos_frames) and C.shape[1] == n + m)
    for q, f in enumerate(pos_frames[:len(C)]):
        s = states[f]
        for k in range(3):
            for i in range(n):
                api.eq('%sposition %d of sphere %d[%d]' % (tag, q, i, k), C[q][i][k], s.x[i][k])
                for j in range(2):
                    api.eq('%smarker %d of sphere %d,%d[%d]' % (tag, q, i, j, k), R[q][i][j][k], s.r[i][j][k])
            for i in range(m):
                api.eq('%sposition %d of dumbbell %d[%d]' % (tag, q, i, k), C[q][n + i][k], s.y[i][k])
                api.eq('%svector %d of dumbbell %d[%d]' % (tag, q, i, k), D[q][i][k], s.d[i][k])
    per = 4 if scheme == 'rk4' else 1
    wts = [Fr(1, 6), Fr(1, 3), Fr(1, 3), Fr(1, 6)] if per == 4 else [Fr(1)]

    def blend(f, get):
        t = 0
        for wt, c in zip(wts, calls[per * f:per * f + per]):
            t = t + api.const(wt) * get(c.e)
        return t
    F, Fb, DF, S, W = d['Fa'], d['Fb'], d['DFb'], d['Sa'], d['force_on_wall_due_to_dumbbells']
    for nm, X in (('sphere forces', F), ('dumbbell forces', Fb), ('dumbbell force differences', DF),
                  ('stresslets', S), ('wall forces', W)):
        api.holds(tag + 'number of saved ' + nm, X.shape[0] == len(force_frames))
    for q, f in enumerate(force_frames):
        if q >= len(F):
            break
        for i in range(n):
            for k in range(3):
                api.eq('%sforce %d of sphere %d[%d]' % (tag, q, i, k), F[q][i][k], blend(f, lambda e: e.F[i][k]))
                api.eq('%swall force %d [%d,%d]' % (tag, q, i, k), W[q][i][k], blend(f, lambda e: e.W[i][k]))
                for l in range(3):
                    api.eq('%sstresslet %d of sphere %d[%d,%d]' % (tag, q, i, k, l), S[q][i][k][l],
                           blend(f, lambda e: e.S[i][k][l]))
        for i in range(m):
            for k in range(3):
                api.eq('%sforce %d of dumbbell %d[%d]' % (tag, q, i, k), Fb[q][i][k], blend(f, lambda e: e.Fb[i][k]))
                api.eq('%sforce difference %d of dumbbell %d[%d]' % (tag, q, i, k), DF[q][i][k],
                       blend(f, lambda e: e.D[i][k]))


def saved(frames, every, start, final):
    out = [f for f in range(start, frames) if f % every == 0]
    if final and out and out[-1] == frames - 1:
        out.append(frames)
    return out


def cadence(api, scheme, n, m, frames, every=(1, 3), forces=(1, 3), start=(0, 0), temp=(1, 1)):
    w = simrun.World(api, n, m, shear=False)
    try:
        p = simrun.pick(api, 'p', *every)
        q = simrun.pick(api, 'q', *forces)
        s = simrun.pick(api, 's', *start)
        t = simrun.pick(api, 't', *temp)
        if s % p or s % q:
            return
        dt = api.real('dt', Fr(1, 1000), 1)
        log = w.run(timestepping_scheme=scheme, timestep=dt, num_frames=frames,
                    save_positions_every_n_timesteps=p, save_forces_every_n_timesteps=q,
                    start_saving_after_first_n_timesteps=s, save_to_temp_file_every_n_timesteps=t,
                    input_form='fts' if n == 0 else 'fte')
        done = simrun.finished(w)
        api.holds('one output file and no temporary one', len(done) == 1 and not simrun.temporary(w))
        api.holds('name', '-s8-i1-%dfr-' % frames in done[0])
        states, _, _ = C13.expected(api, w, log.calls, scheme, frames, dt)
        check_archive(api, w, w.read(done[0]), scheme, states, log.calls, saved(frames, p, s, True),
                      saved(frames, q, s, False))
    finally:
        w.close()


def running(api, frames, n, m):
    """The temporary copy left by a stopped run is a prefix of the history."""
    w = simrun.World(api, n, m, shear=False)
    try:
        p = simrun.pick(api, 'p', 1, 2)
        t = simrun.pick(api, 't', 1, 3)
        c = simrun.pick(api, 'stop', 1, frames - 1)
        dt = api.real('dt', Fr(1, 1000), 1)
        log = w.run(crash=lambda kind, k, x: kind == 'evaluation' and k == c, timestep=dt, num_frames=frames,
                    save_positions_every_n_timesteps=p, save_to_temp_file_every_n_timesteps=t)
        api.holds('stopped', log.interrupted)
        tmp = simrun.temporary(w)
        api.holds('one temporary file only', len(tmp) == 1 and not simrun.finished(w))
        last = max(f for f in range(c) if f % t == 0)
        states, _, _ = C13.expected(api, w, log.calls, 'euler', c, dt)
        check_archive(api, w, w.read(tmp[0]), 'euler', states, log.calls, saved(last + 1, p, 0, last == frames - 1),
                      saved(last + 1, 1, 0, False), 'temporary ')
    finally:
        w.close()


def offset(api):
    """A first saved frame that is not itself a saving step."""
    w = simrun.World(api, 1, 0, shear=False)
    try:
        p = simrun.pick(api, 'p', 2, 3)
        dt = api.real('dt', Fr(1, 1000), 1)
        log = w.run(timestep=dt, num_frames=4, save_positions_every_n_timesteps=p, save_forces_every_n_timesteps=p,
                    start_saving_after_first_n_timesteps=1)
        states, _, _ = C13.expected(api, w, log.calls, 'euler', 4, dt)
        check_archive(api, w, w.read(simrun.finished(w)[0]), 'euler', states, log.calls, saved(4, p, p, True),
                      saved(4, p, p, False))
    finally:
        w.close()


HARNESSES = [
    H('offset', offset),
    H('every', cadence, scheme='euler', n=1, m=1, frames=4),
    H('every-5', cadence, scheme='euler', n=1, m=1, frames=5),
    H('spheres', cadence, scheme='euler', n=2, m=0, frames=3),
    H('dumbbells', cadence, scheme='euler', n=0, m=2, frames=3),
    H('start', cadence, scheme='euler', n=1, m=0, frames=5, every=(1, 2), forces=(1, 2), start=(0, 3)),
    H('temp', cadence, scheme='euler', n=1, m=1, frames=4, every=(1, 2), forces=(1, 2), temp=(1, 3)),
    H('rk4', cadence, scheme='rk4', n=1, m=1, frames=2, every=(1, 2), forces=(1, 2)),
    H('single', cadence, scheme='euler', n=1, m=1, frames=1),
    H('running', running, frames=5, n=1, m=1),
    H('every-6', cadence, tiers=('thorough',), scheme='euler', n=2, m=2, frames=6, start=(0, 3), temp=(1, 3),
      max_paths=400, limit_s=600),
]
