"""A run interrupted at any frame and resumed matches an uninterrupted run."""

from fractions import Fraction as Fr
import numpy as np
from common import *
import simrun
import C13
import C15

BOUNDS = ('the whole simulation script, 3-6 frames; the point where the machine stops (every evaluation of the '
          'hydrodynamics, immediately after every checkpoint or final write, and in the middle of every such write) is '
          'symbolic, as are the checkpoint interval (1-3) and save interval (1-2, checkpoint at a saving step for the '
          'force history); up to two interruptions; Euler and Runge-Kutta; 1-2 spheres and 0-1 dumbbells with free '
          'positions and velocities per frame; timesteps 0.125 and 2^-14; a second run of any timestep in [1e-5, 2] (distinguishable from the first by 2e-5 of it) after a checkpoint of one of these')
OUTSIDE = ('two-step Adams-Bashforth (its first step after a restart is an Euler step by design); more frames; a torn '
           'write that leaves a readable archive; a machine that reorders its writes')
ASSUMPTIONS = ['the hydrodynamics is a free function of the frame and stage; a stop in the middle of a write leaves an '
               'unreadable file']


def key_for(scheme):
    per = 4 if scheme == 'rk4' else 1

    def key(c, frameno):
        return '%s_%d' % (str(float(frameno)).replace('.', 'p'), c % per)
    return key


def settings(scheme, frames, dt, p, t, **k):
    return dict(dict(timestepping_scheme=scheme, timestep=dt, num_frames=frames, save_positions_every_n_timesteps=p,
                     save_forces_every_n_timesteps=p, save_to_temp_file_every_n_timesteps=t), **k)


def final(api, w, scheme, frames, dt, p, tag):
    """The finished archive must be the uninterrupted history."""
    import types
    done = simrun.finished(w)
    api.holds(tag + 'finished, nothing temporary left', len(done) == 1 and not simrun.temporary(w))
    if len(done) != 1:
        return
    key = key_for(scheme)
    calls = []
    for f in range(frames):
        fr = [f] if scheme == 'euler' else [f, f + 0.5, f + 0.5, f + 1]
        for q, x in enumerate(fr):
            calls.append(types.SimpleNamespace(e=w.evaluation(key(q, x))))
    states, _, _ = C13.expected(api, w, calls, scheme, frames, api.const(dt))
    C15.check_archive(api, w, w.read(done[0]), scheme, states, calls, C15.saved(frames, p, 0, True),
                      C15.saved(frames, p, 0, False), tag)


def resume(api, scheme, frames, n, m, dt=Fr(1, 8), every=(1, 1), temp=(1, 3), kind='evaluation', again=False):
    w = simrun.World(api, n, m, shear=False, background=False, key=key_for(scheme))
    per = 4 if scheme == 'rk4' else 1
    try:
        p = simrun.pick(api, 'p', *every)
        t = simrun.pick(api, 't', *temp)
        if t % p:
            return
        dtv = float(dt)
        opts = settings(scheme, frames, dtv, p, t)
        if kind == 'evaluation':
            c = simrun.pick(api, 'stop', 1, per * frames - 1)
            log = w.run(crash=lambda k, i, x: k == 'evaluation' and i == c, **opts)
        else:
            # writes: one per checkpoint frame and the final one
            count = len([f for f in range(frames) if f % t == 0]) + 1
            c = simrun.pick(api, 'stop', 0, frames)
            if c >= count:
                return
            log = w.run(crash=lambda k, i, x: ('torn' if kind == 'torn' else True) if k == 'save' and i == c else False,
                        **opts)
        api.holds('stopped', log.interrupted)
        if again:
            c2 = simrun.pick(api, 'stop2', 1, 2)
            log = w.run(crash=lambda k, i, x: k == 'evaluation' and i == c2, **opts)
        log = w.run(**opts)
        api.holds('ran to the end', not log.interrupted)
        if kind == 'evaluation' and not again:
            # no more is repeated than the frames since the last checkpoint
            last = max([g for g in range(c // per) if g % t == 0], default=0)
            api.holds('continues from the checkpoint', len(log.calls) <= per * (frames - last))
        final(api, w, scheme, frames, dt, p, '')
    finally:
        w.close()


def unrelated(api):
    """A checkpoint of a run with other settings is left alone."""
    w = simrun.World(api, 1, 1, shear=False, background=False, key=key_for('euler'))
    try:
        which = simrun.pick(api, 'which', 0, 4)
        a = dict(argv=('8', '1'), num_frames=3, timestep=0.125)
        b = dict(a)
        if which == 0:
            a.update(num_frames=4)
        elif which == 1:
            a.update(timestep=0.25)
        elif which == 2:
            a.update(argv=('8', '2'))
        elif which == 3:
            a.update(timestep=2.0 ** -14)
        elif which == 4:
            a.update(num_frames=31)
        base = dict(save_to_temp_file_every_n_timesteps=1)
        log = w.run(crash=lambda k, i, x: k == 'evaluation' and i == 2, **a, **base)
        api.holds('stopped', log.interrupted)
        left = simrun.temporary(w)
        api.holds('checkpoint left', len(left) == 1)
        log = w.run(**b, **base)
        api.holds('not picked up', len(log.calls) == 3 and simrun.temporary(w) == left)
        done = simrun.finished(w)
        api.holds('finished', len(done) == 1)
        import types
        calls = [types.SimpleNamespace(e=w.evaluation(key_for('euler')(0, f))) for f in range(3)]
        states, _, _ = C13.expected(api, w, calls, 'euler', 3, api.const(Fr(1, 8)))
        C15.check_archive(api, w, w.read(done[0]), 'euler', states, calls, [0, 1, 2, 3], [0, 1, 2])
    finally:
        w.close()


def other_timestep(api, dt):
    """A checkpoint is picked up by a run of exactly its own timestep, any real."""
    w = simrun.World(api, 1, 0, shear=False, background=False, key=key_for('euler'))
    try:
        base = dict(num_frames=4, save_to_temp_file_every_n_timesteps=1)
        log = w.run(crash=lambda k, i, x: k == 'evaluation' and i == 3, timestep=float(dt), **base)
        api.holds('stopped', log.interrupted)
        t = api.real('T', Fr(1, 100000), 2)
        mine = api.branch(t == api.const(dt))
        if not mine:
            # leave room for a comparison that allows for rounding
            gap = api.const(2 * dt / 10 ** 5 + Fr(2, 10 ** 8))
            api.assume(t < api.const(dt) - gap if api.branch(t < api.const(dt)) else t > api.const(dt) + gap)
        seen = []

        def first(k, i, frame):
            if k == 'evaluation':
                seen.append(frame)
            return k == 'evaluation'
        w.run(crash=first, timestep=float(dt) if mine else t, **base)
        api.holds('started', len(seen) == 1)
        api.holds('continues a run of the same timestep' if mine else 'a run of another timestep is not continued',
                  (seen[0] > 0) if mine else (seen[0] == 0))
    finally:
        w.close()


HARNESSES = [
    H('other-timestep', other_timestep, dt=Fr(1, 8)),
    H('other-timestep-small', other_timestep, dt=Fr(1, 16384)),
    H('euler', resume, scheme='euler', frames=5, n=1, m=1),
    H('euler-small-step', resume, scheme='euler', frames=3, n=1, m=0, dt=Fr(1, 16384), temp=(1, 1)),
    H('euler-dumbbells', resume, scheme='euler', frames=3, n=2, m=1, temp=(1, 2)),
    H('euler-sparse', resume, scheme='euler', frames=6, n=1, m=1, every=(1, 2), temp=(2, 2)),
    H('euler-written', resume, scheme='euler', frames=4, n=1, m=1, kind='written', temp=(1, 2)),
    H('euler-torn', resume, scheme='euler', frames=4, n=1, m=1, kind='torn', temp=(1, 2)),
    H('euler-twice', resume, scheme='euler', frames=5, n=1, m=1, temp=(1, 2), again=True),
    H('rk4', resume, scheme='rk4', frames=3, n=1, m=1, temp=(1, 2)),
    H('unrelated', unrelated),
    H('rk4-written', resume, tiers=('thorough',), scheme='rk4', frames=3, n=1, m=1, kind='written', temp=(1, 2)),
    H('rk4-long', resume, tiers=('thorough',), scheme='rk4', frames=4, n=2, m=1, temp=(1, 3)),
    H('euler-long', resume, tiers=('thorough',), scheme='euler', frames=8, n=2, m=2, temp=(1, 3), max_paths=300,
      limit_s=600),
]
