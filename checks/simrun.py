"""Run the whole simulation script with abstract physics.

The script is executed as it stands.  What is replaced is the physics below
it: the velocities come back as free variables (one set per evaluation), the
initial configuration is free, and for a periodic run the wrapping returns free
lattice shifts.  Symbolically the output folder is an in-memory file system;
natively it is a scratch directory that is removed afterwards.
"""

import builtins
import fnmatch
import inspect
import os
import shutil
import sys
import tempfile
import types

import numpy as np
from common import *


class Interrupted(BaseException):
    """The machine stops here."""


class Archive(dict):
    """What np.load returns for a stored archive."""

    @property
    def files(self):
        return list(self.keys())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class VFS:
    def __init__(self):
        self.store = {}

    @staticmethod
    def norm(name):
        return os.path.normpath(str(name)).replace('\\', '/')

    def savez(self, name, a, k):
        name = self.norm(name)
        if not name.endswith('.npz'):
            name += '.npz'
        d = {'arr_%d' % i: v for i, v in enumerate(a)}
        d.update(k)
        self.store[name] = {q: np.array(v, dtype=object).copy() if isinstance(v, np.ndarray) or not np.isscalar(v)
                            else v for q, v in d.items()}

    def load(self, name):
        n = self.norm(name)
        if n in self.store:
            if self.store[n] is None:
                raise ValueError('File is not a zip file')
            import npshim
            return Archive({q: npshim.SAv(np.array(v, dtype=object)) for q, v in self.store[n].items()})
        if n.startswith('output/'):
            raise FileNotFoundError(name)
        return NotImplemented

    def glob(self, pattern, **k):
        return [n for n in self.store if fnmatch.fnmatch(n, self.norm(pattern))]

    def exists(self, name):
        return self.norm(name) in self.store

    def remove(self, name):
        if self.norm(name) not in self.store:
            raise FileNotFoundError(name)
        del self.store[self.norm(name)]

    def rename(self, a, b):
        self.store[self.norm(b)] = self.store.pop(self.norm(a))

    def open(self, name, *a, **k):
        mode = a[0] if a else k.get('mode', 'r')
        if not set(mode) & set('wax+') and os.path.isabs(str(name)):
            return builtins.open(name, *a, **k)
        raise OSError('file not modelled: %s' % name)


def fake_modules(fs, clock):
    g = types.ModuleType('glob')
    g.glob = fs.glob
    g.iglob = fs.glob

    class P(types.ModuleType):
        def __getattr__(self, n):
            return getattr(os.path, n)

    path = P('os.path')
    path.exists = path.isfile = fs.exists

    class O(types.ModuleType):
        def __getattr__(self, n):
            return getattr(os, n)

    o = O('os')
    o.path = path
    o.remove = o.unlink = fs.remove
    o.rename = o.replace = fs.rename
    o.makedirs = o.mkdir = lambda *a, **k: None
    o.listdir = lambda d='.': [n[len(fs.norm(d)) + 1:] for n in fs.store if n.startswith(fs.norm(d) + '/')]
    return {'glob': g, 'os': o, 'os.path': path}


def fake_time(clock):
    import time as real

    class T(types.ModuleType):
        def __getattr__(self, n):
            return getattr(real, n)

    t = T('time')

    def tick():
        clock[0] += 1
        return float(clock[0])
    t.time = t.perf_counter = t.monotonic = tick
    t.strftime = lambda *a: '2601010000'
    return t


class World:
    """Everything outside the script: the initial configuration, the velocities
    the hydrodynamics would return and the disk."""

    def __init__(self, api, n, m, periodic=False, key='call', background=True, shear=True, markers=True):
        self.api, self.n, self.m = api, n, m
        self.periodic, self.key = periodic, key
        self.background, self.shear = background, shear
        A = api.arr
        self.x0 = vecs(api, 'x', n, -10, 10)
        self.r0 = [[add(x, vec3(api, 'mk%d%d' % (i, j), -1, 1)) for j in range(2)]
                   for i, x in enumerate(self.x0)]
        self.y0 = vecs(api, 'y', m, -10, 10)
        self.d0 = vecs(api, 'd', m, -1, 1)
        self.sizes = [1] * n
        self.bsizes = [1] * m
        self.fs = VFS() if api.symbolic else None
        self.dir = None
        self.shifts = []
        self.data = {}
        self.clock = [0]
        self.box = ([-20, -20, -20], [20, 20, 20]) if periodic else ([0, 0, 0], [0, 0, 0])
        if not api.symbolic:
            self.dir = tempfile.mkdtemp(prefix='sdrun')
            os.mkdir(os.path.join(self.dir, 'output'))

    def close(self):
        if self.dir:
            os.chdir('/')
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def posdata(self):
        A, n, m = self.api.arr, self.n, self.m
        return posdata(self.api, self.sizes, self.x0, self.bsizes, self.y0, self.d0, rotations=self.r0)

    # -- physics -------------------------------------------------------------
    def evaluation(self, k):
        """The free outcome of velocity evaluation `k`."""
        if k in self.data:
            return self.data[k]
        api, n, m = self.api, self.n, self.m
        t = str(k).replace('.', 'h').replace(' ', '')
        e = types.SimpleNamespace()
        e.U, e.O = vecs(api, 'U%s_' % t, n, -3, 3), vecs(api, 'O%s_' % t, n, -3, 3)
        e.Ub, e.H = vecs(api, 'Ub%s_' % t, m, -3, 3), vecs(api, 'H%s_' % t, m, -3, 3)
        z = [api.const(0)] * 3
        e.Uinf = vec3(api, 'Ui%s_' % t, -3, 3) if self.background else z
        if self.shear:
            e.Oinf = vec3(api, 'Oi%s_' % t, -1, 1)
            e.E = traceless(api, 'Ei%s_' % t, 1, -1, 1)[0]
        else:
            e.Oinf, e.E = z, [z, z, z]
        e.centre = self.centre()
        e.F, e.Fb, e.D = vecs(api, 'F%s_' % t, n), vecs(api, 'Fb%s_' % t, m), vecs(api, 'D%s_' % t, m)
        e.S = [[vec3(api, 'S%s_%d%d' % (t, i, j)) for j in range(3)] for i in range(n)]
        e.W = vecs(api, 'W%s_' % t, n)
        e.Ot = api.real('Ot%s' % t, -1, 1)
        e.Et = api.real('Et%s' % t, -1, 1)
        self.data[k] = e
        return e

    def centre(self):
        return vec3(self.api, 'cbf', -5, 5)

    def flow(self, e, x):
        d = sub(x, e.centre)
        return add(e.Uinf, add(cross(e.Oinf, d), matvec(e.E, d)))

    def sphere_velocity(self, e, i, x):
        return add(e.U[i], self.flow(e, x))

    def sphere_spin(self, e, i):
        return add(e.O[i], e.Oinf)

    def dumbbell_velocity(self, e, i, x):
        return add(e.Ub[i], self.flow(e, x))

    def dumbbell_stretch(self, e, i, d):
        """Rate of change of the bead-to-bead vector."""
        return add(scale(2, e.H[i]), add(cross(e.Oinf, d), matvec(e.E, d)))

    def turn(self, x, r, xn, spin, dt):
        """The abstract marker update (the real one is decided on its own)."""
        q = sub(r, x)
        return add(xn, add(q, scale(dt, cross(spin, q))))

    def shift(self, x):
        """Lattice shift that wrapping gives to a particle at x: free, one and the
        same for one and the same position."""
        if not self.periodic:
            return [0, 0, 0]
        for y, v in self.shifts:
            if same(self.api, x, y):
                return v
        v = vec3(self.api, 'w%d_' % len(self.shifts), -40, 40)
        self.shifts.append((list(x), v))
        return v

    # -- running ---------------------------------------------------------------
    def run(self, crash=None, argv=('8', '1'), guard=False, extra=None, **settings):
        """Run the script.  `crash(kind, number)` may return True to stop the
        machine at the given evaluation or save ('torn' saves too)."""
        api, w = self.api, self
        st = {'view_graphics': False, 'email_on_completion': False, 'printout': 0}
        st.update(settings)
        log = types.SimpleNamespace(calls=[], saves=[], wraps=[], error=None, interrupted=False)
        kw = dict(settings=st)
        stubs = {'time': fake_time(self.clock), 'psutil': Stubby(), 'functions.email': Stubby()}
        if api.symbolic:
            stubs.update(fake_modules(self.fs, self.clock))
            stubs.update(extra or {})
            ld = api.fresh_loader(stubs=stubs, files=self.fs, **kw)
        else:
            real_time = sys.modules['time']
            ld = api.fresh_loader(stubs=dict(extra or {}, **{'functions.email': stubs['functions.email']}), **kw)
        ld.argv = list(argv)
        sh = ld.load('functions.shared')
        ts = ld.load('functions.timestepping')
        inp = ld.load('setups.inputs')
        sh.same_setup_as = lambda *a, **k: w.posdata()
        A = api.arr
        n, m = self.n, self.m

        def inputs(*a, **k):
            nul = [0, 0, 0]
            return tuple([None] * 12 + ['', np.array(nul), np.array(nul), np.array(nul), np.zeros((3, 3)),
                                        np.zeros((3, 3)), np.array(self.box[0]), np.array(self.box[1]), 1])
        inp.input_ftsuoe = inputs

        real_evaluate, real_turn, real_wrap = ts.generate_output_FTSUOE, ts.euler_timestep_rotation, ts.wrap_around

        def evaluate(*a, **k):
            g = Given(real_evaluate, a, k)
            posdata, frameno, timestep = g('posdata', 0), g('frameno', 1), g('timestep', 2)
            last_Minv, regenerate = g('last_generated_Minfinity_inverse', 4), g('regenerate_Minfinity', 5)
            c = len(log.calls)
            if crash is not None and crash('evaluation', c, frameno):
                raise Interrupted()
            kk = c if self.key == 'call' else self.key(c, frameno)
            e = w.evaluation(kk)
            call = types.SimpleNamespace(
                spheres=listed(posdata[1], n), markers=posdata[2], dumbbells=listed(posdata[4], m),
                deltax=listed(posdata[5], m), sizes=posdata[0], bsizes=posdata[3],
                frame=frameno, dt=timestep, Minv=last_Minv, regenerate=regenerate, e=e, k=kk,
                input=g('input_number', 3), form=g('input_form', 6), cutoff=g('cutoff_factor', 7),
                drag=g('use_drag_Minfinity', 9), far_only=g('use_Minfinity_only', 10),
                wall=g('extract_force_on_wall_due_to_dumbbells', 11))
            log.calls.append(call)
            Minv = np.array([1000 + c]) if regenerate else last_Minv

            def arr(v):
                return A(v) if len(v) else empty3(api)
            E = A([e.E] * max(n, 1))
            S = A(e.S) if n else np.empty([0, 3, 3])
            lvv = np.array([c])
            return (arr(e.F), arr(e.F), S, arr(e.Fb), arr(e.D), arr(e.U), arr(e.O), E, arr(e.Ub), arr(e.H),
                    Minv, [0.0, 0.0, 0.0, 0.0], A(e.Uinf), A(e.Oinf), A(e.centre),
                    A([e.Ot, 0, 0]), A([[e.Et, 0, 0], [0, 0, 0], [0, 0, 0]]), arr(e.W), lvv)
        ts.generate_output_FTSUOE = evaluate

        def turn(*a, **k):
            g = Given(real_turn, a, k)
            pos, rot, newpos, newrot, O, dt = [g(None, i) for i in range(6)]
            out = np.array(newrot, dtype=object) if api.symbolic else np.array(newrot, dtype=float)
            for i in range(len(pos)):
                for j in range(2):
                    v = w.turn(list(pos[i]), list(rot[i][j]), list(newpos[i]), list(O[i]), dt)
                    for q in range(3):
                        out[i][j][q] = v[q]
            return api.ctx and (ld.npshim.SAv(out) if api.symbolic else out)
        ts.euler_timestep_rotation = turn

        def wrap(*a, **k):
            g = Given(real_wrap, a, k)
            pos, bl, tr, Ot, Et = [g(None, i) for i in range(5)]
            log.wraps.append(types.SimpleNamespace(pos=[list(p) for p in pos], bl=bl, tr=tr, Ot=Ot, Et=Et,
                                                   after=len(log.calls)))
            return A([add(list(p), w.shift(list(p))) for p in pos])
        ts.wrap_around = wrap

        # decided on its own; would only split the run into many paths
        if not guard:
            ts.did_something_go_wrong_with_dumbells = lambda error, *a, **k: error

        np_ = ld.np
        orig = np_.savez_compressed, np_.savez

        def save(real):
            def f(name, *a, **k):
                c = len(log.saves)
                kind = crash('save', c, str(name)) if crash is not None else False
                log.saves.append((str(name), sorted(k)))
                if kind == 'torn':
                    if api.symbolic:
                        w.fs.store[VFS.norm(str(name) if str(name).endswith('.npz') else str(name) + '.npz')] = None
                    else:
                        p = str(name) if str(name).endswith('.npz') else str(name) + '.npz'
                        real(name, *a, **k)
                        with open(p, 'r+b') as fh:
                            fh.truncate(max(1, os.path.getsize(p) // 3))
                    raise Interrupted()
                real(name, *a, **k)
                if kind:
                    raise Interrupted()
            return f
        np_.savez_compressed, np_.savez = save(orig[0]), save(orig[1])
        try:
            if not api.symbolic:
                for mod in ('resistance_scalars.data', 'functions.timestepping'):
                    ld.load(mod)
                os.chdir(self.dir)
            log.module = ld.run_script('run_simulation')
        except Interrupted:
            log.interrupted = True
        except SystemExit as e:
            log.error = str(e.code)
        finally:
            np_.savez_compressed, np_.savez = orig
            if not api.symbolic:
                os.chdir('/')
        return log

    # -- the disk -----------------------------------------------------------------
    def files(self):
        if self.fs is not None:
            return sorted(self.fs.store)
        return sorted('output/' + f for f in os.listdir(os.path.join(self.dir, 'output')))

    def read(self, name):
        if self.fs is not None:
            return self.fs.load(name)
        with np.load(os.path.join(self.dir, name)) as d:
            return Archive({k: d[k] for k in d.files})


class Stubby(types.ModuleType):
    """A library the run only consults for decoration."""

    def __init__(self, name='stub'):
        super().__init__(name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Num()


class Num(float):
    def __call__(self, *a, **k):
        return Num(1.0)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Num(1.0)


class Given:
    """The arguments of a call as the real function would receive them."""

    def __init__(self, fn, a, k):
        b = inspect.signature(getattr(fn, 'py_func', fn)).bind(*a, **k)
        b.apply_defaults()
        self.by_name, self.by_place = b.arguments, list(b.arguments.values())

    def __call__(self, name, place):
        return self.by_name[name] if name in self.by_name else self.by_place[place]


def same(api, got, want):
    if api.symbolic:
        import sym
        return all(not (sym.lift(g) - sym.lift(v)).p for g, v in zip(got, want))
    return all(abs(g - v) < 1e-6 * (1 + abs(v)) for g, v in zip(got, want))


def listed(a, n):
    return [list(a[i]) for i in range(n)]


def pick(api, name, lo, hi):
    """A free integer, made concrete path by path."""
    v = api.int(name, lo, hi)
    for k in range(lo, hi):
        if api.branch(v == k):
            return k
    return hi


def finished(w):
    return [f for f in w.files() if not f.endswith('_TEMP.npz')]


def temporary(w):
    return [f for f in w.files() if f.endswith('_TEMP.npz')]
