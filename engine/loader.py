"""Execute the repository's own source files on symbolic values.

`SymLoader` compiles the files as they are in the working tree and runs them in
fresh module objects whose imports of numerical libraries are redirected to the
stand-ins in npshim.  `NativeLoader` imports the same files with the real
libraries (used for replays and for validating the encoding).
"""

import builtins
import importlib
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
SD = os.path.join(REPO, 'stokesian_dynamics')
FRS = os.path.join(REPO, 'find_resistance_scalars')


class Stub:
    """Absorbs any use (plotting, progress printing, ...)."""

    def __init__(self, name='stub'):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Stub(self._n + '.' + n)

    def __call__(self, *a, **k):
        return Stub(self._n + '()')

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def __getitem__(self, k):
        return Stub(self._n)

    def __iter__(self):
        return iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def identity_decorator(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


def make_numba():
    m = types.ModuleType('numba')
    m.njit = identity_decorator
    m.jit = identity_decorator
    m.vectorize = identity_decorator
    m.guvectorize = identity_decorator
    m.prange = range
    m.config = Stub('numba.config')
    m.set_num_threads = lambda *a: None
    m.get_num_threads = lambda *a: 1
    for t in ('float64', 'int64', 'boolean', 'void'):
        setattr(m, t, Stub(t))
    return m


class BaseLoader:
    """Common override handling.  `settings` is a dict of names to force in the
    settings module before anything else reads them."""

    symbolic = True

    def __init__(self, settings=None, roots=None):
        self.settings_over = dict(settings or {})
        self.roots = roots or [SD]
        self.mods = {}
        self.functions = {}


class SymLoader(BaseLoader):
    symbolic = True

    def __init__(self, settings=None, roots=None, stubs=None, files=None, quiet=True):
        super().__init__(settings, roots)
        import npshim
        self.npshim = npshim
        self.np = npshim.NP()
        self.np.files = files
        self.files = files
        self.quiet = quiet
        self.printed = []
        mathm = npshim.MathShim()
        sp = types.ModuleType('scipy')
        spd = types.ModuleType('scipy.spatial.distance')
        spd.pdist, spd.squareform, spd.cdist = npshim.pdist, npshim.squareform, npshim.cdist
        sps = types.ModuleType('scipy.spatial')
        sps.distance = spd
        sp.spatial = sps
        sp.sparse = npshim.Sparse()
        special = types.ModuleType('scipy.special')
        special.erfc = mathm.erfc
        special.erf = mathm.erf
        import scipy.special as _ss
        for n in ('comb', 'zeta', 'factorial'):
            setattr(special, n, getattr(_ss, n))

        def zeta(x, q=1, **k):
            if any(isinstance(v, npshim.Sym) and not v.is_const() for v in (x, q)):
                return npshim.sym.uf('zeta', [npshim.sym.lift(x), npshim.sym.lift(q)],
                                     num=lambda a, b: float(_ss.zeta(a, b)))
            return float(_ss.zeta(float(x), float(q)))
        special.zeta = zeta
        sp.special = special
        sl = types.ModuleType('scipy.linalg')
        sl.inv, sl.solve, sl.norm = self.np.linalg.inv, self.np.linalg.solve, self.np.linalg.norm
        sp.linalg = sl
        self.stubs = {
            'numpy': self.np, 'numpy.linalg': self.np.linalg, 'math': mathm,
            'scipy': sp, 'scipy.spatial': sps, 'scipy.spatial.distance': spd,
            'scipy.sparse': sp.sparse, 'scipy.special': special, 'scipy.linalg': sl,
            'numba': make_numba(),
            'matplotlib': Stub('matplotlib'), 'matplotlib.pyplot': Stub('plt'),
            'mpl_toolkits': Stub('mpl'), 'mpl_toolkits.mplot3d': Stub('mpl3d'),
            'IPython': Stub('IPython'),
        }
        self.stubs.update(stubs or {})
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['float'] = npshim.b_float
        b['int'] = npshim.b_int
        b['min'] = npshim.b_min
        b['max'] = npshim.b_max
        b['round'] = npshim.b_round
        b['range'] = npshim.b_range
        b['print'] = self._print
        b['input'] = lambda *a: ''
        self.builtins = b
        if files is not None:
            b['open'] = files.open

    def _print(self, *a, **k):
        if not self.quiet:
            builtins.print(*a, **k)
        if len(self.printed) < 10000:
            self.printed.append(a)

    def _find(self, name):
        rel = name.replace('.', '/')
        for r in self.roots:
            for cand in (os.path.join(r, rel + '.py'),):
                if os.path.isfile(cand):
                    return cand
        return None

    def _is_pkg(self, name):
        rel = name.replace('.', '/')
        return any(os.path.isdir(os.path.join(r, rel)) for r in self.roots)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')[:len(pkg.split('.')) - level + 1]
            name = '.'.join([p for p in parts if p] + ([name] if name else []))
        if name in self.stubs:
            m = self.stubs[name]
            if fromlist or '.' not in name:
                return m
            top = name.split('.')[0]
            return self.stubs.get(top, m)
        if self._find(name):
            m = self.load(name)
            if fromlist or '.' not in name:
                return m
            return self._namespace(name.split('.')[0])
        if self._is_pkg(name):
            ns = self._namespace(name)
            for f in fromlist or ():
                if self._find(name + '.' + f):
                    setattr(ns, f, self.load(name + '.' + f))
            return ns if fromlist else self._namespace(name.split('.')[0])
        top = name.split('.')[0]
        if top in self.stubs and top in ('matplotlib', 'mpl_toolkits', 'IPython'):
            return self.stubs[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _namespace(self, name):
        if name not in self.mods:
            self.mods[name] = types.ModuleType(name)
        return self.mods[name]

    def load(self, name, preset=None):
        if name in self.mods and hasattr(self.mods[name], '__file__'):
            return self.mods[name]
        path = self._find(name)
        if path is None:
            raise ImportError(name)
        with builtins.open(path) as f:
            src = f.read()
        code = compile(src, path, 'exec')
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if preset:
            m.__dict__.update(preset)
        argv = sys.argv
        sys.argv = ['run_simulation.py'] + list(getattr(self, 'argv', []))
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        finally:
            sys.argv = argv
        if name == 'settings':
            m.__dict__.update(self.settings_over)
        # attach to parent namespace
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            setattr(self._namespace(parent), leaf, m)
        for k, v in m.__dict__.items():
            if isinstance(v, types.FunctionType) and v.__code__.co_filename == path:
                self.functions['%s.%s' % (name, k)] = v
        return m

    def run_script(self, name, preset=None):
        """Execute a script module from scratch (always re-executed)."""
        self.mods.pop(name, None)
        return self.load(name, preset)


class NativeLoader(BaseLoader):
    """The real modules with the real libraries, imported from the same files.

    Used in the replay subprocess only."""

    symbolic = False

    def __init__(self, settings=None, roots=None, stubs=None, files=None, quiet=True):
        super().__init__(settings, roots)
        import numpy
        self.np = numpy
        self.files = files
        self.stubs = dict(stubs or {})
        for r in reversed(self.roots):
            if r in sys.path:
                sys.path.remove(r)
            sys.path.insert(0, r)
        os.chdir(self.roots[0])
        # forget any earlier copies
        for n in list(sys.modules):
            f = getattr(sys.modules[n], '__file__', None) or ''
            if f.startswith(REPO + '/') or n in self.stubs or n.split('.')[0] in (
                    'functions', 'setups', 'settings', 'resistance_scalars'):
                del sys.modules[n]
        for n, m in self.stubs.items():
            sys.modules[n] = m

    def load(self, name, preset=None):
        argv = sys.argv
        sys.argv = ['run_simulation.py'] + list(getattr(self, 'argv', []))
        try:
            if 'settings' not in sys.modules and SD in self.roots:
                s = importlib.import_module('settings')
                s.__dict__.update(self.settings_over)
            return importlib.import_module(name)
        finally:
            sys.argv = argv

    def run_script(self, name, preset=None):
        path = next(os.path.join(r, name.replace('.', '/') + '.py') for r in self.roots
                    if os.path.isfile(os.path.join(r, name.replace('.', '/') + '.py')))
        with builtins.open(path) as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__file__ = path
        b = dict(vars(builtins))
        b['input'] = lambda *a: ''
        b['print'] = lambda *a, **k: None
        m.__dict__['__builtins__'] = b
        if preset:
            m.__dict__.update(preset)
        argv = sys.argv
        sys.argv = ['run_simulation.py'] + list(getattr(self, 'argv', []))
        try:
            if 'settings' not in sys.modules and SD in self.roots:
                s = importlib.import_module('settings')
                s.__dict__.update(self.settings_over)
            exec(compile(src, path, 'exec'), m.__dict__)
        finally:
            sys.argv = argv
        return m
