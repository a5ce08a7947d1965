"""Run the scalar-table scripts on a private folder.

Symbolically the folder is held in memory; natively it is a scratch directory
that is removed afterwards.
"""

import builtins
import os
import shutil
import tempfile

import numpy as np
import loader
from common import *


class Handle:
    def __init__(self, folder, name, mode):
        self.folder, self.name, self.mode = folder, name, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, *a):
        return 0

    def close(self):
        pass


def base(name):
    return os.path.normpath(str(name.name if isinstance(name, Handle) else name)).replace('\\', '/')


class Folder:
    def __init__(self, api, values=None, tables=None, stubs=None, roots=None):
        self.api = api
        self.values = dict(values or {})     # file name -> list of numbers
        self.tables = dict(tables or {})     # file name -> array
        self.saved, self.text = {}, {}
        self.stubs = dict(stubs or {})
        self.roots = roots or [loader.FRS]
        self.dir = None
        if not api.symbolic:
            self.dir = tempfile.mkdtemp(prefix='sdtab')

    def close(self):
        if self.dir:
            os.chdir('/')
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def run(self, script, prepare=None):
        api = self.api
        if api.symbolic:
            ld = api.fresh_loader(roots=self.roots, stubs=self.stubs)
            sa = ld.npshim.SAv
            npx = ld.np

            def loadtxt(name, *a, ndmin=0, **k):
                n = base(name)
                if n not in self.values:
                    raise FileNotFoundError(n)
                v = self.values[n]
                if any(is_sym(x) for x in v):
                    return sa(np.array(v, dtype=object))
                return np.array([float(x) for x in v])

            def load(name, *a, **k):
                n = base(name)
                t = self.saved.get(n, self.tables.get(n))
                if t is None:
                    raise FileNotFoundError(n)
                return sa(np.array(t, dtype=object))

            def save(name, arr, *a, **k):
                n = base(name)
                if '/' in n:
                    raise FileNotFoundError(n)
                self.saved[n if n.endswith('.npy') else n + '.npy'] = np.array(arr, dtype=object)

            def savetxt(name, X, *a, **k):
                self.text.setdefault(base(name), []).append(np.array(X, dtype=object))

            def op(name, mode='r', *a, **k):
                if not set(mode) & set('wax+') and os.path.isabs(str(name)):
                    return builtins.open(name, mode, *a, **k)
                if '/' in base(name):
                    raise FileNotFoundError(name)
                return Handle(self, name, mode)
            npx.loadtxt, npx.load, npx.save, npx.savetxt = loadtxt, load, save, savetxt
            npx.genfromtxt = loadtxt
            ld.builtins['open'] = op
            if prepare:
                prepare(ld)
            return ld.run_script(script)
        ld = api.fresh_loader(roots=self.roots, stubs=self.stubs)
        here = os.path.join(self.dir, 'x')
        os.makedirs(here, exist_ok=True)
        for n, v in self.values.items():
            with open(os.path.join(here, n), 'w') as f:
                f.write('\n'.join(repr(float(x)) for x in v) + '\n')
        for n, t in self.tables.items():
            np.save(os.path.join(here, n), np.array(t, dtype=float))
        if prepare:
            prepare(ld)
        os.chdir(here)
        try:
            return ld.run_script(script)
        finally:
            os.chdir('/')

    def array(self, name):
        if self.api.symbolic:
            return self.saved[name]
        return np.load(os.path.join(self.dir, 'x', name))

    def rows(self, name):
        """The numbers of a readable table (8 digits)."""
        if self.api.symbolic:
            return next(t for t in reversed(self.text[name]) if t.ndim == 2)
        return np.loadtxt(os.path.join(self.dir, 'x', name), skiprows=2)

    def column(self, name):
        if self.api.symbolic:
            return self.text[name][-1]
        return np.loadtxt(os.path.join(self.dir, 'x', name), ndmin=1)


def is_sym(x):
    import sym
    return isinstance(x, sym.Sym)
