"""numpy / math / scipy stand-ins that let the repository's code run on `Sym`.

Only numerical primitives are replaced (array creation, elementary functions,
norm, inverse, solve, interp, ...).  Anything else falls through to the real
library.
"""

import builtins
import math
import numpy as _np
from fractions import Fraction
import sym
from sym import Sym, SymBool, SymError, lift, is_sym

FLOATS = (float, _np.float64, _np.float32, 'float', 'float64', 'f8', 'd', _np.double,
          _np.dtype(float), complex)


def has_sym(a):
    """Does the (nested) argument contain symbolic values?"""
    if isinstance(a, (Sym, SymBool)):
        return True
    if isinstance(a, _np.ndarray):
        if a.dtype != object:
            return False
        return any(isinstance(x, (Sym, SymBool)) for x in a.flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def is_float_dtype(dt):
    if dt is None or dt is b_float:
        return True
    if dt is b_int:
        return False
    try:
        return _np.dtype(dt).kind in 'fc'
    except TypeError:
        return False


def is_int_dtype(dt):
    if dt is b_int:
        return True
    try:
        return _np.dtype(dt).kind in 'iu'
    except TypeError:
        return False


class SA(_np.ndarray):
    """Object array whose conversion to float keeps symbolic values."""

    def astype(self, dt, *a, **k):
        if self.dtype == object and is_float_dtype(dt):
            return _floatify(self.copy())
        if self.dtype == object and is_int_dtype(dt) and has_sym(self):
            return f_array(self, dtype=int)
        if dt in (b_int, b_float):
            dt = {b_int: int, b_float: float}[dt]
        return _np.ndarray.astype(self, dt, *a, **k)

    def round(self, decimals=0, out=None):
        return tidy(f_round(self, decimals))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return f_mean(self, axis=axis, keepdims=keepdims)


def SAv(a):
    return a if isinstance(a, SA) or not isinstance(a, _np.ndarray) else a.view(SA)


def objarr(a):
    """Object-dtype view of anything array-like."""
    if isinstance(a, _np.ndarray):
        if a.dtype == object:
            return a
        return _np.asarray(a).astype(object)
    r = _np.array(_plain(a) if has_sym(a) else a, dtype=object)
    return SAv(r)


def tidy(a):
    """Float arrays become object arrays, so symbolic values may be stored."""
    if isinstance(a, _np.ndarray):
        if a.dtype.kind in 'fc':
            return _np.asarray(a).astype(object).view(SA)
        if a.dtype == object:
            return SAv(a)
    return a


def unary(fsym, fnum):
    def f(x, *args, **kw):
        if isinstance(x, Sym):
            return fsym(x)
        if isinstance(x, (list, tuple)):
            x = _np.array(x, dtype=object) if has_sym(x) else _np.asarray(x)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            out = _np.empty(x.shape, dtype=object)
            for i, v in _np.ndenumerate(x):
                out[i] = fsym(v) if isinstance(v, Sym) else fscal(v)
            return out
        if isinstance(x, _np.ndarray):
            return fnum(x, *args, **kw)
        return fscal(x)

    def fscal(v):
        r = fnum(v)
        return r.item() if hasattr(r, 'item') else r
    return f


def sqrt_scalar(v):
    """Exact square roots of numbers in symbolic mode."""
    if isinstance(v, (int, float, Fraction)) or hasattr(v, 'dtype'):
        q = sym.to_q(v)
        if q >= 0 and Fraction(q).denominator < 10**6 and abs(q) < 10**9:
            s = sym.sqrt(Sym.const(q))
            if s.is_const():
                return float(s.const_value())
            return s
    return math.sqrt(v)


def f_sqrt(x, *a, **k):
    if isinstance(x, Sym):
        return sym.sqrt(x)
    if isinstance(x, _np.ndarray) or isinstance(x, (list, tuple)):
        x = objarr(x)
        out = _np.empty(x.shape, dtype=object)
        for i, v in _np.ndenumerate(x):
            out[i] = sym.sqrt(v) if isinstance(v, Sym) else sqrt_scalar(v)
        return out
    return sqrt_scalar(x)


def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, 'fro'):
        if has_sym(x):
            raise SymError('norm with ord=%r' % (ord,))
        return _np.linalg.norm(_np.asarray(x, dtype=float), ord, axis, keepdims)
    if not has_sym(x):
        return tidy(_np.linalg.norm(_np.asarray(x, dtype=float), ord, axis, keepdims))
    x = objarr(x)
    return f_sqrt((x * x).sum(axis=axis, keepdims=keepdims) if axis is not None
                  else sum((v * v for v in x.flat), 0))


def f_array(a, dtype=None, copy=True, **kw):
    if isinstance(a, (range, map, zip)):
        a = list(a)
    if dtype is not None and not is_float_dtype(dtype):
        if dtype is b_int:
            dtype = int
        if has_sym(a) and _np.dtype(dtype).kind in 'iu':
            b = objarr(a)
            out = _np.empty(b.shape, dtype=object)
            for i, v in _np.ndenumerate(b):
                out[i] = int(v)
            return out.astype(dtype)
        return _np.array(a, dtype=dtype, **kw)
    if isinstance(a, _np.ndarray):
        if dtype is not None and a.dtype.kind == 'U':
            return tidy(_np.array(a, dtype=float))     # raises like numpy
        if dtype is not None and a.dtype == object:
            return SAv(_floatify(a.copy()))
        if dtype is not None:
            return tidy(_np.array(a, dtype=float))
        return tidy(_np.array(a, copy=True))
    if has_sym(a):
        r = SAv(_np.array(_plain(a), dtype=object))
        if dtype is not None:
            r = _floatify(r)
        return r
    if dtype is not None:
        return tidy(_np.array(a, dtype=float, **kw))
    return tidy(_np.array(a, **kw))


def _floatify(r):
    for i, v in _np.ndenumerate(r):
        if isinstance(v, (str, bytes)):
            r[i] = float(v)
        elif isinstance(v, SymBool):
            r[i] = int(bool(v))
    return r


def _plain(a):
    """numpy cannot nest arrays and lists of unequal kinds into one object
    array reliably: turn arrays into lists first."""
    if isinstance(a, _np.ndarray):
        return a.tolist() if a.ndim else a.item()
    if isinstance(a, (list, tuple)):
        return [_plain(x) for x in a]
    return a


def f_asarray(a, dtype=None, **kw):
    if isinstance(a, _np.ndarray) and a.dtype == object and is_float_dtype(dtype):
        return a if dtype is None else _floatify(a)
    if isinstance(a, _np.ndarray) and dtype is None:
        return a
    return f_array(a, dtype)


def f_zeros(shape, dtype=None, **kw):
    if is_float_dtype(dtype):
        r = _np.empty(shape, dtype=object)
        r[...] = 0
        return SAv(r)
    return _np.zeros(shape, dtype=int if dtype is b_int else dtype)


def f_ones(shape, dtype=None, **kw):
    if is_float_dtype(dtype):
        r = _np.empty(shape, dtype=object)
        r[...] = 1
        return SAv(r)
    return _np.ones(shape, dtype=int if dtype is b_int else dtype)


def f_full(shape, v, dtype=None, **kw):
    if is_float_dtype(dtype):
        r = _np.empty(shape, dtype=object)
        if isinstance(v, Sym):
            for i in _np.ndindex(r.shape):
                r[i] = v
        else:
            r[...] = v
        return r
    return _np.full(shape, v, dtype=int if dtype is b_int else dtype)


def f_eye(n, m=None, k=0, dtype=None):
    return _np.eye(n, m, k).astype(int).astype(object) if is_float_dtype(dtype) \
        else _np.eye(n, m, k, dtype=dtype)


def f_zeros_like(a, dtype=None, **kw):
    if isinstance(a, _np.ndarray) and a.dtype.kind in 'iub' and dtype is None:
        return _np.zeros_like(a)
    return f_zeros(_np.shape(a), dtype)


def f_ones_like(a, dtype=None, **kw):
    if isinstance(a, _np.ndarray) and a.dtype.kind in 'iub' and dtype is None:
        return _np.ones_like(a)
    return f_ones(_np.shape(a), dtype)


# --- linear algebra ---------------------------------------------------------

def _is_zero(v):
    if isinstance(v, Sym):
        return not v.p
    return v == 0


def monomial_scaling(A):
    """Write A_ij = N_ij * r_i * c_j with rational N and monomials r, c.
    Returns (N, r, c) or None."""
    n, m = A.shape
    r = [None] * n
    c = [None] * m
    # entries must be single terms
    mons = {}
    coef = {}
    for i in range(n):
        for j in range(m):
            v = A[i, j]
            if _is_zero(v):
                coef[i, j] = 0
                continue
            if isinstance(v, Sym):
                if len(v.p) != 1:
                    return None
                (mm, cc), = v.p.items()
            else:
                mm, cc = (), sym.to_q(v)
            mons[i, j] = dict(mm)
            coef[i, j] = cc
    rows = {}
    cols = {}
    # spread from each connected component
    for i0 in range(n):
        if i0 in rows:
            continue
        rows[i0] = {}
        stack = [('r', i0)]
        while stack:
            kind, k = stack.pop()
            if kind == 'r':
                for j in range(m):
                    if (k, j) in mons:
                        want = _msub(mons[k, j], rows[k])
                        if j in cols:
                            if cols[j] != want:
                                return None
                        else:
                            cols[j] = want
                            stack.append(('c', j))
            else:
                for i in range(n):
                    if (i, k) in mons:
                        want = _msub(mons[i, k], cols[k])
                        if i in rows:
                            if rows[i] != want:
                                return None
                        else:
                            rows[i] = want
                            stack.append(('r', i))
    for j in range(m):
        cols.setdefault(j, {})
    N = [[Fraction(coef[i, j]) for j in range(m)] for i in range(n)]
    return N, rows, cols


def _msub(a, b):
    d = dict(a)
    for g, e in b.items():
        v = d.get(g, 0) - e
        if v:
            d[g] = v
        else:
            d.pop(g, None)
    return d


def _rat_solve(N, B):
    """Exact Gaussian elimination over the rationals."""
    n = len(N)
    M = [list(map(Fraction, N[i])) + list(map(Fraction, B[i])) for i in range(n)]
    w = len(M[0])
    for k in range(n):
        piv = next((i for i in range(k, n) if M[i][k] != 0), None)
        if piv is None:
            raise _np.linalg.LinAlgError('Singular matrix')
        M[k], M[piv] = M[piv], M[k]
        inv = 1 / M[k][k]
        M[k] = [v * inv for v in M[k]]
        for i in range(n):
            if i != k and M[i][k] != 0:
                f = M[i][k]
                M[i] = [a - f * b if b else a for a, b in zip(M[i], M[k])]
    return [row[n:] for row in M]


def _mono_sym(d, sign):
    return Sym({tuple(sorted((g, e * sign) for g, e in d.items())): 1})


def _q_to_py(q):
    return q.numerator if q.denominator == 1 else q


def f_inv(A):
    if not has_sym(A):
        A = objarr(A)
        if A.ndim != 2 or A.shape[0] != A.shape[1]:
            raise _np.linalg.LinAlgError('must be square')
        return tidy(_np.linalg.inv(_np.array(A, dtype=float)))
    A = objarr(A)
    n = A.shape[0]
    if n == 0:
        return A.copy()
    if A.ndim != 2 or A.shape[1] != n:
        raise _np.linalg.LinAlgError('must be square')
    ms = monomial_scaling(A)
    if ms is not None:
        N, rows, cols = ms
        I = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        X = _rat_solve(N, I)
        out = _np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                q = X[i][j]
                out[i, j] = 0 if q == 0 else \
                    Sym({(): _q_to_py(q)}) * _mono_sym(cols[i], -1) * _mono_sym(rows[j], -1)
        return out
    if n > 6:
        return abstract_inverse(A)
    return adjugate_inverse(A)


ABSTRACT = {}


def abstract_inverse(A):
    """A^-1 as a matrix of fresh values tied to A by A*X = I and X*A = I (the
    relation is recorded and can be used by harnesses through `ABSTRACT`)."""
    key = tuple(frozenset(sym.ratnorm(lift(v).p).items()) for v in A.flat)
    if key in ABSTRACT:
        return ABSTRACT[key][1].copy()
    n = A.shape[0]
    symm = all(not (lift(A[i, j]) - A[j, i]).p for i in range(n) for j in range(i))
    X = _np.empty((n, n), dtype=object)
    k = len(ABSTRACT)
    for i in range(n):
        for j in range(n):
            if symm and j < i:
                X[i, j] = X[j, i]
            else:
                g = sym.new_gen('inv%d_%d_%d' % (k, i, j), 'uf')
                g.fname = 'inv'
                g.args = []

                def num(env, i=i, j=j):
                    c = env.setdefault('__inv__', {})
                    if k not in c:
                        c[k] = _np.linalg.inv(_np.array(
                            [[sym.evalf(lift(A[p, q]).p, env) for q in range(n)]
                             for p in range(n)], dtype=float))
                    return c[k][i, j]
                g.num = num
                X[i, j] = Sym({((g.id, 1),): 1})
    ABSTRACT[key] = (A.copy(), X)
    return X.copy()


def det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    tot = 0
    for j in range(n):
        if _is_zero(A[0, j]):
            continue
        sub = _np.delete(_np.delete(A, 0, 0), j, 1)
        tot = tot + (A[0, j] if j % 2 == 0 else -A[0, j]) * det(sub)
    return tot


def adjugate_inverse(A):
    n = A.shape[0]
    d = lift(det(A))
    rd = sym.recip(d)
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = 1
            else:
                c = det(_np.delete(_np.delete(A, j, 0), i, 1))
            if (i + j) % 2:
                c = -c
            out[i, j] = c * rd
    return out


def f_solve(A, b):
    if not has_sym(A) and not has_sym(b):
        return tidy(_np.linalg.solve(_np.array(objarr(A), dtype=float), _np.array(objarr(b), dtype=float)))
    A = objarr(A)
    b = objarr(b)
    if not has_sym(A):
        n = A.shape[0]
        I = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        N = [[Fraction(sym.to_q(A[i, j])) for j in range(n)] for i in range(n)]
        X = _rat_solve(N, I)
        inv = _np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                inv[i, j] = _q_to_py(X[i][j])
        return _np.dot(inv, b)
    return _np.dot(f_inv(A), b)


# --- comparisons --------------------------------------------------------------

def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return _np.isclose(_np.asarray(a, dtype=float), _np.asarray(b, dtype=float), rtol, atol)

    def one(x, y):
        y_ = lift(y)
        d = abs(lift(x) - y_)
        return d <= atol + rtol * abs(y_)
    if is_sym(a) and is_sym(b) or (_np.ndim(a) == 0 and _np.ndim(b) == 0):
        return one(a, b)
    A, B = _np.broadcast_arrays(objarr(a), objarr(b))
    out = _np.empty(A.shape, dtype=object)
    for i in _np.ndindex(A.shape):
        out[i] = bool(one(A[i], B[i]))
    return out.astype(bool)


def f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    if isinstance(r, _np.ndarray):
        return bool(r.all())
    return bool(r)


def f_array_equal(a, b, **kw):
    a = objarr(a)
    b = objarr(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.flat, b.flat):
        if isinstance(x, str) or isinstance(y, str):
            if x is not y and not (isinstance(x, str) and isinstance(y, str) and x == y):
                return False
            continue
        if not bool(x == y):
            return False
    return True


def _fold(op):
    def scan(vals):
        it = iter(vals)
        try:
            best = next(it)
        except StopIteration:
            raise ValueError('zero-size array to reduction operation')
        for v in it:
            if bool(v < best if op == 'min' else v > best):
                best = v
        return best

    def f(a, axis=None, **kw):
        if not has_sym(a):
            a = _np.asarray(a)
            if a.dtype == object:
                a = a.astype(float)
            return getattr(_np, op)(a, axis=axis, **kw)
        a = objarr(a)
        if axis is None:
            return scan(a.flat)
        a = _np.moveaxis(a, axis, -1)
        out = _np.empty(a.shape[:-1], dtype=object)
        for i in _np.ndindex(out.shape):
            out[i] = scan(a[i])
        return SAv(out)
    return f


def f_minmax2(op):
    def one(a, b):
        return a if bool(a < b if op == 'min' else a > b) else b

    def f(a, b, **kw):
        if not has_sym(a) and not has_sym(b):
            return getattr(_np, op + 'imum')(a, b)
        if _np.ndim(a) == 0 and _np.ndim(b) == 0:
            return one(a, b)
        A, B = _np.broadcast_arrays(objarr(a), objarr(b))
        out = _np.empty(A.shape, dtype=object)
        for i in _np.ndindex(A.shape):
            out[i] = one(A[i], B[i])
        return out
    return f


def _boolify(c):
    if isinstance(c, SymBool):
        return bool(c)
    if isinstance(c, _np.ndarray) and c.dtype == object:
        out = _np.empty(c.shape, dtype=bool)
        for i, v in _np.ndenumerate(c):
            out[i] = bool(v)
        return out
    return c


def f_where(c, *xy):
    c = _boolify(c)
    if not xy:
        return _np.where(c)
    x, y = xy
    if has_sym(x) or has_sym(y):
        C, X, Y = _np.broadcast_arrays(_np.asarray(c), objarr(x), objarr(y))
        out = _np.empty(C.shape, dtype=object)
        for i in _np.ndindex(C.shape):
            out[i] = X[i] if C[i] else Y[i]
        return out if out.ndim else out.item()
    return tidy(_np.where(c, x, y))


def f_logical(op):
    def f(*args, **kw):
        return getattr(_np, 'logical_' + op)(*[_boolify(a) for a in args], **kw)
    return f


def f_anyall(op):
    def f(a, axis=None, **kw):
        if isinstance(a, (list, tuple)):
            a = _np.array(a, dtype=object) if has_sym(a) else _np.asarray(a)
        if isinstance(a, SymBool):
            return bool(a)
        if axis is None and isinstance(a, _np.ndarray) and a.dtype == object:
            return (any if op == 'any' else all)(bool(v) for v in a.flat)
        return getattr(_np, op)(_boolify(a), axis=axis)
    return f


def f_nonzero(a):
    return _np.nonzero(_boolify(a) if not has_sym(a) else
                       _np.vectorize(lambda v: bool(v), otypes=[bool])(objarr(a)))


def f_mod(a, b, **kw):
    if not has_sym(a) and not has_sym(b):
        A = _np.asarray(a)
        B = _np.asarray(b)
        if A.dtype == object:
            A = A.astype(float)
        if B.dtype == object:
            B = B.astype(float)
        r = _np.mod(A, B)
        return tidy(r) if isinstance(r, _np.ndarray) else r
    if _np.ndim(a) == 0 and _np.ndim(b) == 0:
        return sym.sym_mod(lift(a), lift(b))
    A, B = _np.broadcast_arrays(objarr(a), objarr(b))
    out = _np.empty(A.shape, dtype=object)
    for i in _np.ndindex(A.shape):
        out[i] = sym.sym_mod(lift(A[i]), lift(B[i]))
    return out


def f_round(a, decimals=0, **kw):
    if isinstance(a, Sym):
        return sym.sym_round(a, decimals)
    if has_sym(a):
        a = objarr(a)
        out = _np.empty(a.shape, dtype=object)
        for i, v in _np.ndenumerate(a):
            out[i] = sym.sym_round(v, decimals)
        return out
    a = _np.asarray(a)
    if a.dtype == object:
        a = a.astype(float)
    r = _np.round(a, decimals)
    return r if r.ndim else r.item()


INTERP_HOOK = [None]


def f_interp(x, xp, fp, left=None, right=None, period=None):
    if not has_sym(x) and not has_sym(fp):
        return _np.interp(_np.asarray(x, dtype=float), _np.asarray(xp, dtype=float),
                          _np.asarray(fp, dtype=float), left, right)
    if isinstance(x, _np.ndarray):
        out = _np.empty(x.shape, dtype=object)
        for i, v in _np.ndenumerate(x):
            out[i] = f_interp(v, xp, fp, left, right, period)
        return out
    if INTERP_HOOK[0] is not None and left is None and right is None:
        return INTERP_HOOK[0](x, xp, fp)
    return pw_interp(x, xp, fp, left, right)


def pw_interp(x, xp, fp, left=None, right=None):
    """Piecewise linear interpolation, by path splitting on the interval."""
    xp = [sym.to_q(v) for v in _np.asarray(xp)]
    x = lift(x)
    if x < xp[0]:
        return fp[0] if left is None else left
    if x >= xp[-1]:
        return fp[-1] if right is None else right
    lo, hi = 0, len(xp) - 1
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if x < xp[mid]:
            hi = mid
        else:
            lo = mid
    f0, f1 = lift(fp[lo]), lift(fp[hi])
    return f0 + (f1 - f0) * (x - xp[lo]) / (Fraction(xp[hi]) - Fraction(xp[lo]))


def f_einsum(spec, *ops, **kw):
    if any(has_sym(o) for o in ops) or any(getattr(o, 'dtype', None) == object for o in ops):
        return _np.einsum(spec, *[objarr(o) for o in ops])
    return _np.einsum(spec, *ops, **kw)


def f_dot(a, b, out=None):
    r = _np.dot(a, b)
    return r


def f_cross(a, b, *args, **kw):
    if has_sym(a) or has_sym(b):
        a = objarr(a)
        b = objarr(b)
        if kw or args:
            return _np.cross(a, b, *args, **kw)
        return _np.cross(a, b)
    return tidy(_np.cross(_np.asarray(a, dtype=float) if getattr(a, 'dtype', None) == object else a,
                          _np.asarray(b, dtype=float) if getattr(b, 'dtype', None) == object else b,
                          *args, **kw))


def f_abs(x):
    if isinstance(x, Sym):
        return abs(x)
    if isinstance(x, (list, tuple)):
        x = objarr(x) if has_sym(x) else _np.asarray(x)
    return _np.abs(x)


def f_mean(a, axis=None, keepdims=False, **kw):
    a = objarr(_plain(a)) if has_sym(a) else _np.asarray(a)
    if a.dtype == object:
        t = a.sum(axis=axis, keepdims=keepdims)
        return t / (a.size // max(1, _np.size(t)))
    return _np.mean(a, axis=axis, keepdims=keepdims, **kw)


def f_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None and not returned:
        return f_mean(a, axis=axis, keepdims=keepdims)
    if not has_sym(a) and not has_sym(weights):
        return tidy(_np.average(_np.asarray(a, dtype=float), axis=axis, weights=weights, returned=returned,
                                keepdims=keepdims))
    if returned:
        raise SymError('average with returned=True')
    a, w = objarr(_plain(a)), objarr(_plain(weights))
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise SymError('average with weights of another shape')
        shape = [1] * a.ndim
        shape[axis] = len(w)
        w = w.reshape(shape)
    w = _np.broadcast_to(w, a.shape)
    return (a * w).sum(axis=axis, keepdims=keepdims) / w.sum(axis=axis, keepdims=keepdims)


def f_sum(a, axis=None, **kw):
    if isinstance(a, (list, tuple)) and has_sym(a):
        a = objarr(_plain(a))
    return _np.sum(a, axis=axis, **kw)


def f_copy(a, **kw):
    return f_array(a)


def f_power(a, b):
    return objarr(a) ** b if _np.ndim(a) else lift(a) ** b if is_sym(a) else _np.power(a, b)


def f_loadtxt(*a, **k):
    return _np.loadtxt(*a, **k)


def _passthrough_obj(name):
    real = getattr(_np, name)

    def f(*a, **k):
        return tidy(real(*a, **k))
    return f


def _each(fsym, fnum, out=object):
    """A function of single numbers over whatever it is given."""
    def f(x, *a, **k):
        if isinstance(x, Sym):
            return fsym(x)
        if not has_sym(x):
            x = _np.asarray(x)
            r = fnum(x.astype(float) if x.dtype == object else x)
            return tidy(r) if r.ndim else r.item()
        x = objarr(_plain(x))
        r = _np.empty(x.shape, dtype=out)
        for i, v in _np.ndenumerate(x):
            r[i] = fsym(lift(v))
        return r if out is bool else SAv(r)
    return f


def f_sign(x):
    return 1 if bool(x > 0) else -1 if bool(x < 0) else 0


def f_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = f_where(c, v, r)
    return r


def f_linspace(*a, **k):
    return tidy(_np.linspace(*a, **k))


def f_arange(*a, **k):
    if any(is_sym(x) for x in a):
        a = [int(x) for x in a]
    return tidy(_np.arange(*a, **k))


class LinAlg:
    LinAlgError = _np.linalg.LinAlgError
    norm = staticmethod(f_norm)
    inv = staticmethod(f_inv)
    solve = staticmethod(f_solve)
    det = staticmethod(lambda a: det(objarr(a)) if has_sym(a)
                       else _np.linalg.det(_np.asarray(a, dtype=float)))
    pinv = staticmethod(f_inv)

    def __getattr__(self, n):
        return getattr(_np.linalg, n)


class Random:
    """Random numbers as symbolic choices; installed per harness."""

    def __init__(self):
        self.source = None

    def rand(self, *shape):
        return self._draw(shape)

    def random(self, size=None):
        return self._draw(() if size is None else (size if isinstance(size, tuple) else (size,)))

    def uniform(self, lo=0, hi=1, size=None):
        u = self.random(size)
        return lo + (hi - lo) * u

    def _draw(self, shape):
        if self.source is None:
            raise SymError('random numbers outside a harness')
        if not shape:
            return self.source()
        out = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            out[i] = self.source()
        return out

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        raise SymError('numpy.random.%s' % n)


class NP:
    """The `numpy` the repository sees."""
    ndarray = _np.ndarray
    newaxis = None
    sqrt = staticmethod(f_sqrt)
    array = staticmethod(f_array)
    asarray = staticmethod(f_asarray)
    asanyarray = staticmethod(f_asarray)
    ascontiguousarray = staticmethod(f_asarray)
    copy = staticmethod(f_copy)
    zeros = staticmethod(f_zeros)
    empty = staticmethod(f_zeros)
    ones = staticmethod(f_ones)
    full = staticmethod(f_full)
    eye = staticmethod(f_eye)
    identity = staticmethod(lambda n, dtype=None: f_eye(n, dtype=dtype))
    zeros_like = staticmethod(f_zeros_like)
    empty_like = staticmethod(f_zeros_like)
    ones_like = staticmethod(f_ones_like)
    isclose = staticmethod(f_isclose)
    allclose = staticmethod(f_allclose)
    array_equal = staticmethod(f_array_equal)
    min = staticmethod(_fold('min'))
    max = staticmethod(_fold('max'))
    amin = staticmethod(_fold('min'))
    amax = staticmethod(_fold('max'))
    minimum = staticmethod(f_minmax2('min'))
    maximum = staticmethod(f_minmax2('max'))
    where = staticmethod(f_where)
    logical_and = staticmethod(f_logical('and'))
    logical_or = staticmethod(f_logical('or'))
    logical_not = staticmethod(f_logical('not'))
    any = staticmethod(f_anyall('any'))
    all = staticmethod(f_anyall('all'))
    nonzero = staticmethod(f_nonzero)
    argwhere = staticmethod(lambda a: _np.transpose(f_nonzero(a)))
    mod = staticmethod(f_mod)
    remainder = staticmethod(f_mod)
    round = staticmethod(f_round)
    around = staticmethod(f_round)
    rint = staticmethod(f_round)
    interp = staticmethod(f_interp)
    einsum = staticmethod(f_einsum)
    dot = staticmethod(f_dot)
    cross = staticmethod(f_cross)
    abs = staticmethod(f_abs)
    absolute = staticmethod(f_abs)
    fabs = staticmethod(f_abs)
    mean = staticmethod(f_mean)
    average = staticmethod(f_average)
    sum = staticmethod(f_sum)
    power = staticmethod(f_power)
    linspace = staticmethod(f_linspace)
    arange = staticmethod(f_arange)
    cos = staticmethod(unary(sym.cos, _np.cos))
    sin = staticmethod(unary(sym.sin, _np.sin))
    tan = staticmethod(unary(lambda x: sym.sin(x) / sym.cos(x), _np.tan))
    exp = staticmethod(unary(sym._exp, _np.exp))
    log = staticmethod(unary(sym._log, _np.log))
    arccos = staticmethod(unary(sym.arccos, _np.arccos))
    arcsin = staticmethod(unary(lambda x: sym.PI() / 2 - sym.arccos(x), _np.arcsin))
    floor = staticmethod(unary(sym.sym_floor, _np.floor))
    ceil = staticmethod(unary(lambda x: -sym.sym_floor(-x), _np.ceil))
    square = staticmethod(lambda x: (objarr(x) if isinstance(x, (list, tuple)) else x) ** 2)
    arctan = staticmethod(unary(lambda x: sym.arctan2(x, 1), _np.arctan))
    sign = staticmethod(_each(f_sign, _np.sign))
    trunc = staticmethod(_each(sym.sym_trunc, _np.trunc))
    fix = staticmethod(_each(sym.sym_trunc, _np.fix))
    isnan = staticmethod(_each(lambda x: False, _np.isnan, bool))
    isinf = staticmethod(_each(lambda x: False, _np.isinf, bool))
    isfinite = staticmethod(_each(lambda x: True, _np.isfinite, bool))
    radians = staticmethod(lambda x: x * sym.PI() / 180)
    deg2rad = radians
    degrees = staticmethod(lambda x: x * 180 / sym.PI())
    rad2deg = degrees
    select = staticmethod(f_select)

    def __init__(self):
        self.linalg = LinAlg()
        self.random = Random()
        self.files = None

    @property
    def pi(self):
        return sym.PI()

    @staticmethod
    def arctan2(y, x):
        if has_sym(y) or has_sym(x):
            if _np.ndim(y) == 0 and _np.ndim(x) == 0:
                return sym.arctan2(y, x)
            Y, X = _np.broadcast_arrays(objarr(y), objarr(x))
            out = _np.empty(Y.shape, dtype=object)
            for i in _np.ndindex(Y.shape):
                out[i] = sym.arctan2(Y[i], X[i])
            return out
        return _np.arctan2(y, x)

    @staticmethod
    def hypot(a, b):
        return f_sqrt(a * a + b * b)

    @staticmethod
    def clip(a, lo, hi):
        return NP.minimum(NP.maximum(a, lo), hi)

    def savez_compressed(self, name, *a, **k):
        if self.files is None:
            raise SymError('file write outside a harness')
        self.files.savez(name, a, k)
    savez = savez_compressed

    def load(self, f, *a, **k):
        if self.files is not None and isinstance(f, str):
            r = self.files.load(f)
            if r is not NotImplemented:
                return r
        return _np.load(f, *a, **k)

    loadtxt = staticmethod(f_loadtxt)

    def savetxt(self, *a, **k):
        if self.files is None:
            raise SymError('file write outside a harness')
        self.files.note('savetxt', a)

    def __getattr__(self, name):
        v = getattr(_np, name)
        if name in ('concatenate', 'append', 'tile', 'vstack', 'hstack', 'stack',
                    'outer', 'triu', 'tril', 'diag', 'transpose', 'reshape', 'repeat',
                    'roll', 'kron', 'atleast_1d', 'atleast_2d', 'block', 'delete',
                    'insert', 'meshgrid', 'tensordot', 'matmul', 'trace', 'ravel',
                    'moveaxis', 'swapaxes', 'broadcast_to', 'squeeze', 'flip', 'expand_dims',
                    'column_stack', 'row_stack', 'dstack', 'take', 'fliplr', 'flipud', 'diagonal',
                    'resize', 'inner', 'vdot', 'prod', 'cumsum', 'diff', 'full_like'):
            return _passthrough_obj(name)
        return v


class MathShim:
    sqrt = staticmethod(f_sqrt)
    cos = staticmethod(unary(sym.cos, math.cos))
    sin = staticmethod(unary(sym.sin, math.sin))
    exp = staticmethod(unary(sym._exp, math.exp))
    log = staticmethod(lambda x, *b: sym._log(x) if is_sym(x) else math.log(x, *b))
    erfc = staticmethod(lambda x: sym.erfc(x) if is_sym(x) else math.erfc(x))
    erf = staticmethod(lambda x: 1 - sym.erfc(x) if is_sym(x) else math.erf(x))
    acos = staticmethod(unary(sym.arccos, math.acos))
    atan2 = staticmethod(lambda y, x: NP.arctan2(y, x))
    floor = staticmethod(lambda x: sym.sym_floor(x) if is_sym(x) else math.floor(x))
    ceil = staticmethod(lambda x: -sym.sym_floor(-x) if is_sym(x) else math.ceil(x))
    fabs = staticmethod(abs)
    hypot = staticmethod(lambda *v: f_norm(list(v)))
    isclose = staticmethod(lambda a, b, rel_tol=1e-9, abs_tol=0.0:
                           bool(abs(lift(a) - b) <= abs_tol) if (is_sym(a) or is_sym(b)) and not rel_tol
                           else (bool(abs(lift(a) - b) <= NP.maximum(rel_tol * NP.maximum(abs(lift(a)), abs(lift(b))), abs_tol))
                                 if (is_sym(a) or is_sym(b)) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)))
    pow = staticmethod(lambda a, b: a ** b)
    dist = staticmethod(lambda a, b: f_norm([x - y for x, y in zip(a, b)]))
    fsum = staticmethod(lambda v: (lambda v: sum(v) if has_sym(v) else math.fsum(v))(list(v)))
    isnan = staticmethod(lambda x: False if is_sym(x) else math.isnan(x))
    isinf = staticmethod(lambda x: False if is_sym(x) else math.isinf(x))
    isfinite = staticmethod(lambda x: True if is_sym(x) else math.isfinite(x))
    trunc = staticmethod(lambda x: sym.sym_trunc(x) if is_sym(x) else math.trunc(x))
    radians = staticmethod(lambda x: x * sym.PI() / 180)
    degrees = staticmethod(lambda x: x * 180 / sym.PI())
    atan = staticmethod(lambda x: sym.arctan2(x, 1) if is_sym(x) else math.atan(x))
    copysign = staticmethod(math.copysign)

    @property
    def pi(self):
        return sym.PI()

    def __getattr__(self, n):
        return getattr(math, n)


class Sparse:
    """scipy.sparse stand-in: matrices kept dense."""

    class _M(_np.ndarray):
        pass

    @staticmethod
    def coo_matrix(arg, shape=None, dtype=None):
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (rows, cols) = arg
            M = f_zeros(shape)
            for d, r, c in zip(data, rows, cols):
                M[r, c] = M[r, c] + d
        else:
            M = objarr(arg).copy()
        return SpMat(M)

    csr_matrix = coo_matrix
    csc_matrix = coo_matrix

    def __getattr__(self, n):
        raise SymError('scipy.sparse.%s' % n)


class SpMat:
    __array_priority__ = 2000

    def __init__(self, M):
        self.M = M

    @property
    def shape(self):
        return self.M.shape

    def transpose(self):
        return SpMat(self.M.T)

    @property
    def T(self):
        return SpMat(self.M.T)

    def toarray(self):
        return self.M.copy()
    todense = toarray

    def tocsr(self):
        return self
    tocsc = tocsr
    tocoo = tocsr

    def _dot(self, a, b):
        r = _sparse_dot(a, b)
        return r

    def __mul__(self, o):
        if isinstance(o, SpMat):
            return SpMat(_sparse_dot(self.M, o.M))
        if _np.ndim(o) == 0:
            return SpMat(self.M * o)
        return _sparse_dot(self.M, objarr(o))

    def __rmul__(self, o):
        if _np.ndim(o) == 0:
            return SpMat(self.M * o)
        return _sparse_dot(objarr(o), self.M)

    def __matmul__(self, o):
        return self * o

    def __rmatmul__(self, o):
        return self.__rmul__(o)

    def dot(self, o):
        return self * o

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if ufunc in (_np.multiply, _np.matmul):
            a, b = inputs
            if isinstance(b, SpMat):
                return b.__rmul__(a)
            return self * b
        return NotImplemented


def _sparse_dot(A, B):
    n, k = A.shape
    if B.ndim == 1:
        out = f_zeros(n)
        for i in range(n):
            for j in range(k):
                if not _is_zero(A[i, j]) and not _is_zero(B[j]):
                    out[i] = out[i] + A[i, j] * B[j]
        return out
    m = B.shape[1]
    out = f_zeros((n, m))
    bz = [[j for j in range(m) if not _is_zero(B[l, j])] for l in range(k)]
    for i in range(n):
        for l in range(k):
            a = A[i, l]
            if _is_zero(a):
                continue
            one = (not isinstance(a, Sym)) and a == 1
            for j in bz[l]:
                out[i, j] = out[i, j] + (B[l, j] if one else a * B[l, j])
    return out


def pdist(X, *a, **k):
    X = objarr(X)
    n = X.shape[0]
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            out.append(f_norm(X[i] - X[j]))
    r = _np.empty(len(out), dtype=object)
    r[:] = out
    return r


def cdist(X, Y, *a, **k):
    X = objarr(X)
    Y = objarr(Y)
    out = _np.empty((X.shape[0], Y.shape[0]), dtype=object)
    for i in range(X.shape[0]):
        for j in range(Y.shape[0]):
            out[i, j] = f_norm(X[i] - Y[j])
    return out


def squareform(v, *a, **k):
    v = objarr(v)
    n = int(round((1 + math.sqrt(1 + 8 * len(v))) / 2))
    M = f_zeros((n, n))
    k_ = 0
    for i in range(n):
        for j in range(i + 1, n):
            M[i, j] = v[k_]
            M[j, i] = v[k_]
            k_ += 1
    return M


# --- builtins ------------------------------------------------------------------

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return int(bool(x))
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return b_float(x.item())
        if CONVERT_HOOK[0] is not None:
            return CONVERT_HOOK[0]('float', x)
        return float(x)


class b_float(float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return b_trunc(x)
        if isinstance(x, SymBool):
            return int(bool(x))
        if CONVERT_HOOK[0] is not None:
            return CONVERT_HOOK[0]('int', x)
        return int(x, *a)


CONVERT_HOOK = [None]


class b_int(int, metaclass=_IntMeta):
    pass


def b_trunc(x):
    r = sym.sym_trunc(x)
    if isinstance(r, Sym) and r.is_const():
        return int(r.const_value())
    return r


def b_min(*a, **k):
    vals = a[0] if len(a) == 1 else a
    if k or not has_sym(list(vals)):
        return builtins.min(*a, **k)
    return NP.min(list(vals))


def b_max(*a, **k):
    vals = a[0] if len(a) == 1 else a
    if k or not has_sym(list(vals)):
        return builtins.max(*a, **k)
    return NP.max(list(vals))


def b_round(x, n=None):
    if isinstance(x, Sym):
        return sym.sym_round(x, n or 0)
    return builtins.round(x, n) if n is not None else builtins.round(x)


_real_range = builtins.range


def b_range(*a):
    return _real_range(*[int(x) if isinstance(x, Sym) else x for x in a])
