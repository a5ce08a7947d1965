"""Symbolic real values for executing the repository's own source.

A `Sym` is a multivariate Laurent polynomial with exact rational coefficients
over *generators*.  A generator is an input variable, the constant pi, a square
root, a denominator, an integer quotient or an uninterpreted function
application.  Everything that cannot be expressed as a polynomial becomes a
generator with a defining constraint, so a whole function evaluation can be
handed to an SMT solver as polynomial arithmetic.

Floats are read as reals: a float constant stands for the simplest decimal /
small fraction which rounds to it, otherwise for its exact binary value.
"""

import math
from fractions import Fraction
from functools import lru_cache

# --------------------------------------------------------------------------
# generators


class Gen:
    __slots__ = ('id', 'name', 'kind', 'e', 'fname', 'args', 'lo', 'hi',
                 'auto', 'num', 'deriv', 'is_input')

    def __init__(self, id, name, kind):
        self.id = id
        self.name = name
        self.kind = kind      # var | const | sqrt | den | int | uf
        self.e = None         # dict polynomial (sqrt radicand / denominator)
        self.fname = None
        self.args = None
        self.lo = None
        self.hi = None
        self.auto = False     # square reduces to a single term
        self.num = None       # numeric evaluator: f(env) -> float
        self.deriv = None     # {}: derivative rule, f(gen, varid) -> poly
        self.is_input = False


GENS = []
_by_key = {}
DEFS = []          # list of (kind, payload) defining constraints, as SymBool
ONE = ()


def reset():
    """Forget all generators (start of a harness)."""
    GENS.clear()
    _by_key.clear()
    DEFS.clear()
    _mm_cache.clear()
    global _PI
    _PI = None


def new_gen(name, kind, key=None):
    g = Gen(len(GENS), name, kind)
    GENS.append(g)
    if key is not None:
        _by_key[key] = g
    return g


_PI = None


def PI():
    global _PI
    if _PI is None:
        g = new_gen('PI', 'const', ('PI',))
        g.lo = Fraction('3.141592653589793')
        g.hi = Fraction('3.141592653589794')
        g.num = lambda env: math.pi
        _PI = Sym({((g.id, 1),): 1})
    return _PI


# --------------------------------------------------------------------------
# numbers

CTX = None      # the path being executed; set by the explorer

@lru_cache(maxsize=200000)
def _float_to_q(f):
    if f != f or f in (float('inf'), float('-inf')):
        raise SymError('non-finite float constant %r' % f)
    if f == int(f) and abs(f) < 1e15:
        return int(f)
    r = repr(f)
    mant = r.split('e')[0].replace('.', '').replace('-', '').lstrip('0')
    if len(mant) <= 12:
        q = Fraction(r)
        return int(q) if q.denominator == 1 else q
    for d in (1000, 100000):
        q = Fraction(f).limit_denominator(d)
        if float(q) == f:
            return int(q) if q.denominator == 1 else q
    q = Fraction(f)
    return int(q) if q.denominator == 1 else q


def to_q(x):
    t = type(x)
    if t is int:
        return x
    if t is float:
        return _float_to_q(x)
    if t is Fraction:
        return x.numerator if x.denominator == 1 else x
    if t is bool:
        return int(x)
    # numpy scalars
    if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
        return to_q(x.item())
    raise TypeError


class SymError(Exception):
    """The symbolic layer cannot represent what the code does."""

    def __init__(self, *a):
        super().__init__(*a)
        if CTX is not None:
            CTX.engine_errors.append(str(a))


# --------------------------------------------------------------------------
# monomials

_mm_cache = {}


def _mono_mul(m1, m2):
    """Product of monomials -> (rational factor, monomial)."""
    key = (m1, m2)
    r = _mm_cache.get(key)
    if r is not None:
        return r
    d = dict(m1)
    for g, e in m2:
        v = d.get(g, 0) + e
        if v:
            d[g] = v
        else:
            d.pop(g, None)
    f = _reduce_auto(d)
    r = (f, tuple(sorted(d.items())))
    if len(_mm_cache) > 3000000:
        _mm_cache.clear()
    _mm_cache[key] = r
    return r


def _reduce_auto(d):
    f = 1
    again = True
    while again:
        again = False
        for g, e in list(d.items()):
            gen = GENS[g]
            if gen.auto and (e < 0 or e > 1):
                # gen^2 = c * mono
                (m, c), = gen.e.items()
                k = e // 2          # floor: works for negatives
                rem = e - 2 * k
                if rem:
                    d[g] = rem
                else:
                    del d[g]
                f = f * (Fraction(c) ** k)
                for gg, ee in m:
                    v = d.get(gg, 0) + ee * k
                    if v:
                        d[gg] = v
                    else:
                        d.pop(gg, None)
                again = True
                break
    if type(f) is Fraction and f.denominator == 1:
        f = f.numerator
    return f


def mono_pow(m, n):
    d = {g: e * n for g, e in m}
    f = _reduce_auto(d)
    return f, tuple(sorted(d.items()))


# --------------------------------------------------------------------------
# polynomials as dicts

def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else -c if s == -1 else c * s)
        if v:
            if type(v) is Fraction and v.denominator == 1:
                v = v.numerator
            r[m] = v
        else:
            del r[m]
    return r


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        a, b = b, a
    r = {}
    for m2, c2 in b.items():
        for m1, c1 in a.items():
            f, m = _mono_mul(m1, m2)
            v = c1 * c2
            if f != 1:
                v = v * f
            w = r.get(m)
            r[m] = v if w is None else w + v
    out = {}
    for m, c in r.items():
        if c:
            if type(c) is Fraction and c.denominator == 1:
                c = c.numerator
            out[m] = c
    return out


def p_scale(a, q):
    if q == 0:
        return {}
    out = {}
    for m, c in a.items():
        v = c * q
        if type(v) is Fraction and v.denominator == 1:
            v = v.numerator
        out[m] = v
    return out


def p_pow(a, n):
    r = {ONE: 1}
    base = a
    while n:
        if n & 1:
            r = p_mul(r, base)
        n >>= 1
        if n:
            base = p_mul(base, base)
    return r


def p_gens(p):
    s = set()
    for m in p:
        for g, e in m:
            s.add(g)
    return s


def p_content(p):
    """Return (rational content c>0-leading, monomial m, primitive p')
    with p = c*m*p' and p' canonical (m has minimal exponents)."""
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = dict(d)
        else:
            for g in list(mins):
                e = d.get(g, 0)
                if e < mins[g]:
                    mins[g] = e
            for g, e in d.items():
                if e < 0 and e < mins.get(g, 0):
                    mins[g] = e
        # generators missing in this monomial have exponent 0
        for g in list(mins):
            if g not in d and mins[g] > 0:
                mins[g] = 0
    mono = tuple(sorted((g, e) for g, e in mins.items() if e))
    inv = tuple((g, -e) for g, e in mono)
    q = {}
    for m, c in p.items():
        d = dict(m)
        for g, e in inv:
            v = d.get(g, 0) + e
            if v:
                d[g] = v
            else:
                d.pop(g, None)
        q[tuple(sorted(d.items()))] = c
    num = 0
    den = 1
    for c in q.values():
        if type(c) is int:
            num = math.gcd(num, c)
        else:
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
    lead = q[max(q)]
    cont = Fraction(num, den)
    if lead < 0:
        cont = -cont
    prim = p_scale(q, 1 / cont)
    return cont, mono, prim


def p_key(p):
    return frozenset(p.items())


def p_divexact(a, b):
    """Exact division of polynomials (non-negative exponents) or None."""
    if not a:
        return {}
    lb = max(b)
    # use a total degree-agnostic lex order on dense exponent maps
    gens = sorted(p_gens(a) | p_gens(b))
    idx = {g: i for i, g in enumerate(gens)}
    n = len(gens)

    def vec(m):
        v = [0] * n
        for g, e in m:
            v[idx[g]] = e
        return tuple(v)
    A = {vec(m): c for m, c in a.items()}
    B = {vec(m): c for m, c in b.items()}
    lb = max(B)
    cb = B[lb]
    Q = {}
    steps = 0
    limit = 50 * (len(A) + 10)
    while A:
        la = max(A)
        t = tuple(x - y for x, y in zip(la, lb))
        if min(t, default=0) < 0:
            return None
        ct = Fraction(A[la]) / cb
        Q[t] = ct
        for m, c in B.items():
            k = tuple(x + y for x, y in zip(m, t))
            v = A.get(k, 0) - ct * c
            if v:
                A[k] = v
            else:
                A.pop(k, None)
        steps += 1
        if steps > limit:
            return None
    out = {}
    for t, c in Q.items():
        if c.denominator == 1:
            c = c.numerator
        out[tuple((gens[i], e) for i, e in enumerate(t) if e)] = c
    return out


def p_subst_pos(p, gid, e, is_sqrt):
    """Replace positive powers of generator gid by its definition."""
    out = {}
    pw = {}
    for m, c in p.items():
        k = 0
        for g, ex in m:
            if g == gid:
                k = ex
                break
        kk = (k // 2) if is_sqrt else k
        if kk > 0:
            rest = []
            for g, ex in m:
                if g == gid:
                    if is_sqrt and ex % 2:
                        rest.append((g, 1))
                else:
                    rest.append((g, ex))
            if kk not in pw:
                pw[kk] = p_pow(e, kk)
            t = p_mul({tuple(rest): c}, pw[kk])
            for mm, cc in t.items():
                v = out.get(mm, 0) + cc
                if v:
                    out[mm] = v
                else:
                    out.pop(mm, None)
        else:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


def _neg_exps(p):
    """Most negative exponent of each generator having a definition."""
    d = {}
    for m in p:
        for g, e in m:
            if e < 0 and e < d.get(g, 0):
                d[g] = e
    return d


def clear_defs(ps):
    """Multiply all polys in `ps` by one common factor so that no defined
    generator occurs with a negative exponent, and expand definitions.
    Returns the new polys (common multiplier is non-zero by definition)."""
    for _ in range(50):
        worst = {}
        for p in ps:
            for g, e in _neg_exps(p).items():
                if e < worst.get(g, 0):
                    worst[g] = e
        gid = None
        # handle the most recently defined generator first: its definition can
        # only mention older generators
        cands = [g for g in worst]
        posdef = set()
        for p in ps:
            for m in p:
                for g, e in m:
                    gen = GENS[g]
                    if gen.e is not None and not gen.auto:
                        if gen.kind == 'den' and e > 0 or gen.kind == 'sqrt' and e > 1:
                            posdef.add(g)
        todo = set(cands) | posdef
        if not todo:
            return ps
        gid = max(todo)
        gen = GENS[gid]
        k = -worst.get(gid, 0)
        if gen.kind == 'sqrt' and k % 2:
            k += 1
        if k:
            mul = {((gid, k),): 1}
            ps = [p_mul(p, mul) for p in ps]
        if gen.e is not None and not gen.auto:
            ps = [p_subst_pos(p, gid, gen.e, gen.kind == 'sqrt') for p in ps]
    return ps


def uf_part(m):
    return tuple((g, e) for g, e in m if GENS[g].kind == 'uf')


def ratnorm(p):
    """Reduced rational normal form used for keys and radicands."""
    if not p:
        return p
    neg = [g for g in _neg_exps(p) if GENS[g].e is not None and not GENS[g].auto]
    pos = [g for m in p for g, e in m
           if GENS[g].e is not None and not GENS[g].auto
           and ((GENS[g].kind == 'sqrt' and e > 1) or (GENS[g].kind == 'den' and e > 0))]
    if not neg and not pos:
        return p
    for gid in sorted(set(neg) | set(pos), reverse=True):
        gen = GENS[gid]
        mn = _neg_exps(p).get(gid, 0)
        k = -mn
        if gen.kind == 'sqrt' and k % 2:
            k += 1
        q = p_mul(p, {((gid, k),): 1}) if k else p
        q = p_subst_pos(q, gid, gen.e, gen.kind == 'sqrt')
        step = 2 if gen.kind == 'sqrt' else 1
        while k > 0:
            if any(e < 0 for m in q for g, e in m):
                break
            d = p_divexact(q, gen.e)
            if d is None:
                break
            q = d
            k -= step
        p = p_mul(q, {((gid, -k),): 1}) if k else q
    return p


def _squarefree(n):
    """n = a^2 * b, b square-free (small primes only)."""
    a, b = 1, n
    r = math.isqrt(n)
    if r * r == n:
        return r, 1
    d = 2
    while d * d <= b and d < 2000:
        while b % (d * d) == 0:
            b //= d * d
            a *= d
        d += 1
    return a, b


# --------------------------------------------------------------------------
# the value class

class SymBool:
    """A condition: ('cmp', op, poly) meaning poly op 0, and/or/not trees."""
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        return SymBool(('and', self.t, o.t))
    __rand__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        return SymBool(('or', self.t, o.t))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(negate(self.t))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    __hash__ = None

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def logical_not(self):
        return not bool(self)

    def __repr__(self):
        return 'SymBool(%r)' % (self.t[0],)


TRUE = ('const', True)
FALSE = ('const', False)


def as_bool(o):
    if isinstance(o, SymBool):
        return o
    if isinstance(o, bool) or type(o).__name__ in ('bool_', 'bool'):
        return SymBool(('const', bool(o)))
    return NotImplemented


_NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def negate(t):
    k = t[0]
    if k == 'const':
        return ('const', not t[1])
    if k == 'cmp':
        return ('cmp', _NEG[t[1]], t[2])
    if k == 'not':
        return t[1]
    if k == 'and':
        return ('or',) + tuple(negate(x) for x in t[1:])
    if k == 'or':
        return ('and',) + tuple(negate(x) for x in t[1:])
    raise SymError(k)


def And(*xs):
    return SymBool(('and',) + tuple(as_bool(x).t for x in xs))


def Or(*xs):
    return SymBool(('or',) + tuple(as_bool(x).t for x in xs))


def Not(x):
    return SymBool(negate(as_bool(x).t))


def Implies(a, b):
    return Or(Not(a), b)


def _cmp(a, b, op):
    p = p_add(a.p, b.p, -1)
    if not p or (len(p) == 1 and ONE in p):
        c = p.get(ONE, 0)
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': c == 0, '!=': c != 0}[op]
    return SymBool(('cmp', op, p))


class Sym:
    __slots__ = ('p',)
    __array_priority__ = 1000
    ndim = 0
    shape = ()

    def __init__(self, p):
        self.p = p

    # -- construction helpers
    @staticmethod
    def const(q):
        q = to_q(q)
        return Sym({ONE: q} if q else {})

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return Sym(p_add(self.p, o.p))

    def __radd__(self, o):
        if type(o) in (list, tuple):
            return _row(o) + self
        return self.__add__(o)

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return Sym(p_add(self.p, o.p, -1))

    def __rsub__(self, o):
        if type(o) in (list, tuple):
            return _row(o) - self
        o = lift(o)
        if o is NotImplemented:
            return o
        return Sym(p_add(o.p, self.p, -1))

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return Sym(p_mul(self.p, o.p))

    def __rmul__(self, o):
        if type(o) in (list, tuple):
            return _row(o) * self
        return self.__mul__(o)

    def __neg__(self):
        return Sym({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self * recip(o)

    def __rtruediv__(self, o):
        if type(o) in (list, tuple):
            return _row(o) / self
        o = lift(o)
        if o is NotImplemented:
            return o
        return o * recip(self)

    def __pow__(self, n):
        if isinstance(n, Sym):
            if n.is_const():
                n = n.const_value()
            else:
                return _exp(n * _log(self))
        n = to_q(n)
        if type(n) is int:
            if n >= 0:
                return Sym(p_pow(self.p, n))
            return Sym(p_pow(recip(self).p, -n))
        n = Fraction(n)
        if n.denominator == 2:
            s = sqrt(self)
            k = n.numerator
            return s ** k
        # general rational power: only of single terms with divisible exponents
        if len(self.p) == 1:
            (m, c), = self.p.items()
            ok = all((e * n).denominator == 1 for g, e in m)
            if ok:
                cr = _rat_pow(c, n)
                if cr is not None:
                    return Sym({tuple((g, int(e * n)) for g, e in m): cr})
        return _uf_num('pow_%s' % n, self, lambda v: v ** float(n))

    def __rpow__(self, o):
        return _exp(self * _log(lift(o)))

    def __mod__(self, o):
        return sym_mod(self, o)

    def __rmod__(self, o):
        return sym_mod(lift(o), self)

    def __floordiv__(self, o):
        return sym_floor(self / o)

    def __rfloordiv__(self, o):
        return sym_floor(lift(o) / self)

    def __divmod__(self, o):
        q = sym_floor(self / o)
        return q, self - q * o

    def __rdivmod__(self, o):
        return divmod(lift(o), self)

    def __abs__(self):
        c = CTX.known_sign(self)
        if c is not None:
            return self if c >= 0 else -self
        k, m, prim = p_content(self.p)
        out = Sym({ONE: abs(k)})
        ps = Sym(prim)
        if not ps.is_const():
            c = CTX.known_sign(ps)
            if c is None:
                if len(prim) > 6:
                    return self._abs_split()
                out = out * _sqrt_gen(p_mul(prim, prim))
            else:
                out = out * ps if c >= 0 else out * -ps
        elif ps.const_value() != 1:
            out = out * abs(ps.const_value())
        for g, e in m:
            v = Sym({((g, 1),): 1})
            if e % 2 == 0:
                out = out * v ** e
                continue
            c = CTX.known_sign(v)
            if c is not None:
                out = out * (v if c >= 0 else -v) ** e
            elif GENS[g].kind == 'var':
                # one symbol t with t >= 0 and t^2 = x^2
                out = out * _sqrt_gen({((g, 2),): 1}) ** e
            else:
                return self._abs_split()
        return out

    def _abs_split(self):
        if self >= 0:
            return self
        return -self

    # -- comparison
    def __lt__(self, o):
        o = lift(o)
        return o if o is NotImplemented else _cmp(self, o, '<')

    def __le__(self, o):
        o = lift(o)
        return o if o is NotImplemented else _cmp(self, o, '<=')

    def __gt__(self, o):
        o = lift(o)
        return o if o is NotImplemented else _cmp(self, o, '>')

    def __ge__(self, o):
        o = lift(o)
        return o if o is NotImplemented else _cmp(self, o, '>=')

    def __eq__(self, o):
        if isinstance(o, str) or o is None:
            return False
        o = lift(o)
        return False if o is NotImplemented else _cmp(self, o, '==')

    def __ne__(self, o):
        if isinstance(o, str) or o is None:
            return True
        o = lift(o)
        return True if o is NotImplemented else _cmp(self, o, '!=')

    def __hash__(self):
        return hash(p_key(self.p))

    def __bool__(self):
        r = _cmp(self, Sym({}), '!=')
        return r if isinstance(r, bool) else bool(r)

    # -- conversions
    def is_const(self):
        return not self.p or (len(self.p) == 1 and ONE in self.p)

    def const_value(self):
        return self.p.get(ONE, 0)

    def __index__(self):
        return CTX.concretize_int(self)

    def __int__(self):
        if CTX is not None and CTX.formatter is not None:      # '%d' % x
            return CTX.formatter(self, None)
        return CTX.concretize_int(sym_trunc(self))

    def __trunc__(self):
        return sym_trunc(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __round__(self, n=0):
        return sym_round(self, n or 0)

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise SymError('symbolic value used where a machine float is required')

    def __repr__(self):
        return to_str(self.p)

    def __str__(self):
        return 'Sym'

    def __format__(self, spec):
        if CTX is not None and CTX.formatter is not None:
            return CTX.formatter(self, spec)
        return 'Sym'

    # numpy object-array ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return _exp(self)

    def log(self):
        return _log(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def tan(self):
        return sin(self) / cos(self)

    def arccos(self):
        return arccos(self)

    def arcsin(self):
        return PI() / 2 - arccos(self)

    def arctan2(self, x):
        return arctan2(self, x)

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def rint(self):
        return sym_round(self, 0)

    def floor(self):
        return sym_floor(self)

    def ceil(self):
        return -sym_floor(-self)

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self

    def astype(self, *a, **k):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise SymError('symbolic values cannot be pickled')


def _row(o):
    import numpy as np
    import npshim
    return npshim.SAv(np.array(o, dtype=object))


def lift(o):
    t = type(o)
    if t is Sym:
        return o
    if t is int or t is float or t is Fraction or t is bool:
        q = to_q(o)
        return Sym({ONE: q} if q else {})
    if t is SymBool:
        return Sym.const(int(bool(o)))
    try:
        q = to_q(o)
        return Sym({ONE: q} if q else {})
    except TypeError:
        return NotImplemented


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def _rat_pow(c, n):
    c = Fraction(c)
    if c < 0:
        return None

    def iroot(a, k):
        r = round(a ** (1.0 / k))
        for t in (r - 1, r, r + 1):
            if t >= 0 and t ** k == a:
                return t
        return None
    k = n.denominator
    a = iroot(c.numerator, k)
    b = iroot(c.denominator, k)
    if a is None or b is None:
        return None
    r = Fraction(a, b) ** n.numerator
    return r.numerator if r.denominator == 1 else r


def recip(x):
    p = x.p
    if not p:
        raise ZeroDivisionError('division by symbolic zero')
    if len(p) == 1:
        (m, c), = p.items()
        f, mm = mono_pow(m, -1)
        return Sym(_clean({mm: Fraction(1) / c * f}))
    if _all_surd(p):
        r = _surd_inverse(p)
        if r is not None:
            return Sym(r)
    p = ratnorm(p)
    if not p:
        raise ZeroDivisionError('division by symbolic zero')
    if len(p) == 1:
        return recip(Sym(p))
    c, m, prim = p_content(p)
    f, mm = mono_pow(m, -1)
    out = {mm: Fraction(1) / c * f}
    # known factors: radicands and denominators
    changed = True
    while changed and len(prim) > 1:
        changed = False
        for g in list(GENS):
            if g.e is not None and not g.auto and g.kind in ('den', 'sqrt') and len(g.e) > 1:
                if len(g.e) > len(prim):
                    continue
                if not (p_gens(g.e) <= p_gens(prim)):
                    continue
                if g.e == prim:
                    q = {ONE: 1}
                else:
                    q = p_divexact(prim, g.e)
                if q is not None and not any(e < 0 for mm_ in q for _, e in mm_):
                    out = p_mul(out, {((g.id, -2 if g.kind == 'sqrt' else -1),): 1})
                    prim = q
                    changed = True
                    break
    if len(prim) == 1:
        return Sym(p_mul(out, recip(Sym(prim)).p))
    key = ('den', p_key(prim))
    g = _by_key.get(key)
    if g is None:
        g = new_gen('D%d' % len(GENS), 'den', key)
        g.e = prim
    return Sym(_clean(p_mul(out, {((g.id, -1),): 1})))


def _all_surd(p):
    """Only rational constants and square roots of rationals."""
    for m in p:
        for g, e in m:
            gen = GENS[g]
            if gen.kind != 'sqrt' or not gen.auto or ONE not in gen.e:
                return False
    return True


def _surd_inverse(p):
    """Invert an element of Q(sqrt a, sqrt b, ...) by conjugation."""
    gens = sorted(p_gens(p))
    num = {ONE: 1}
    den = p
    for g in gens:
        conj = {m: (-c if dict(m).get(g, 0) % 2 else c) for m, c in den.items()}
        num = p_mul(num, conj)
        den = p_mul(den, conj)
        if not den:
            return None
    if len(den) == 1 and ONE in den:
        return p_scale(num, Fraction(1) / den[ONE])
    return None


def _clean(p):
    return {m: (c.numerator if type(c) is Fraction and c.denominator == 1 else c)
            for m, c in p.items() if c}


def trig_norm(p):
    """sin^2 -> 1 - cos^2."""
    for sg, cg in TRIG_PAIR.items():
        if any(g == sg and e > 1 for m in p for g, e in m):
            p = p_subst_pos(p, sg, {ONE: 1, ((cg, 2),): -1}, True)
    return p


def sqrt(x):
    if not isinstance(x, Sym):
        x = lift(x)
    p = trig_norm(ratnorm(x.p))
    if not p:
        return Sym({})
    c, m, prim = p_content(p)
    if c < 0:
        c = -c
        prim = p_scale(prim, -1)
    for sg, cg in TRIG_PAIR.items():
        # 1 - cos^2
        if prim == {ONE: 1, ((cg, 2),): -1} and c > 0:
            return sqrt(Sym({m: c})) * abs(Sym({((sg, 1),): 1}))
    # monomial part
    outm = []
    inside = []
    for g, e in m:
        gen = GENS[g]
        if e % 2 == 0:
            outm.append((g, e // 2))
        else:
            outm.append((g, (e - 1) // 2))
            inside.append((g, 1))
    # |.| of the extracted variables
    sgn = 1
    absfix = Sym({ONE: 1})
    keep = []
    for g, e in outm:
        v = Sym({((g, 1),): 1})
        s = CTX.known_sign(v) if CTX is not None else None
        if s is None and e % 2:
            av = v._abs_split()
            absfix = absfix * av ** e
        else:
            if s is not None and s < 0 and e % 2:
                sgn = -sgn
            if e:
                keep.append((g, e))
    f0, keepm = mono_pow(tuple(sorted(keep)), 1)
    num, den = c.numerator, c.denominator
    a, b = _squarefree(num * den)
    coef = Fraction(a, den) * f0 * sgn
    # try known square factors of the primitive part
    extra = Sym({ONE: 1})
    if len(prim) > 1:
        changed = True
        while changed and len(prim) > 1:
            changed = False
            for g in list(GENS):
                if g.e is None or g.auto or len(g.e) < 2 or len(g.e) > len(prim):
                    continue
                if not p_gens(g.e) <= p_gens(prim):
                    continue
                if g.kind == 'sqrt':
                    q = {ONE: 1} if g.e == prim else p_divexact(prim, g.e)
                    if q is not None and not any(e < 0 for mm in q for _, e in mm):
                        extra = extra * Sym({((g.id, 1),): 1})
                        prim = q
                        changed = True
                        break
                elif g.kind == 'den':
                    e2 = p_mul(g.e, g.e)
                    if len(e2) > len(prim):
                        continue
                    q = {ONE: 1} if e2 == prim else p_divexact(prim, e2)
                    if q is not None and not any(e < 0 for mm in q for _, e in mm):
                        extra = extra * abs(Sym(g.e))
                        prim = q
                        changed = True
                        break
        if len(prim) > 1:
            r = _poly_sqrt(prim)
            if r is not None:
                extra = extra * abs(Sym(r))
                prim = {ONE: 1}
        if len(prim) == 1 and ONE in prim:
            a2 = prim[ONE]
            a, b2 = _squarefree(int(a2) * b) if Fraction(a2).denominator == 1 else (1, b)
            if Fraction(a2).denominator == 1:
                coef = coef * a
                b = b2
                prim = {ONE: 1}
    out = Sym(_clean({keepm: coef})) * absfix * extra
    rad = p_mul({tuple(sorted(inside)): b}, prim)
    if rad == {ONE: 1}:
        return out
    # split the constant surd from the polynomial part
    if len(rad) == 1:
        for mm, cc in rad.items():
            for g, e in mm:
                out = out * _sqrt_gen({((g, e),): 1})
            if cc != 1:
                out = out * _sqrt_gen({ONE: cc})
        return out
    if b != 1:
        out = out * _sqrt_gen({ONE: b})
        rad = p_mul({tuple(sorted(inside)): 1}, prim)
    if inside:
        for g, e in inside:
            out = out * _sqrt_gen({((g, e),): 1})
        rad = prim
    return out * _sqrt_gen(rad)


def _poly_sqrt(p):
    """Polynomial square root if p is a perfect square, else None."""
    if any(e < 0 for m in p for _, e in m):
        return None
    gens = sorted(p_gens(p))
    idx = {g: i for i, g in enumerate(gens)}
    n = len(gens)

    def vec(m):
        v = [0] * n
        for g, e in m:
            v[idx[g]] = e
        return tuple(v)
    A = {vec(m): Fraction(c) for m, c in p.items()}
    if len(A) > 60:
        return None
    la = max(A)
    if any(e % 2 for e in la):
        return None
    c = A[la]
    r = _rat_pow(c, Fraction(1, 2))
    if r is None:
        return None
    root = {tuple(e // 2 for e in la): Fraction(r)}
    l0 = tuple(e // 2 for e in la)
    c0 = Fraction(r)
    for _ in range(len(A) + 2):
        # remainder
        R = dict(A)
        for m1, c1 in root.items():
            for m2, c2 in root.items():
                k = tuple(x + y for x, y in zip(m1, m2))
                v = R.get(k, 0) - c1 * c2
                if v:
                    R[k] = v
                else:
                    R.pop(k, None)
        if not R:
            out = {}
            for t, cc in root.items():
                if cc.denominator == 1:
                    cc = cc.numerator
                out[tuple((gens[i], e) for i, e in enumerate(t) if e)] = cc
            return out
        lr = max(R)
        t = tuple(x - y for x, y in zip(lr, l0))
        if min(t, default=0) < 0 or t in root:
            return None
        root[t] = R[lr] / (2 * c0)
    return None


def _sqrt_gen(rad):
    key = ('sqrt', p_key(rad))
    g = _by_key.get(key)
    if g is None:
        g = new_gen('S%d' % len(GENS), 'sqrt', key)
        g.e = rad
        g.lo = Fraction(0)
        if len(rad) == 1:
            g.auto = True
            if ONE in rad:
                v = float(rad[ONE]) ** 0.5
                g.lo = Fraction(v) * Fraction(10**12 - 1, 10**12)
                g.hi = Fraction(v) * Fraction(10**12 + 1, 10**12)
    return Sym({((g.id, 1),): 1})


# --------------------------------------------------------------------------
# integer parts

def sym_floor(x):
    x = lift(x)
    if x.is_const():
        return math.floor(x.const_value())
    if is_int_valued(x):
        return x
    p = ratnorm(x.p)
    lo, hi = p_interval(p)
    if lo is not None and hi is not None and lo > -1e15 and hi < 1e15 and math.floor(lo) == math.floor(hi):
        return math.floor(lo)
    key = ('floor', p_key(p))
    g = _by_key.get(key)
    if g is None:
        g = new_gen('K%d' % len(GENS), 'int', key)
        v = Sym({((g.id, 1),): 1})
        xx = Sym(p)
        if lo is not None and lo > -1e15:
            g.lo = Fraction(math.floor(lo))
        if hi is not None and hi < 1e15:
            g.hi = Fraction(math.floor(hi))
        DEFS.append((v <= xx, g.id))
        DEFS.append((xx < v + 1, g.id))
        g.num = lambda env, p=p: math.floor(evalf(p, env) + 1e-12)
    return Sym({((g.id, 1),): 1})


def is_int_valued(x):
    """Integer-coefficient polynomial over integer generators."""
    for m, c in x.p.items():
        if type(c) is not int:
            return False
        for g, e in m:
            if GENS[g].kind != 'int' or e < 0:
                return False
    return True


def sym_trunc(x):
    x = lift(x)
    if x.is_const():
        return Sym.const(math.trunc(x.const_value()))
    if is_int_valued(x):
        return x
    if x >= 0:
        return lift(sym_floor(x))
    return lift(-sym_floor(-x))


def sym_mod(x, m):
    x = lift(x)
    m = lift(m)
    if x.is_const() and m.is_const():
        a, b = x.const_value(), m.const_value()
        return Sym.const(a - b * math.floor(Fraction(a) / b))
    q = sym_floor(x / m)
    return x - m * q


def sym_round(x, n=0):
    """Round half to even modelled as: any multiple of 10^-n within half a unit
    (the tie rule is left open)."""
    x = lift(x)
    sc = 10 ** int(n)
    p = ratnorm((x * sc).p)
    if Sym(p).is_const():
        q = Fraction(Sym(p).const_value())
        return Sym.const(Fraction(round(q)) / sc)
    key = ('round', p_key(p))
    g = _by_key.get(key)
    if g is None:
        g = new_gen('K%d' % len(GENS), 'int', key)
        v = Sym({((g.id, 1),): 1})
        xx = Sym(p)
        DEFS.append((v * 2 - 1 <= xx * 2, g.id))
        DEFS.append((xx * 2 <= v * 2 + 1, g.id))
        g.num = lambda env, p=p: round(evalf(p, env))
    return Sym({((g.id, 1),): 1}) / sc


# --------------------------------------------------------------------------
# uninterpreted functions

def uf(fname, args, num=None, lo=None, hi=None, extra_key=None, deriv=None):
    """Application of an uninterpreted function to Sym arguments."""
    ps = [ratnorm(lift(a).p) for a in args]
    key = ('uf', fname, extra_key, tuple(p_key(p) for p in ps))
    g = _by_key.get(key)
    if g is None:
        g = new_gen('F%d_%s' % (len(GENS), ''.join(ch for ch in fname if ch.isalnum())), 'uf', key)
        g.fname = fname
        g.args = ps
        g.lo = None if lo is None else Fraction(lo)
        g.hi = None if hi is None else Fraction(hi)
        if num is not None:
            g.num = lambda env, ps=ps, num=num: num(*[evalf(p, env) for p in ps])
        g.deriv = deriv
        if CTX is not None and fname in CTX.uf_axioms:
            CTX.uf_axioms[fname](g, [Sym(p) for p in ps])
    return Sym({((g.id, 1),): 1})


def _uf_num(fname, x, num, **kw):
    return uf(fname, [x], num=num, **kw)


def _exp(x):
    x = lift(x)
    if not x.p:
        return Sym.const(1)
    # exp(a) with a canonical sign so that exp(-a) = 1/exp(a)
    p = ratnorm(x.p)
    c, m, prim = p_content(p)
    if c > 0:
        return recip(_exp(Sym(p_scale(p, -1))))
    r = uf('exp', [Sym(p)], num=math.exp, lo=0)
    return r


def _log(x):
    x = lift(x)
    if x.is_const() and x.const_value() == 1:
        return Sym({})
    return uf('log', [x], num=math.log)


def erfc(x):
    return uf('erfc', [lift(x)], num=math.erfc, lo=0, hi=2)


def _trig_args(x):
    """Split into (known angle generators with coefficient +-1, rest)."""
    known = []
    rest = {}
    for m, c in x.p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in ANGLES and c in (1, -1):
            known.append((m[0][0], c))
        else:
            rest[m] = c
    return known, Sym(rest)


ANGLES = {}     # generator id -> (cos Sym, sin Sym)


def _cos_atom(x):
    p = ratnorm(x.p)
    if not p:
        return Sym.const(1), Sym.const(0)
    pi = PI().p
    (pm, _), = pi.items()
    if len(p) == 1 and pm in p:
        q = Fraction(p[pm]) * 2
        if q.denominator == 1:
            k = int(q) % 4
            return (Sym.const([1, 0, -1, 0][k]), Sym.const([0, 1, 0, -1][k]))
    q = Fraction(p.get(pm, 0)) * 2
    if q.denominator == 1 and q:
        # turn by quarters
        c, s = _cos_atom(Sym({m: v for m, v in p.items() if m != pm}))
        k = int(q) % 4
        return [(c, s), (-s, c), (-c, -s), (s, -c)][k]
    c, m, prim = p_content(p)
    s = 1
    if c < 0:
        p = p_scale(p, -1)
        s = -1
    cg = uf('cos', [Sym(p)], num=math.cos, lo=-1, hi=1)
    sg = uf('sin', [Sym(p)], num=math.sin, lo=-1, hi=1)
    # sin^2 = 1 - cos^2
    gid = next(iter(sg.p))[0][0]
    cid = next(iter(cg.p))[0][0]
    if GENS[gid].e is None:
        TRIG_PAIR[gid] = cid
    return cg, sg * s


TRIG_PAIR = {}   # sin generator -> cos generator


def _cossin(x):
    x = lift(x)
    known, rest = _trig_args(x)
    c, s = _cos_atom(rest)
    for g, sg in known:
        kc, ks = ANGLES[g]
        ks = ks * sg
        c, s = c * kc - s * ks, s * kc + c * ks
    return c, s


def cos(x):
    return _cossin(x)[0]


def sin(x):
    return _cossin(x)[1]


def _angle(name, key, c, s, num, lo, hi):
    g = _by_key.get(key)
    if g is None:
        g = new_gen('%s%d' % (name, len(GENS)), 'uf', key)
        g.fname = name
        g.args = []
        g.num = num
        g.lo = Fraction(lo)
        g.hi = Fraction(hi)
        ANGLES[g.id] = (c, s)
    return Sym({((g.id, 1),): 1})


def arccos(x):
    x = lift(x)
    p = ratnorm(x.p)
    xs = Sym(p)
    if xs.is_const() and xs.const_value() in (1, -1, 0):
        return {1: Sym.const(0), -1: PI(), 0: PI() / 2}[xs.const_value()]
    s = sqrt(1 - xs * xs)
    new = ('arccos', p_key(p)) not in _by_key
    r = _angle('arccos', ('arccos', p_key(p)), xs, s,
               lambda env, p=p: math.acos(max(-1, min(1, evalf(p, env)))), 0, 4)
    if new:
        # which side of a right angle
        (m, _), = r.p.items()
        half = PI() / 2
        DEFS.append(((xs <= 0) | (r < half), m[0][0]))
        DEFS.append(((xs >= 0) | (r > half), m[0][0]))
    return r


def arctan2(y, x):
    y = lift(y)
    x = lift(x)
    rho = sqrt(x * x + y * y)
    if not rho.p:
        return Sym.const(0)
    py, px = ratnorm(y.p), ratnorm(x.p)
    return _angle('arctan2', ('arctan2', p_key(py), p_key(px)), x / rho, y / rho,
                  lambda env: math.atan2(evalf(py, env), evalf(px, env)), -4, 4)


# --------------------------------------------------------------------------
# numeric evaluation, printing, differentiation, bounds

def evalf(p, env):
    """Evaluate a polynomial numerically; env maps generator name -> float."""
    cache = env.setdefault('__gens__', {})
    tot = 0.0
    for m, c in p.items():
        v = float(c) if type(c) is int or abs(c) < 1e300 else float(c)
        for g, e in m:
            v *= gen_value(g, env, cache) ** e
        tot += v
    return tot


def gen_value(g, env, cache=None):
    if cache is None:
        cache = env.setdefault('__gens__', {})
    if g in cache:
        return cache[g]
    gen = GENS[g]
    if gen.name in env:
        v = float(env[gen.name])
    elif gen.kind == 'sqrt':
        v = math.sqrt(max(0.0, evalf(gen.e, env)))
    elif gen.kind == 'den':
        v = evalf(gen.e, env)
    elif gen.num is not None:
        v = gen.num(env)
    else:
        raise KeyError(gen.name)
    cache[g] = v
    return v


def to_str(p, limit=8):
    if not p:
        return '0'
    out = []
    for m, c in list(sorted(p.items()))[:limit]:
        out.append('%s%s' % (c, ''.join('*%s^%d' % (GENS[g].name, e) for g, e in m)))
    if len(p) > limit:
        out.append('... (%d terms)' % len(p))
    return ' + '.join(out)


def diff(x, var):
    """Partial derivative with respect to generator `var` (a Sym variable)."""
    x = lift(x)
    (vm, _), = var.p.items()
    vid = vm[0][0]
    out = {}
    cache = {}
    for m, c in x.p.items():
        for i, (g, e) in enumerate(m):
            d = _dgen(g, vid, cache)
            if not d:
                continue
            rest = list(m)
            if e == 1:
                rest.pop(i)
            else:
                rest[i] = (g, e - 1)
            t = p_mul({tuple(rest): c * e}, d)
            out = p_add(out, t)
    return Sym(out)


def _dgen(g, vid, cache):
    if g == vid:
        return {ONE: 1}
    if g in cache:
        return cache[g]
    gen = GENS[g]
    r = {}
    if gen.kind == 'sqrt':
        de = diff(Sym(gen.e), Sym({((vid, 1),): 1})).p
        if de:
            r = p_mul(p_scale(de, Fraction(1, 2)), {((g, -1),): 1})
    elif gen.kind == 'den':
        r = diff(Sym(gen.e), Sym({((vid, 1),): 1})).p
    elif gen.deriv is not None:
        r = gen.deriv(vid)
    elif gen.kind == 'uf':
        for a in gen.args:
            if vid in all_gens(a):
                raise SymError('no derivative rule for %s' % gen.name)
    cache[g] = r
    return r


def all_gens(p, seen=None):
    """All generators p depends on, transitively."""
    if seen is None:
        seen = set()
    for m in p:
        for g, e in m:
            if g not in seen:
                seen.add(g)
                gen = GENS[g]
                if gen.e is not None:
                    all_gens(gen.e, seen)
    return seen


INF = float('inf')


def gen_interval(g, memo=None, depth=0):
    """Sound interval for a generator from its bounds and definition."""
    gen = GENS[g]
    lo = -INF if gen.lo is None else float(gen.lo) - 1e-12 * abs(float(gen.lo))
    hi = INF if gen.hi is None else float(gen.hi) + 1e-12 * abs(float(gen.hi))
    if gen.e is not None and depth < 6 and (lo == -INF or hi == INF or gen.kind == 'sqrt'):
        a, b = p_interval(gen.e, depth + 1)
        if gen.kind == 'sqrt':
            a = math.sqrt(max(a, 0.0)) * (1 - 1e-12)
            b = math.sqrt(max(b, 0.0)) * (1 + 1e-12) if b < INF else INF
        lo, hi = max(lo, a), min(hi, b)
    return lo, hi


def _ipow(lo, hi, e):
    if e < 0:
        if lo > 0:
            return _ipow(1 / hi if hi < INF else 0.0, 1 / lo, -e)
        if hi < 0:
            return _ipow(1 / hi, 1 / lo if lo > -INF else -0.0, -e)
        return -INF, INF
    if e == 1:
        return lo, hi
    try:
        a = lo ** e
        b = hi ** e
    except OverflowError:
        return -INF, INF
    if e % 2:
        return a, b
    if lo <= 0 <= hi:
        return 0.0, max(a, b)
    return min(a, b), max(a, b)


def _imul(a, b, c, d):
    vals = []
    for x in (a, b):
        for y in (c, d):
            v = x * y
            if v != v:
                v = 0.0
            vals.append(v)
    return min(vals), max(vals)


def mono_interval(m, depth=0):
    lo, hi = 1.0, 1.0
    for g, e in m:
        a, b = gen_interval(g, None, depth)
        a, b = _ipow(a, b, e)
        lo, hi = _imul(lo, hi, a, b)
    return lo, hi


def p_interval(p, depth=0):
    lo = hi = 0.0
    for m, c in p.items():
        a, b = mono_interval(m, depth)
        c = float(c)
        a, b = _imul(a, b, c, c)
        lo += a
        hi += b
    if lo != lo or hi != hi:
        return -INF, INF
    s = 1e-12 * (abs(lo) if lo > -INF else 0)
    t = 1e-12 * (abs(hi) if hi < INF else 0)
    return lo - s, hi + t


# --------------------------------------------------------------------------
# elementwise operation with numpy arrays

def _elementwise(name):
    f = getattr(Sym, name)
    cmp = name in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__')

    def g(self, o):
        if isinstance(o, _np_ndarray()):
            import numpy as np
            import npshim
            out = np.empty(o.shape, dtype=bool if cmp else object)
            for i, e in np.ndenumerate(o):
                if not isinstance(e, Sym):
                    e = lift(e)
                r = f(self, e)
                out[i] = bool(r) if cmp else r
            return out if cmp else npshim.SAv(out)
        return f(self, o)
    g.__name__ = name
    setattr(Sym, name, g)


def _np_ndarray(c=[]):
    if not c:
        import numpy
        c.append(numpy.ndarray)
    return c[0]


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv',
           'lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    _elementwise('__%s__' % _n)
