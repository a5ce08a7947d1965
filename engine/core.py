"""Path exploration, SMT encoding and decision of obligations."""

import json
import math
import os
import random
import subprocess
import sys
import threading
import time
import traceback
from fractions import Fraction

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
for p in (HERE, os.path.join(VERIF, 'checks')):
    if p not in sys.path:
        sys.path.insert(0, p)

import z3
import sym
from sym import (Sym, SymBool, SymError, GENS, DEFS, lift, p_add, p_gens,
                 clear_defs, uf_part, evalf, all_gens)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = self.sat = self.unknown = 0
        self.paths = 0
        self.branches = 0
        self.obligations = 0
        self.identities = 0
        self.by_bounds = 0
        self.nonlinear = 0
        self.interval_pruned = 0
        self.by_witness = 0
        self.validated = 0
        self.witnesses = 0
        self.functions = set()
        self.cvc5 = 0


STATS = Stats()


# --------------------------------------------------------------------------
# SMT-LIB text

def q_text(q):
    q = Fraction(q)
    if q < 0:
        return '(- %s)' % q_text(-q)
    if q.denominator == 1:
        return '%d.0' % q.numerator
    return '(/ %d.0 %d.0)' % (q.numerator, q.denominator)


def g_text(g):
    gen = GENS[g]
    n = '|%s|' % gen.name
    return '(to_real %s)' % n if gen.kind == 'int' else n


def p_text(p, used, inv):
    if not p:
        return '0.0'
    terms = []
    for m, c in p.items():
        fs = []
        if c != 1 or not m:
            fs.append(q_text(c))
        for g, e in m:
            used.add(g)
            if e > 0:
                fs.extend([g_text(g)] * e)
            else:
                inv.add(g)
                fs.extend(['|i_%s|' % GENS[g].name] * (-e))
        terms.append(fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs))
    return terms[0] if len(terms) == 1 else '(+ %s)' % ' '.join(terms)


def c_text(t, used, inv):
    k = t[0]
    if k == 'const':
        return 'true' if t[1] else 'false'
    if k == 'cmp':
        op = t[1]
        s = p_text(t[2], used, inv)
        if op == '!=':
            return '(not (= %s 0.0))' % s
        if op == '==':
            return '(= %s 0.0)' % s
        return '(%s %s 0.0)' % (op, s)
    if k == 'not':
        return '(not %s)' % c_text(t[1], used, inv)
    if k == 'raw':
        s, g = t[1]
        used |= g
        return s
    if len(t) == 1:
        return 'true' if k == 'and' else 'false'
    return '(%s %s)' % (k, ' '.join(c_text(x, used, inv) for x in t[1:]))


def encode(conds, defs=True, trig=True):
    """SMT-LIB text for a conjunction of conditions."""
    used, inv = set(), set()
    body = [c_text(c.t if isinstance(c, SymBool) else c, used, inv) for c in conds]
    out = []
    done = set()
    defdone = set()
    dlist = list(DEFS) if defs else []
    while True:
        new = (used | inv) - done
        if not new:
            break
        for g in sorted(new):
            done.add(g)
            gen = GENS[g]
            if gen.lo is not None and not (gen.kind == 'sqrt' and not gen.auto):
                out.append('(>= %s %s)' % (g_text(g), q_text(gen.lo)))
            if gen.hi is not None:
                out.append('(<= %s %s)' % (g_text(g), q_text(gen.hi)))
            if defs and gen.e is not None:
                e = p_text(gen.e, used, inv)
                if gen.kind == 'sqrt':
                    out.append('(>= %s 0.0)' % g_text(g))
                    out.append('(= (* %s %s) %s)' % (g_text(g), g_text(g), e))
                else:
                    out.append('(= %s %s)' % (g_text(g), e))
            if defs and trig and g in sym.TRIG_PAIR:
                c = sym.TRIG_PAIR[g]
                used.add(c)
                out.append('(= (+ (* %s %s) (* %s %s)) 1.0)' % (g_text(g), g_text(g), g_text(c), g_text(c)))
        for i, (c, g) in enumerate(dlist):
            if i not in defdone and g in done:
                defdone.add(i)
                out.append(c_text(c.t, used, inv) if isinstance(c, SymBool)
                           else ('true' if c else 'false'))
    decl = []
    for g in sorted(done | used):
        gen = GENS[g]
        decl.append('(declare-const |%s| %s)' % (gen.name, 'Int' if gen.kind == 'int' else 'Real'))
        if g in inv:
            decl.append('(declare-const |i_%s| Real)' % gen.name)
            out.append('(= (* %s |i_%s|) 1.0)' % (g_text(g), gen.name))
    return '\n'.join(decl + ['(assert %s)' % b for b in out + body])


class Timeout(Exception):
    pass


def watch(done, ident, ctx, limit):
    """Interrupt the solver once the thread has used its processor time, so
    that an answer does not depend on how busy the machine is."""
    clock = time.pthread_getcpuclockid(ident)
    start = time.clock_gettime(clock)
    wait = limit
    while not done.wait(wait):
        left = limit - (time.clock_gettime(clock) - start)
        if left <= 0:
            ctx.interrupt()
            wait = 0.2
        else:
            wait = max(0.02, left)


def solve(text, timeout_ms=20000, model=False, logic=None, seed=0):
    STATS.queries += 1
    t0 = time.time()
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set('timeout', int(timeout_ms) * 8)
    if seed:
        s.set('random_seed', seed)
    s.from_string(text)
    done = threading.Event()
    w = threading.Thread(target=watch, daemon=True,
                         args=(done, threading.get_ident(), s.ctx, timeout_ms / 1000))
    w.start()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    finally:
        done.set()
        w.join()
    STATS.solver_s += time.time() - t0
    r = str(r)
    if r == 'sat':
        STATS.sat += 1
        if model:
            m = s.model()
            vals = {}
            for d in m.decls():
                v = m[d]
                vals[d.name()] = z3_to_q(v)
            return r, vals
        return r, None
    if r == 'unsat':
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return r, None


def z3_to_q(v):
    try:
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
    except Exception:
        pass
    return None


def check(conds, timeout_ms=20000, model=False):
    """sat / unsat / unknown of a conjunction; tries the default solver, then
    the nonlinear real solver."""
    text = encode(conds)
    hasint = ' Int)' in text
    nl = '(* |' in text or '|i_' in text
    r, m = solve(text, min(timeout_ms, 4000) if (nl and not hasint) else timeout_ms, model)
    if r == 'unknown' and not hasint:
        r, m = solve(text, timeout_ms, model, 'QF_NRA')
    elif r == 'unknown':
        r, m = solve(text, timeout_ms, model, seed=7)
    return r, m


# --------------------------------------------------------------------------
# path exploration

class PathEnd(BaseException):
    """Path abandoned (assumption false)."""


class Budget(Exception):
    pass


_clos = {}


def gen_closure(g):
    """Generator together with everything its definition mentions."""
    r = _clos.get(g)
    gen = GENS[g]
    if r is not None and r[0] is gen:
        return r[1]
    out = {g}
    if gen.e is not None:
        for h in p_gens(gen.e):
            out |= gen_closure(h)
    _clos[g] = (gen, frozenset(out))
    return _clos[g][1]


def cond_closure(t):
    if t[0] == 'cmp':
        out = set()
        for g in p_gens(t[2]):
            out |= gen_closure(g)
        return out
    if t[0] in ('const', 'raw'):
        return set()
    out = set()
    for x in t[1:]:
        out |= cond_closure(x)
    return out


def clampg(g, v):
    if g.lo is not None and v < g.lo:
        return float(g.lo)
    if g.hi is not None and v > g.hi:
        return float(g.hi)
    return round(v, 4)


def violation(t, env):
    """0 when t holds numerically, larger the further away."""
    if t[0] == 'const':
        return 0.0 if t[1] else 1e9
    if t[0] == 'cmp':
        v = evalf(t[2], env)
        if t[1] in ('<', '<='):
            return max(0.0, v)
        if t[1] in ('>', '>='):
            return max(0.0, -v)
        if t[1] == '==':
            return abs(v)
        return 0.0 if v else 1.0
    vs = [violation(x, env) for x in t[1:]]
    return sum(vs) if t[0] == 'and' else min(vs)


_ALL = frozenset('-0+')
_POSS = {'<': frozenset('-'), '<=': frozenset('-0'), '>': frozenset('+'),
         '>=': frozenset('0+'), '==': frozenset('0'), '!=': frozenset('-+')}
_FLIP = {f: frozenset({'-': '+', '0': '0', '+': '-'}[c] for c in f) for f in _POSS.values()}


class Ctx:
    feas_timeout = 6000

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.decisions = []       # list of bools (all branches, incl. forced)
        self.pending = []         # alternative prefixes
        self.pc = []              # SymBool list
        self.assumptions = []
        self.formatter = None
        self.uf_axioms = {}
        self.obls = []
        self.inputs = []
        self.sign_cache = {}
        self.engine_errors = []
        self.facts = {}
        self.pool = []            # concrete inputs satisfying all conditions
        self.pool_seen = 0
        self.pool_dry = False
        self.rng = random.Random(20240917)

    # -- assumptions
    def assume(self, c):
        if isinstance(c, SymBool):
            self.assumptions.append(c)
            self.learn(c.t)
        elif not c:
            raise PathEnd()

    def conds(self):
        return self.assumptions + self.pc

    def known_sign(self, x):
        """+1/-1/0.. if the sign is implied cheaply (interval bounds)."""
        if x.is_const():
            c = x.const_value()
            return (c > 0) - (c < 0)
        lo, hi = sym.p_interval(x.p)
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        if lo >= 0:
            return 1
        if len(x.p) == 1:
            (m, c), = x.p.items()
            s = 1 if c > 0 else -1
            for g, e in m:
                if e % 2 == 0:
                    continue
                gl, gh = sym.gen_interval(g)
                if gl >= 0:
                    continue
                if gh <= 0:
                    s = -s
                    continue
                return None
            return s
        return None

    # -- facts about canonical polynomials: which of -,0,+ are possible
    def canon(self, p):
        """(key, sign): p has the sign of sign*q, q the canonical polynomial."""
        if any(GENS[g].kind == 'den' for m in p for g, e in m):
            p = sym.ratnorm(p)
        c, m, prim = sym.p_content(p)
        s = 1 if c > 0 else -1
        keep = []
        for g, e in m:
            if e % 2 == 0 and e < 0:
                continue
            lo, hi = sym.gen_interval(g)
            if lo > 0 or (e < 0 and lo >= 0):
                continue
            if hi < 0 or (e < 0 and hi <= 0):
                if e % 2:
                    s = -s
                continue
            keep.append((g, e))
        if keep:
            prim = sym.p_mul(prim, {tuple(keep): 1})
        return sym.p_key(prim), s

    def learn(self, t):
        if t[0] == 'and':
            for x in t[1:]:
                self.learn(x)
        elif t[0] == 'cmp':
            k, s = self.canon(t[2])
            a = _POSS[t[1]] if s > 0 else _FLIP[_POSS[t[1]]]
            self.facts[k] = self.facts.get(k, _ALL) & a

    def _quick(self, t):
        """Decision of a comparison by intervals or known facts."""
        k = t[0]
        if k == 'const':
            return t[1]
        if k == 'cmp':
            key, s = self.canon(t[2])
            f = self.facts.get(key)
            if f is not None:
                a = _POSS[t[1]] if s > 0 else _FLIP[_POSS[t[1]]]
                if f <= a:
                    return True
                if not f & a:
                    return False
            lo, hi = sym.p_interval(t[2])
            op = t[1]
            if op == '<':
                return True if hi < 0 else (False if lo >= 0 and lo > 0 else None)
            if op == '<=':
                return True if hi < 0 else (False if lo > 0 else None)
            if op == '>':
                return True if lo > 0 else (False if hi < 0 else None)
            if op == '>=':
                return True if lo > 0 else (False if hi < 0 else None)
            if op == '==':
                return False if lo > 0 or hi < 0 else None
            if op == '!=':
                return True if lo > 0 or hi < 0 else None
        if k == 'and':
            rs = [self._quick(x) for x in t[1:]]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if k == 'or':
            rs = [self._quick(x) for x in t[1:]]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        return None

    def lin_infeasible(self, c):
        """Refutation with every nonlinear monomial an independent variable."""
        mons = {}

        def pt(p):
            ts = []
            for m, q in p.items():
                if not m:
                    ts.append(q_text(q))
                    continue
                if m not in mons:
                    mons[m] = 'm%d' % len(mons)
                ts.append('(* %s %s)' % (q_text(q), mons[m]))
            return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)

        def ct(t):
            if t[0] == 'const':
                return 'true' if t[1] else 'false'
            if t[0] == 'cmp':
                x = pt(t[2])
                if t[1] == '!=':
                    return '(not (= %s 0.0))' % x
                return '(%s %s 0.0)' % ('=' if t[1] == '==' else t[1], x)
            if t[0] in ('and', 'or') and len(t) > 1:
                return '(%s %s)' % (t[0], ' '.join(ct(x) for x in t[1:]))
            if t[0] == 'and':
                return 'true'
            raise KeyError
        try:
            body = [ct(c.t)]
        except KeyError:
            return False
        for k in self.conds():
            try:
                body.append(ct(k.t))
            except KeyError:    # left out: only weakens the refutation
                pass
        out = []
        for m, v in mons.items():
            lo, hi = sym.p_interval({m: 1})
            if lo > -1e30:
                out.append('(assert (>= %s %s))' % (v, q_text(Fraction(lo))))
            if hi < 1e30:
                out.append('(assert (<= %s %s))' % (v, q_text(Fraction(hi))))
        text = ('\n'.join('(declare-const %s Real)' % v for v in mons.values()) + '\n'
                + '\n'.join(out) + '\n' + '\n'.join('(assert %s)' % b for b in body))
        r, _ = solve(text, 1500)
        return r == 'unsat'

    # -- concrete witnesses
    def _fits(self, env, conds):
        try:
            for g in self.inputs:
                if g.name not in env:
                    env.update(sample_env([g], self.rng))
            return all(cond_num(k.t, env) for k in conds)
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            return False

    def _mutate(self, env):
        out = {k: v for k, v in env.items() if k != '__gens__'}
        r = self.rng
        mode = r.random()
        if mode < 0.3:
            f = r.choice((0.3, 0.6, 0.8, 1.25, 1.6, 3.0))
            for g in self.inputs:
                if g.kind != 'int' and g.lo is not None and g.lo < 0:
                    out[g.name] = clampg(g, out[g.name] * f)
            return out
        gs = list(self.inputs)
        for g in r.sample(gs, min(len(gs), r.choice((1, 1, 2, 3, len(gs))))):
            new = sample_env([g], r)[g.name]
            if g.kind != 'int' and r.random() < 0.6:
                new = out[g.name] + (new - out[g.name]) * r.choice((0.5, 0.2, 0.05))
            out[g.name] = clampg(g, new)
        return out

    def witnesses(self):
        conds = self.conds()
        if self.pool_seen != len(conds):
            new = conds[self.pool_seen:] if self.pool_seen <= len(conds) else conds
            # assumptions may have been inserted before path conditions
            self.pool = [e for e in self.pool if self._fits(e, conds)]
            self.pool_seen = len(conds)
            self.pool_dry = False
        if len(self.pool) < 4 and not self.pool_dry and self.inputs:
            for i in range(120):
                if self.pool and i % 2:
                    e = self._mutate(self.rng.choice(self.pool))
                else:
                    e = sample_env(self.inputs, self.rng)
                    f = self.rng.choice((1, 1, 0.5, 0.25, 0.1))
                    for g in self.inputs:
                        if f != 1 and g.kind != 'int' and g.lo is not None and g.lo < 0:
                            e[g.name] = clampg(g, e[g.name] * f)
                if self._fits(e, conds):
                    self.pool.append(e)
                    if len(self.pool) >= 24:
                        break
            if not self.pool:
                e = self._climb(conds)
                if e is not None:
                    self.pool.append(e)
            self.pool_dry = len(self.pool) < 4
        return self.pool

    def _climb(self, conds, budget=4.0):
        """Local search for a first concrete input."""
        t_end = time.thread_time() + budget

        def cost(e):
            try:
                return sum(violation(k.t, e) for k in conds)
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                return math.inf
        starts = []
        for _ in range(40):
            e = sample_env(self.inputs, self.rng)
            starts.append((cost(e), len(starts), e))
        starts.sort()
        for cur, _, e in starts[:4]:
            stale = 0
            while stale < 250 and time.thread_time() < t_end:
                n = self._mutate(e)
                v = cost(n)
                if v < cur:
                    cur, e, stale = v, n, 0
                    if v < 1e-6 and self._fits(e, conds):
                        return e
                else:
                    stale += 1
        return None

    def witness(self, c):
        """A concrete input satisfying everything so far and c, or None."""
        pool = self.witnesses()
        for e in pool:
            if self._fits(e, [c]):
                return e
        if not pool:
            return None
        conds = self.conds()
        try:
            best = min(((violation(c.t, e), i) for i, e in enumerate(pool)))
            cur, e = best[0], pool[best[1]]
            for _ in range(150):
                n = self._mutate(e)
                if not self._fits(n, conds):
                    continue
                v = violation(c.t, n)
                if v <= cur:
                    cur, e = v, n
                    if self._fits(n, [c]):
                        self.pool.append(n)
                        return n
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            pass
        return None

    def feasible(self, c):
        if self.witness(c) is not None:
            STATS.by_witness += 1
            return True
        if self.lin_infeasible(c):
            return False
        # first only the conditions about the same quantities (enough for most
        # refutations), then everything
        own = cond_closure(c.t)
        for k in self.conds():
            for g in sorted(cond_closure(k.t) - own):
                if GENS[g].e is not None and gen_closure(g) - {g} <= own:
                    own.add(g)
        rel, n = [], 0
        for k in self.conds():
            n += 1
            if cond_closure(k.t) <= own:
                rel.append(k)
        if len(rel) < n:
            r, _ = solve(encode(rel + [c]), min(1500, self.feas_timeout))
            if r == 'unsat':
                return False
        r, m = check(self.conds() + [c], self.feas_timeout, model=True)
        if r == 'sat':
            env = {}
            for g in self.inputs:
                v = m.get(g.name)
                env[g.name] = float(v) if v is not None else sample_env([g], self.rng)[g.name]
            if self._fits(env, self.conds()):
                self.pool.append(env)
        return r != 'unsat'

    def branch(self, c):
        q = self._quick(c.t)
        if q is not None:
            STATS.interval_pruned += 1
            return q
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            STATS.branches += 1
            t = self.feasible(c)
            f = self.feasible(sym.Not(c)) if t else True
            if t and f:
                self.pending.append(self.decisions + [False])
                d = True
            else:
                d = t
        self.decisions.append(d)
        k = c if d else sym.Not(c)
        self.pc.append(k)
        self.learn(k.t)
        return d

    def concretize_int(self, x):
        x = lift(x)
        if x.is_const():
            q = Fraction(x.const_value())
            if q.denominator != 1:
                raise SymError('non-integer used as an index')
            return int(q)
        for _ in range(200):
            r, m = check(self.conds(), 10000, model=True)
            if r != 'sat':
                raise SymError('cannot concretise an integer (%s)' % r)
            i = len(self.decisions)
            if i < len(self.prefix) and isinstance(self.prefix[i], tuple):
                v = self.prefix[i][1]
                taken = self.prefix[i][0]
            else:
                env = {k: float(v) for k, v in m.items() if v is not None and not k.startswith('i_')}
                try:
                    v = int(round(evalf(x.p, env)))
                except KeyError:
                    v = 0
                t = self.feasible(x == v) if isinstance(x == v, SymBool) else (x == v)
                f = self.feasible(x != v) if isinstance(x != v, SymBool) else (x != v)
                if t and f:
                    self.pending.append(self.decisions + [(False, v)])
                    taken = True
                elif t:
                    taken = True
                else:
                    taken = False
            self.decisions.append((taken, v))
            self.pc.append((x == v) if taken else (x != v))
            if taken:
                return v
        raise SymError('too many integer values')


# --------------------------------------------------------------------------
# the interface a harness sees

class Api:
    """Symbolic side."""
    symbolic = True

    def __init__(self, ctx, loader_factory, tier, cache):
        self.ctx = ctx
        self.tier = tier
        self._lf = loader_factory
        self.cache = cache
        self.sqrt = self._sqrt
        self.erfc = sym.erfc
        self.exp = sym._exp
        self.cos = sym.cos
        self.sin = sym.sin
        self.covered = []

    def _sqrt(self, x):
        import npshim
        return npshim.f_sqrt(x)

    @property
    def pi(self):
        return sym.PI()

    def loader(self, key='main', **kw):
        """A loader kept for all paths of this harness run."""
        k = ('loader', key)
        if k not in self.cache:
            self.cache[k] = self._lf(**kw)
        return self.cache[k]

    def fresh_loader(self, **kw):
        return self._lf(**kw)

    def real(self, name, lo=None, hi=None):
        key = ('input', name)
        g = sym._by_key.get(key)
        if g is None:
            g = sym.new_gen(name, 'var', key)
            g.is_input = True
            g.lo = None if lo is None else Fraction(sym.to_q(lo))
            g.hi = None if hi is None else Fraction(sym.to_q(hi))
        if g not in self.ctx.inputs:
            self.ctx.inputs.append(g)
        return Sym({((g.id, 1),): 1})

    def int(self, name, lo, hi):
        key = ('input', name)
        g = sym._by_key.get(key)
        if g is None:
            g = sym.new_gen(name, 'int', key)
            g.is_input = True
            g.lo = Fraction(lo)
            g.hi = Fraction(hi)
        if g not in self.ctx.inputs:
            self.ctx.inputs.append(g)
        return Sym({((g.id, 1),): 1})

    def reals(self, name, shape, lo=None, hi=None):
        import numpy as np
        import npshim
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + '_' + '_'.join(map(str, i)), lo, hi)
        return npshim.SAv(out)

    def arr(self, nested):
        import npshim
        return npshim.f_array(nested)

    def const(self, x):
        return Sym.const(x)

    def assume(self, c):
        self.ctx.assume(c)

    def bound(self, x, lo=None, hi=None):
        """Assume lo <= x <= hi and use it for interval reasoning when x is a
        single generator."""
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        if isinstance(x, Sym) and len(x.p) == 1:
            (m, c), = x.p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                g = GENS[m[0][0]]
                if lo is not None and (g.lo is None or g.lo < lo):
                    g.lo = Fraction(sym.to_q(lo))
                if hi is not None and (g.hi is None or g.hi > hi):
                    g.hi = Fraction(sym.to_q(hi))

    def eq(self, name, l, r, tol=1e-9):
        self.ctx.obls.append(('eq', name, l, r, tol))

    def eq_arr(self, name, L, R, tol=1e-9):
        import numpy as np
        L = np.asarray(L, dtype=object) if not isinstance(L, np.ndarray) else L
        R = np.asarray(R, dtype=object) if not isinstance(R, np.ndarray) else R
        if L.shape != R.shape:
            self.ctx.obls.append(('cond', name + '.shape', False, None, None))
            return
        for i in np.ndindex(*L.shape):
            self.eq(name + '[' + ','.join(map(str, i)) + ']', L[i], R[i], tol)

    def holds(self, name, c):
        self.ctx.obls.append(('cond', name, c, None, None))

    def And(self, *xs):
        xs = [x for x in xs if x is not True]
        if any(x is False for x in xs):
            return False
        return sym.And(*xs) if xs else True

    def Or(self, *xs):
        xs = [x for x in xs if x is not False]
        if any(x is True for x in xs):
            return True
        return sym.Or(*xs) if xs else False

    def Not(self, x):
        return sym.Not(x) if isinstance(x, SymBool) else (not x)

    def branch(self, c):
        return bool(c)

    def diff(self, x, v):
        return sym.diff(x, v)

    def fix_ints(self, xs):
        """The same values with every whole-number unknown in them replaced by
        a number, one path for each value it can take."""
        out = [lift(x) for x in xs]
        for g in sorted({g for x in out for g in p_gens(x.p) if GENS[g].kind == 'int'}):
            v = Sym({((g, 1),): 1})
            lo, hi = GENS[g].lo, GENS[g].hi
            if lo is not None and hi is not None and hi - lo < 20:
                for k in range(int(lo), int(hi)):
                    if self.ctx.branch(v == k):
                        break
                else:
                    k = int(hi)
            else:
                k = self.ctx.concretize_int(v)
            out = [Sym(sym.p_subst_pos(x.p, g, {(): k} if k else {}, False)) for x in out]
        return out


class AssumeFailed(Exception):
    pass


class NatApi:
    """Native side: the same harness on machine floats."""
    symbolic = False

    def __init__(self, values, tier='quick', native_loader=None):
        import math as _m
        self.values = values
        self.tier = tier
        self.cache = {}
        self._nl = native_loader
        self.sqrt = _m.sqrt
        self.pi = _m.pi
        self.exp = _m.exp
        self.erfc = _m.erfc
        self.cos = _m.cos
        self.sin = _m.sin
        self.obls = []

    def loader(self, key='main', **kw):
        if key not in self.cache:
            self.cache[key] = self._nl(**kw)
        return self.cache[key]

    def fresh_loader(self, **kw):
        return self._nl(**kw)

    def real(self, name, lo=None, hi=None):
        if name in self.values:
            return float(self.values[name])
        lo_ = -2.0 if lo is None else float(lo)
        hi_ = (lo_ + 4.0) if hi is None else float(hi)
        return (lo_ + hi_) / 2

    def int(self, name, lo, hi):
        return int(round(float(self.values.get(name, lo))))

    def reals(self, name, shape, lo=None, hi=None):
        import numpy as np
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=float)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + '_' + '_'.join(map(str, i)), lo, hi)
        return out

    def arr(self, nested):
        import numpy as np
        return np.array(nested)

    def const(self, x):
        return float(x) if isinstance(x, Fraction) else x

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def bound(self, x, lo=None, hi=None):
        if lo is not None:
            self.assume(x >= float(lo))
        if hi is not None:
            self.assume(x <= float(hi))

    def eq(self, name, l, r, tol=1e-9):
        self.obls.append(('eq', name, l, r, tol))

    eq_arr = Api.eq_arr

    @property
    def ctx(self):
        return self

    def holds(self, name, c):
        self.obls.append(('cond', name, bool(c), None, None))

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not bool(x)

    def branch(self, c):
        return bool(c)

    def fix_ints(self, xs):
        return list(xs)


# --------------------------------------------------------------------------
# deciding obligations

def as_poly(x):
    if isinstance(x, Sym):
        return x.p
    l = lift(x)
    if l is NotImplemented:
        raise TypeError('not a number: %r' % (x,))
    return l.p


def split_groups(l, r):
    """Group both sides by their uninterpreted-function part and bring each
    group to a common polynomial form (multiplying by non-zero factors)."""
    groups = {}
    for side, p in ((0, l), (1, r)):
        for m, c in p.items():
            k = uf_part(m)
            rest = tuple((g, e) for g, e in m if GENS[g].kind != 'uf')
            groups.setdefault(k, ({}, {}))[side][rest] = c
    out = []
    for k, (a, b) in groups.items():
        a, b = clear_defs([a, b])
        a = trig_reduce(a)
        b = trig_reduce(b)
        out.append((k, a, b))
    return out


def trig_reduce(p):
    return p


def trig_reduce_full(p):
    """sin^2 -> 1 - cos^2 on a whole polynomial."""
    if not sym.TRIG_PAIR:
        return p
    for sgen, cgen in sym.TRIG_PAIR.items():
        if any(g == sgen and e > 1 for m in p for g, e in m):
            one_minus = {(): 1, ((cgen, 2),): -1}
            p = sym.p_subst_pos(p, sgen, one_minus, True)
    return p


def identity_text(l, r, used, inv):
    """SMT text of 'l = r' in normal form (a sufficient condition)."""
    if sym.TRIG_PAIR:
        l, r = trig_reduce_full(l), trig_reduce_full(r)
    parts = []
    for k, a, b in split_groups(l, r):
        if a != b:
            return None
        parts.append('(= %s %s)' % (p_text(a, used, inv), p_text(b, used, inv)))
    if not parts:
        return 'true'
    return parts[0] if len(parts) == 1 else '(and %s)' % ' '.join(parts)


def decl_text(used, inv):
    out = []
    for g in sorted(used):
        gen = GENS[g]
        out.append('(declare-const |%s| %s)' % (gen.name, 'Int' if gen.kind == 'int' else 'Real'))
        if g in inv:
            out.append('(declare-const |i_%s| Real)' % gen.name)
    return '\n'.join(out)


def relations(d):
    """Definitional relations (poly = 0) usable to reduce d, each with the
    monomial it rewrites."""
    gens, todo = set(), set(p_gens(d))
    while todo:
        g = todo.pop()
        if g in gens:
            continue
        gens.add(g)
        if GENS[g].e is not None:
            todo |= p_gens(GENS[g].e)
    out, taken = [], set()
    for g in sorted(gens, reverse=True):
        gen = GENS[g]
        if g in sym.TRIG_PAIR:
            c = sym.TRIG_PAIR[g]
            out.append(({((g, 2),): 1, ((c, 2),): 1, (): -1}, ((g, 2),), None))
            continue
        if gen.e is None or gen.auto or len(gen.e) < 2:
            continue
        if any(e < 0 for m in gen.e for _, e in m):
            continue
        rel = dict(gen.e)
        if gen.kind == 'sqrt':
            rel[((g, 2),)] = -1
        elif gen.kind == 'den':
            rel[((g, 1),)] = -1
        else:
            continue
        cand = sorted((m for m in gen.e if m and m not in taken), key=lambda m: (sum(e for _, e in m), m), reverse=True)
        if not cand:
            continue
        # pure powers first
        cand.sort(key=lambda m: len(m))
        lead = cand[0]
        taken.add(lead)
        out.append((rel, lead, g if gen.kind == 'den' else None))
    return out


def lin_cert(d, cap=6000):
    """Reduce d to zero with multiples of its relations.  Returns the list of
    (multiplier monomial, relation) used, or None."""
    rels = relations(d)
    if not rels:
        return None
    d = dict(d)
    used = []
    seen = set()
    steps = 0
    changed = True
    while d and changed:
        changed = False
        for k, (rel, lead, den) in enumerate(rels):
            lc = rel[lead]
            ld = dict(lead)
            work = [m for m in d]
            while work:
                m = work.pop()
                c = d.get(m)
                if c is None:
                    continue
                dm = dict(m)
                if any(dm.get(g, 0) < e for g, e in ld.items()):
                    continue
                if den is not None and dm.get(den, 0) >= 0:
                    continue
                steps += 1
                if steps > cap:
                    return None
                for g, e in ld.items():
                    v = dm[g] - e
                    if v:
                        dm[g] = v
                    else:
                        del dm[g]
                mult = tuple(sorted(dm.items()))
                if (mult, k) not in seen:
                    seen.add((mult, k))
                    used.append((mult, rel))
                q = Fraction(c) / lc
                for mm, cc in sym.p_mul({mult: q}, rel).items():
                    v = d.get(mm, 0) - cc
                    if v:
                        d[mm] = v
                        work.append(mm)
                    else:
                        d.pop(mm, None)
                changed = True
    return used if not d else None


def prove_identities(pairs):
    """Batched queries: is there any pair whose sides differ?  Monomials are
    independent reals, the definitions of roots and quotients enter as linear
    relations between them.  Splits on failure; returns the indices not shown
    identical."""
    bad = []

    def rec(idx, goals, facts):
        if not idx:
            return
        mons = {}

        def pt(p):
            ts = []
            for m, q in p.items():
                if not m:
                    ts.append(q_text(q))
                    continue
                if m not in mons:
                    mons[m] = 'm%d' % len(mons)
                ts.append(mons[m] if q == 1 else '(* %s %s)' % (q_text(q), mons[m]))
            return '0.0' if not ts else ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)
        body = []
        done = set()
        for f in facts:
            for mult, rel in f:
                key = (mult, id(rel))
                if key in done:
                    continue
                done.add(key)
                body.append('(assert (= %s 0.0))' % pt(sym.p_mul({mult: 1}, rel)))
        gs = ' '.join('(not (= %s %s))' % (pt(l), pt(r)) for l, r in goals)
        text = ('\n'.join('(declare-const %s Real)' % v for v in mons.values()) + '\n'
                + '\n'.join(body) + '\n(assert (or false %s))' % gs)
        r, _ = solve(text, 60000)
        if r == 'unsat':
            return
        if len(idx) == 1:
            bad.append(idx[0])
            return
        h = len(idx) // 2
        rec(idx[:h], goals[:h], facts[:h])
        rec(idx[h:], goals[h:], facts[h:])
    idx, goals, facts, size = [], [], [], 0
    rest = []
    for i, (l, r) in enumerate(pairs):
        d = p_add(l, r, -1)
        cert = [] if not d else lin_cert(d)
        if cert is None:
            rest.append(i)
            continue
        if not l and not r:
            continue
        idx.append(i)
        goals.append((l, r))
        facts.append(cert)
        size += len(l) + len(r) + 5 * len(cert)
        if size > 6000:
            rec(idx, goals, facts)
            idx, goals, facts, size = [], [], [], 0
    rec(idx, goals, facts)
    bad += [rest[k] for k in prove_by_clearing([pairs[i] for i in rest])]
    return sorted(bad)


def prove_by_clearing(pairs):
    """Fallback: common denominators and expanded definitions."""
    bad = []

    def rec(idx, texts):
        if not idx:
            return
        text = decl_text(USED, INV) + '\n(assert (not (and true %s)))' % ' '.join(texts)
        r, _ = solve(text, 60000)
        if r == 'unsat':
            return
        if len(idx) == 1:
            bad.append(idx[0])
            return
        h = len(idx) // 2
        rec(idx[:h], texts[:h])
        rec(idx[h:], texts[h:])
    USED, INV = set(), set()
    idx, texts, size = [], [], 0
    for i, (l, r) in enumerate(pairs):
        t = identity_text(l, r, USED, INV)
        if t is None:
            bad.append(i)       # not an identity: decided by the later stages
            continue
        if t == 'true':
            continue
        # quick syntactic refutation keeps obviously different pairs separate
        idx.append(i)
        texts.append(t)
        size += len(t)
        if size > 400000:
            rec(idx, texts)
            idx, texts, size = [], [], 0
            USED, INV = set(), set()
    rec(idx, texts)
    return sorted(bad)


_HP = {}


def _hp_const(g):
    """50-digit rational value of a constant generator, or None."""
    gen = GENS[g]
    if gen.kind == 'const' and gen.name == 'PI':
        return Fraction('3.14159265358979323846264338327950288419716939937510582')
    if gen.kind == 'sqrt':
        e = Fraction(0)
        for m, c in gen.e.items():
            v = Fraction(c)
            for gg, ee in m:
                h = _hp_const(gg)
                if h is None:
                    return None
                v *= h ** ee
            e += v
        n = e * 10 ** 100
        return Fraction(math.isqrt(int(n)), 10 ** 50)
    return None


def fold_constants(p):
    """Replace pi and surds by 50-digit values (error below 1e-40 per unit)."""
    out = {}
    for m, c in p.items():
        v = Fraction(c)
        rest = []
        for g, e in m:
            h = _hp_const(g)
            if h is None:
                rest.append((g, e))
            else:
                v *= h ** e
        rest = tuple(rest)
        out[rest] = out.get(rest, 0) + v
    return {m: Fraction(round(c * 10 ** 40), 10 ** 40) for m, c in out.items() if c}


def bounded_residual(l, r, tol):
    """Show |l - r| <= tol by linear arithmetic over bounded monomials."""
    d = p_add(l, r, -1)
    cands = [(fold_constants(d), 1.0)]
    total_ok = False
    # cleared form: |N| <= tol * min|F|
    try:
        groups = split_groups(l, r)
        residual = []
        for k, a, b in groups:
            n = p_add(a, b, -1)
            if n:
                residual.append((k, n))
        # map the cleared residual back over the multiplier interval
    except Exception:
        residual = None
    for p, fmin in cands:
        lines, terms = [], []
        ok = True
        for i, (m, c) in enumerate(p.items()):
            lo, hi = sym.mono_interval(m)
            if not (lo > -math.inf and hi < math.inf):
                ok = False
                break
            lines.append('(declare-const m%d Real)(assert (and (<= %s m%d) (<= m%d %s)))' % (
                i, q_text(Fraction(lo)), i, i, q_text(Fraction(hi))))
            terms.append('(* %s m%d)' % (q_text(c), i))
        if not ok:
            continue
        s = '(+ 0.0 %s)' % ' '.join(terms)
        t = q_text(Fraction(tol))
        text = '\n'.join(lines) + '\n(assert (or (> %s %s) (< %s (- %s))))' % (s, t, s, t)
        res, _ = solve(text, 20000)
        if res == 'unsat':
            return True
    # cleared
    if residual:
        bound = 0.0
        try:
            for k, n in residual:
                f = _multiplier(l, r, k)
                if f is None:
                    return False
                lo, hi = sym.p_interval(fold_constants(n))
                klo, khi = sym.mono_interval(k)
                mag = max(abs(lo), abs(hi)) * max(abs(klo), abs(khi))
                flo, fhi = f
                if not mag < math.inf or flo <= 0:
                    return False
                bound += mag / flo
        except Exception:
            return False
        b = Fraction(bound)
        text = '(assert (> %s %s))' % (q_text(b), q_text(Fraction(tol)))
        res, _ = solve(text, 2000)
        return res == 'unsat'
    return False


def _multiplier(l, r, k):
    """Interval of |multiplier| used when clearing group k."""
    a, b = {}, {}
    for side, p in ((a, l), (b, r)):
        for m, c in p.items():
            if uf_part(m) == k:
                side[tuple((g, e) for g, e in m if GENS[g].kind != 'uf')] = c
    flo, fhi = 1.0, 1.0
    ps = [a, b]
    for _ in range(50):
        worst = {}
        for p in ps:
            for g, e in sym._neg_exps(p).items():
                if e < worst.get(g, 0):
                    worst[g] = e
        posdef = set()
        for p in ps:
            for m in p:
                for g, e in m:
                    gen = GENS[g]
                    if gen.e is not None and not gen.auto:
                        if gen.kind == 'den' and e > 0 or gen.kind == 'sqrt' and e > 1:
                            posdef.add(g)
        todo = set(worst) | posdef
        if not todo:
            return flo, fhi
        gid = max(todo)
        gen = GENS[gid]
        kk = -worst.get(gid, 0)
        if gen.kind == 'sqrt' and kk % 2:
            kk += 1
        if kk:
            lo, hi = sym.gen_interval(gid)
            if lo <= 0:
                if hi >= 0:
                    return None
                lo, hi = -hi, -lo
            flo *= lo ** kk
            fhi *= hi ** kk
            ps = [sym.p_mul(p, {((gid, kk),): 1}) for p in ps]
        if gen.e is not None and not gen.auto:
            ps = [sym.p_subst_pos(p, gid, gen.e, gen.kind == 'sqrt') for p in ps]
    return None


# numeric evaluation of conditions ---------------------------------------------

def cond_num(t, env, margin=1e-9):
    k = t[0]
    if k == 'const':
        return t[1]
    if k == 'cmp':
        v = evalf(t[2], env)
        op = t[1]
        if op == '<':
            return v < -margin
        if op == '<=':
            return v <= 0
        if op == '>':
            return v > margin
        if op == '>=':
            return v >= 0
        if op == '==':
            return abs(v) < 1e-9
        return abs(v) > margin
    if k == 'and':
        return all(cond_num(x, env, margin) for x in t[1:])
    if k == 'or':
        return any(cond_num(x, env, margin) for x in t[1:])
    raise SymError(k)


def sample_env(inputs, rng):
    env = {}
    for g in inputs:
        lo = -2.0 if g.lo is None and g.hi is None else (
            float(g.hi) - 4 if g.lo is None else float(g.lo))
        hi = lo + 4 if g.hi is None else float(g.hi)
        if g.kind == 'int':
            env[g.name] = float(rng.randint(int(lo), int(hi)))
        else:
            # short decimals keep the pinned queries small
            v = lo + (hi - lo) * rng.random()
            q = round(v, 3)
            if q < lo or q > hi:
                q = v
            env[g.name] = q
    return env


def sample_points(ctx, rng, want=3, tries=400):
    """Concrete inputs satisfying the path condition."""
    conds = ctx.conds()
    out = []
    for e in ctx.witnesses():
        if ctx._fits(e, conds):
            out.append({g.name: e[g.name] for g in ctx.inputs})
        if len(out) >= want:
            return out
    for k in range(tries):
        env = sample_env(ctx.inputs, rng) if not out or k % 2 else ctx._mutate(rng.choice(out))
        vals = dict(env)
        try:
            if all(cond_num(c.t, env) for c in conds):
                out.append(vals)
                if len(out) >= want:
                    return out
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            pass
    if len(out) < want:
        # one random dimension free at a time, then the solver's own choice
        for k in range(3):
            pins = []
            if k < 2 and ctx.inputs:
                env = sample_env(ctx.inputs, rng)
                some = list(ctx.inputs)
                rng.shuffle(some)
                for g in some[:len(some) // (k + 2)]:
                    pins.append(Sym({((g.id, 1),): 1}) == Fraction(str(env[g.name])))
            pins = [p for p in pins if isinstance(p, SymBool)]
            r, m = check(conds + pins, 4000, model=True)
            if r == 'sat':
                vals = {}
                for g in ctx.inputs:
                    v = m.get(g.name)
                    if v is None:
                        v = sample_env([g], rng)[g.name]
                    vals[g.name] = float(v) if Fraction(v).denominator > 10**6 else Fraction(v)
                    vals[g.name] = float(vals[g.name])
                out.append(vals)
                if len(out) >= want:
                    break
    return out
