"""Command line: run.py <property id>.  Decides one property.

Exit 0: shown for every value within the bounds.  Exit 1: VIOLATION (the
counterexample was replayed on the real code).  Exit 2: no verdict.
"""

import importlib
import json
import multiprocessing
import multiprocessing.pool
import os
import random
import re
import subprocess
import sys
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core
from core import (STATS, Api, Budget, Ctx, PathEnd, Stats, VERIF, as_poly,
                  bounded_residual, check, prove_identities, sample_points)
import sym
from sym import GENS, Sym, SymBool, SymError, evalf, lift, p_add
import loader as loadermod

OUT = os.path.join(VERIF, 'out')
REFUTE = 1e-6


def native(jobs, timeout=600):
    """Run harness instances on the real code in a separate process."""
    if not jobs:
        return []
    env = dict(os.environ)
    env.update(NUMBA_DISABLE_JIT='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    p = subprocess.run([sys.executable, os.path.join(HERE, 'native.py')],
                       input=json.dumps(jobs), capture_output=True, text=True,
                       timeout=timeout, env=env)
    if p.returncode != 0:
        raise RuntimeError('native run failed: ' + p.stderr[-2000:])
    line = [l for l in p.stdout.splitlines() if l.startswith('@@RESULT ')]
    return json.loads(line[-1][len('@@RESULT '):])


# -- function coverage through sys.monitoring ---------------------------------

def start_trace(found):
    REPO_ = loadermod.REPO
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, 'verif')
    except ValueError:
        return

    def cb(code, off):
        f = code.co_filename
        if REPO_ and f.startswith(REPO_ + '/') and not code.co_name.startswith('<'):
            found.add(f[len(REPO_) + 1:] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, cb)
    mon.set_events(4, mon.events.PY_START)


# -- one harness ----------------------------------------------------------------

class Refuted(Exception):
    pass


def explore(hname, fn, params, tier, seed, limit_s, max_paths):
    """Run all paths of one harness and decide its obligations."""
    st = Stats()
    core.STATS = st
    import builtins
    core.STATS = st
    sym.reset()
    sym.ANGLES.clear()
    sym.TRIG_PAIR.clear()
    import npshim
    npshim.ABSTRACT.clear()
    npshim.INTERP_HOOK[0] = None
    cache = {}
    rng = random.Random(seed * 1000003 + hash_str(hname))
    stack = [[]]
    t0 = time.time()
    res = {'harness': hname, 'candidates': [], 'inconclusive': [], 'validate': [],
           'samples': [], 'assumptions': []}
    found = set()
    start_trace(found)
    nobl = 0
    completed = 0
    while stack:
        prefix = stack.pop()
        if time.time() - t0 > limit_s:
            res['inconclusive'].append('time limit with %d paths open' % (len(stack) + 1))
            break
        if st.paths >= max_paths:
            res['inconclusive'].append('path limit with %d paths open' % (len(stack) + 1))
            break
        ctx = Ctx(prefix)
        sym.CTX = ctx
        api = Api(ctx, loadermod.SymLoader, tier, cache)
        st.paths += 1
        raised = None
        try:
            fn(api, **params)
        except PathEnd:
            stack.extend(ctx.pending)
            continue
        except SymError as e:
            res['inconclusive'].append('%s: %s' % (type(e).__name__, e) + tb_tail())
            stack.extend(ctx.pending)
            if len(res['inconclusive']) > 3:
                break
            continue
        except (Exception, SystemExit) as e:
            raised = '%s: %s' % (type(e).__name__, str(e)[:300]) + tb_tail()
        stack.extend(ctx.pending)
        if ctx.engine_errors:
            res['inconclusive'].append('symbolic layer: ' + ctx.engine_errors[0] + (' -> ' + raised if raised else ''))
            continue
        completed += 1
        if raised:
            pts = sample_points(ctx, rng, 3)
            res['candidates'].append({'obl': 'raises ' + raised.split(' @ ')[0], 'points': pts,
                                      'kind': 'raise', 'detail': raised})
            if len(res['candidates']) > 6:
                break
            continue
        nobl += len(ctx.obls)
        before = len(res['candidates'])
        decide(ctx, res, rng, st, t0, limit_s)
        # points for validating the encoding against the real code
        quota = 3 if completed <= 3 else 1
        if completed <= params_validate(fn, tier):
            for vals in sample_points(ctx, rng, quota):
                env = dict(vals)
                lhs = {}
                for o in ctx.obls:
                    if o[0] == 'eq' and o[2] is not None:
                        try:
                            lhs[o[1]] = evalf(as_poly(o[2]), env)
                        except (KeyError, TypeError, ZeroDivisionError, OverflowError, ValueError):
                            pass
                res['validate'].append({'values': vals, 'lhs': lhs})
                st.witnesses += 1
                if len(res['samples']) < 3:
                    res['samples'].append({'path': completed, 'inputs': {
                        k: v for k, v in list(vals.items())[:12]},
                        'obligations': [o[1] for o in ctx.obls[:4]]})
        if len(res['candidates']) > 12:
            break
    st.obligations = nobl
    st.functions = found
    res['stats'] = {k: (sorted(v) if isinstance(v, set) else v) for k, v in vars(st).items()}
    res['completed'] = completed
    res['wall'] = time.time() - t0
    if not completed and not res['inconclusive']:
        res['inconclusive'].append('vacuous: no path of the harness is feasible')
    elif not st.witnesses and not res['candidates'] and not res['inconclusive']:
        res['inconclusive'].append('vacuous: no input satisfying the assumptions was found')
    elif not nobl and not res['candidates'] and not res['inconclusive']:
        res['inconclusive'].append('vacuous: no obligation was produced')
    return res


def params_validate(fn, tier):
    n = getattr(fn, 'validate_paths', None)
    if n is not None:
        return n
    return 4 if tier == 'quick' else 12


def hash_str(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000000007
    return h


def tb_tail():
    tb = traceback.extract_tb(sys.exc_info()[2])
    if not tb:
        return ''
    f = [x for x in tb if x.filename.startswith(loadermod.REPO)]
    x = (f or tb)[-1]
    return ' @ %s:%d (last %s:%d)' % (os.path.relpath(x.filename, loadermod.REPO) if f else x.filename,
                                      x.lineno, os.path.basename(tb[-1].filename), tb[-1].lineno)


def decide(ctx, res, rng, st, t0, limit_s):
    eqs, pairs = [], []
    pts = None
    for o in ctx.obls:
        kind, name, l, r, tol = o
        if kind == 'eq':
            try:
                lp, rp = as_poly(l), as_poly(r)
            except (TypeError, SymError):
                ok = (type(l) is type(r) and isinstance(l, str) and l == r)
                if not ok:
                    if pts is None:
                        pts = sample_points(ctx, rng, 4)
                    res['candidates'].append({'obl': name, 'points': pts, 'kind': 'eq',
                                              'detail': 'not a number: %.60r vs %.60r' % (l, r)})
                continue
            eqs.append((name, lp, rp, tol))
            pairs.append((lp, rp))
        else:
            if isinstance(l, SymBool):
                neg = sym.Not(l)
                if ctx.lin_infeasible(neg):
                    continue
                v = ctx.witness(neg)
                if v is not None:
                    res['candidates'].append({'obl': name, 'points': [v], 'kind': 'cond',
                                              'detail': 'condition refuted'})
                    if len(res['candidates']) > 12:
                        return
                    continue
                r_, m = check(ctx.conds() + [neg], 20000, model=True)
                st.nonlinear += 1
                if r_ == 'unsat':
                    continue
                cand = []
                if r_ == 'sat':
                    cand.append(model_values(ctx, m, rng))
                if pts is None:
                    pts = sample_points(ctx, rng, 40)
                for v in pts:
                    try:
                        if core.cond_num(neg.t, dict(v)):
                            cand.append(v)
                    except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                        pass
                    if len(cand) > 4:
                        break
                if r_ == 'sat' or cand:
                    res['candidates'].append({'obl': name, 'points': cand, 'kind': 'cond',
                                              'detail': 'condition refuted'})
                else:
                    res['inconclusive'].append('%s: solver gave unknown' % name)
            elif not l:
                if pts is None:
                    pts = sample_points(ctx, rng, 4)
                res['candidates'].append({'obl': name, 'points': pts, 'kind': 'cond',
                                          'detail': 'condition false on this path'})
    bad = prove_identities(pairs)
    st.identities += len(pairs) - len(bad)
    for i in bad:
        name, l, r, tol = eqs[i]
        if time.time() - t0 > limit_s:
            res['inconclusive'].append('%s: time limit' % name)
            return
        # counterexample first: a concrete point where the two sides differ
        if pts is None or len(pts) < 8:
            pts = sample_points(ctx, rng, 12)
        hit = []
        for v in pts:
            try:
                env = dict(v)
                a, b = evalf(l, env), evalf(r, env)
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                continue
            if abs(a - b) > REFUTE * (1 + abs(a) + abs(b)):
                hit.append((v, a, b))
        if hit:
            pins_ok = False
            d = Sym(p_add(l, r, -1))
            for v, a, b in hit[:2]:
                pins = [Sym({((g.id, 1),): 1}) == Fraction(repr(float(v[g.name])))
                        for g in ctx.inputs]
                pins = [p for p in pins if isinstance(p, SymBool)]
                half = Fraction(abs(a - b)) / 2
                r_, m = check(ctx.conds() + pins + [sym.Or(d > half, d < -half)], 8000)
                if r_ == 'sat':
                    pins_ok = True
                    break
            res['candidates'].append({
                'obl': name, 'points': [h[0] for h in hit[:5]], 'kind': 'eq',
                'detail': 'lhs=%.9g rhs=%.9g%s' % (hit[0][1], hit[0][2],
                                                   ' (solver model)' if pins_ok else '')})
            if len(res['candidates']) > 12:
                return
            continue
        if bounded_residual(l, r, tol):
            st.by_bounds += 1
            continue
        d = Sym(p_add(l, r, -1))
        tq = Fraction(tol)
        r_, m = check(ctx.conds() + [sym.Or(d > tq, d < -tq)], 30000, model=True)
        st.nonlinear += 1
        if r_ == 'unsat':
            continue
        if r_ == 'sat':
            res['candidates'].append({'obl': name, 'points': [model_values(ctx, m, rng)],
                                      'kind': 'eq', 'detail': 'solver model'})
        else:
            res['inconclusive'].append('%s: solver gave unknown' % name)


def model_values(ctx, m, rng):
    vals = {}
    for g in ctx.inputs:
        v = m.get(g.name)
        if v is None:
            v = core.sample_env([g], rng)[g.name]
        vals[g.name] = float(v)
    return vals


# -- a whole check -----------------------------------------------------------------

def worker(args):
    cid, idx, tier, seed = args
    try:
        mod = importlib.import_module(cid)
        h = harness_list(mod, tier)[idx]
        return explore(h['name'], h['fn'], h.get('params', {}), tier, seed,
                       h.get('limit_s', 420 if tier == 'quick' else 800),
                       h.get('max_paths', 3000))
    except Exception:
        return {'harness': '#%d' % idx, 'candidates': [], 'validate': [], 'samples': [],
                'inconclusive': ['engine error: ' + traceback.format_exc()[-1500:]],
                'stats': {}, 'completed': 0, 'wall': 0}


def harness_list(mod, tier):
    return [h for h in mod.HARNESSES if tier in h.get('tiers', ('quick', 'thorough'))]


def known_findings(cid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == cid]


def main():
    cid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t0 = time.time()
    mod = importlib.import_module(cid)
    hs = harness_list(mod, tier)
    idxs = [i for i, h in enumerate(hs) if not only or re.search(only, h['name'])]
    jobs = [(cid, i, tier, seed) for i in idxs]
    n = int(os.environ.get('VERIF_JOBS', '6'))
    if n == 1 or len(jobs) == 1:
        results = [worker(j) for j in jobs]
    else:
        with multiprocessing.get_context('fork').Pool(min(n, len(jobs)), maxtasksperchild=1) as pool:
            results = pool.map(worker, jobs, chunksize=1)
    byname = {h['name']: h for h in hs}

    # native validation and replay, in one subprocess each
    vjobs, vref = [], []
    for r in results:
        for v in r['validate']:
            vjobs.append({'check': cid, 'harness': r['harness'], 'tier': tier, 'values': v['values']})
            vref.append((r, v))
    for r in results:
        for c in r['candidates']:
            for p in c['points']:
                vjobs.append({'check': cid, 'harness': r['harness'], 'tier': tier, 'values': p})
                vref.append((r, c))
    errors = []
    for r in results:
        for m in r['inconclusive']:
            errors.append('%s: %s' % (r['harness'], m))
    try:
        chunks = max(1, min(6, len(vjobs) // 4 + 1))
        parts = [vjobs[i::chunks] for i in range(chunks)]
        with multiprocessing.pool.ThreadPool(chunks) as tp:
            outs = tp.map(native, parts)
        nres = [None] * len(vjobs)
        for i in range(chunks):
            nres[i::chunks] = outs[i]
    except Exception as e:
        nres = [None] * len(vjobs)
        errors.append(str(e)[:1500])
    validated = 0
    violations = []
    mism = []
    for job, (r, v), nr in zip(vjobs, vref, nres):
        if nr is None or nr.get('assume_failed'):
            continue
        fails = nr['failed']
        if 'lhs' in v:
            validated += 1
            for k, x in v['lhs'].items():
                y = nr['lhs'].get(k)
                if y is None:
                    continue
                if not abs(x - y) <= 1e-5 * (1 + abs(x) + abs(y)):
                    mism.append('%s %s: encoding %.9g, real code %.9g' % (r['harness'], k, x, y))
        if fails:
            violations.append((r, v, job, fails, 'lhs' not in v))
    # candidates which never reproduced
    reproduced = set(id(v) for r, v, job, f, c in violations if c)
    kf = known_findings(cid)
    lines, viol_out = [], []
    known_hit = {}
    seen = set()
    os.makedirs(os.path.join(OUT, cid), exist_ok=True)
    nv = 0
    for r, v, job, fails, iscand in violations:
        for fname, msg in fails:
            k = match_known(kf, r['harness'], fname)
            if k is not None:
                known_hit[k['id']] = k
                continue
            key = (r['harness'], fname)
            if key in seen:
                continue
            seen.add(key)
            nv += 1
            if nv <= 5:
                path = os.path.join(OUT, cid, 'replay_%d.json' % nv)
                with open(path, 'w') as f:
                    json.dump({'property': cid, 'check': cid, 'harness': r['harness'], 'tier': tier,
                               'values': job['values'], 'failed': fname, 'message': msg,
                               'replay_cmd': '%s %s %s' % (sys.executable, os.path.join(HERE, 'native.py'), path)},
                              f, indent=1)
                lines.append('VIOLATION property=%s replay=%s' % (cid, path))
                lines.append('  harness=%s obligation=%s: %s' % (r['harness'], fname, msg))
                viol_out.append({'harness': r['harness'], 'obligation': fname, 'message': msg,
                                 'values': job['values']})
    for r in results:
        for c in r['candidates']:
            if id(c) not in reproduced:
                errors.append('%s: %s refuted symbolically (%s) but not reproduced on the real code'
                              % (r['harness'], c['obl'], c['detail']))
    errors.extend('encoding mismatch: ' + m for m in mism[:10])
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (cid, k['what']))
    wall = time.time() - t0
    write_evidence(cid, mod, tier, seed, results, validated, wall, viol_out, known_hit, errors)
    for l in lines:
        print(l)
    if os.environ.get('VERIF_VERBOSE'):
        for r in results:
            s = r['stats']
            print('  %-40s paths=%s obl=%s ident=%s bnd=%s nl=%s q=%s solver=%.1fs wall=%.1fs' % (
                r['harness'], s.get('paths'), s.get('obligations'), s.get('identities'), s.get('by_bounds'),
                s.get('nonlinear'), s.get('queries'), s.get('solver_s', 0), r['wall']))
            for c in r['candidates'][:4]:
                print('     cand', c['obl'], c['detail'], len(c['points']))
    if lines:
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            print('NO-VERDICT %s: %s' % (cid, e))
        sys.exit(2)
    print('HELD property=%s obligations=%d paths=%d queries=%d validated=%d wall=%.1fs' % (
        cid, sum(r['stats'].get('obligations', 0) for r in results),
        sum(r['stats'].get('paths', 0) for r in results),
        sum(r['stats'].get('queries', 0) for r in results), validated, wall))
    sys.exit(0)


def match_known(kf, harness, obl):
    for k in kf:
        if re.fullmatch(k['harness'], harness) and re.fullmatch(k['obligation'], obl):
            return k
    return None


def write_evidence(cid, mod, tier, seed, results, validated, wall, viol, known, errors):
    def tot(k):
        return sum(r['stats'].get(k, 0) or 0 for r in results)
    funcs = sorted(set(f for r in results for f in r['stats'].get('functions', [])))
    cov = {
        'states': tot('paths'),
        'transitions': tot('branches') + tot('interval_pruned'),
        'traces_validated_against_impl': validated,
        'samples': [dict(s, harness=r['harness']) for r in results for s in r['samples']][:8],
        'obligations': tot('obligations'),
        'decided_as_identities': tot('identities'),
        'decided_by_bounded_residual': tot('by_bounds'),
        'decided_by_full_query': tot('nonlinear'),
        'solver_queries': tot('queries'),
        'solver_unsat': tot('unsat'), 'solver_sat': tot('sat'), 'solver_unknown': tot('unknown'),
        'solver_seconds': round(tot('solver_s'), 2),
        'functions_encoded': funcs,
        'bounds': getattr(mod, 'BOUNDS', ''),
        'outside_bounds': getattr(mod, 'OUTSIDE', ''),
        'harnesses': [{'name': r['harness'], 'paths': r['stats'].get('paths'),
                       'obligations': r['stats'].get('obligations'),
                       'queries': r['stats'].get('queries'),
                       'solver_s': round(r['stats'].get('solver_s', 0) or 0, 2),
                       'wall_s': round(r['wall'], 2)} for r in results],
        'known_findings': [k['what'] for k in known.values()],
        'no_verdict': errors[:20],
    }
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'wall_s': round(wall, 2),
          'assumptions': COMMON + list(getattr(mod, 'ASSUMPTIONS', [])),
          'violations': viol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


COMMON = [
    'floating-point numbers are treated as reals; a float constant stands for the simplest decimal or small fraction rounding to it',
    'numba-compiled functions are executed from their Python source',
    'divisions in the code are assumed defined (non-zero divisors); square roots have non-negative arguments',
    'symbolic stand-ins for numpy/scipy/math primitives (engine/npshim.py); validated against the real libraries at sampled points of every run',
]

if __name__ == '__main__':
    main()
