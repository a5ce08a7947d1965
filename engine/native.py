"""Run harnesses on the real code with the real libraries (replay/validation).

With a file argument: replay that counterexample, exit 1 if it still fails.
Otherwise: a JSON list of jobs on stdin, results on stdout.
"""

import importlib
import io
import json
import math
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('NUMBA_DISABLE_JIT', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
import core
import loader

TOL = 2e-7


def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def run_job(j):
    mod = importlib.import_module(j['check'])
    h = next(h for h in mod.HARNESSES if h['name'] == j['harness'])
    api = core.NatApi(j['values'], j.get('tier', 'quick'), loader.NativeLoader)
    out = {'failed': [], 'lhs': {}}
    cwd = os.getcwd()
    so = sys.stdout
    sys.stdout = io.StringIO()
    try:
        h['fn'](api, **h.get('params', {}))
    except core.AssumeFailed:
        out['assume_failed'] = True
        return out
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        f = [x for x in tb if x.filename.startswith(loader.REPO)]
        where = '%s:%d' % (os.path.relpath(f[-1].filename, loader.REPO), f[-1].lineno) if f else \
            '%s:%d' % (tb[-1].filename, tb[-1].lineno)
        out['failed'].append(['raises', '%s: %s (%s)' % (type(e).__name__, str(e)[:200], where)])
        return out
    finally:
        sys.stdout = so
        os.chdir(cwd)
    for kind, name, l, r, tol in api.obls:
        if kind == 'cond':
            if not l:
                out['failed'].append([name, 'condition is false'])
            continue
        a, b = num(l), num(r)
        if a is None or b is None:
            if not (isinstance(l, str) and isinstance(r, str) and l == r):
                out['failed'].append([name, 'not numbers: %.80r vs %.80r' % (l, r)])
            continue
        out['lhs'][name] = a
        if not abs(a - b) <= TOL * (1 + abs(a) + abs(b)):
            out['failed'].append([name, 'got %.12g, required %.12g' % (a, b)])
    return out


def main():
    if len(sys.argv) > 1:
        j = json.load(open(sys.argv[1]))
        r = run_job(j)
        for n, m in r['failed']:
            print('FAILED %s: %s' % (n, m))
        sys.exit(1 if r['failed'] else 0)
    jobs = json.load(sys.stdin)
    real = sys.stdout
    out = []
    for j in jobs:
        out.append(run_job(j))
    real.write('@@RESULT ' + json.dumps(out) + '\n')
    real.flush()


if __name__ == '__main__':
    main()
