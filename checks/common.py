"""Helpers shared by the harnesses (work symbolically and natively)."""

import numpy as np


def traceless(api, name, n, lo=-2, hi=2):
    """n symmetric traceless 3x3 tensors with free components."""
    out = []
    for i in range(n):
        v = {k: api.real('%s%d_%s' % (name, i, k), lo, hi) for k in ('xx', 'yy', 'xy', 'xz', 'yz')}
        out.append([[v['xx'], v['xy'], v['xz']],
                    [v['xy'], v['yy'], v['yz']],
                    [v['xz'], v['yz'], -v['xx'] - v['yy']]])
    return out


def vec3(api, name, lo=-2, hi=2):
    return [api.real('%s_%s' % (name, k), lo, hi) for k in 'xyz']


def vecs(api, name, n, lo=-2, hi=2):
    return [vec3(api, '%s%d' % (name, i), lo, hi) for i in range(n)]


def empty3(api):
    return api.arr([]).reshape(0, 3) if api.symbolic else np.empty([0, 3])


def posdata(api, sizes, positions, dsizes=(), dpos=(), ddx=(), rotations=None):
    """The position data tuple the package passes around."""
    A = api.arr
    n, m = len(sizes), len(dsizes)
    sp = A(positions) if n else empty3(api)
    if rotations is None:
        rot = [[[p[0] + s, p[1], p[2]], [p[0], p[1], p[2] + s]] for p, s in zip(positions, sizes)]
    else:
        rot = rotations
    rot = A(rot) if n else np.empty([0, 2, 3])
    return (A(list(sizes)) if n else np.array([]), sp, rot,
            A(list(dsizes)) if m else np.array([]),
            A(dpos) if m else empty3(api), A(ddx) if m else empty3(api))


def dot(a, b):
    t = 0
    for x, y in zip(a, b):
        t = t + x * y
    return t


def ddot(A, B):
    t = 0
    for i in range(3):
        for j in range(3):
            t = t + A[i][j] * B[i][j]
    return t


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def matvec(A, x):
    return [dot(row, x) for row in A]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def scale(k, a):
    return [k * x for x in a]


def norm(api, a):
    return api.sqrt(dot(a, a))


def lev(i, j, k):
    return (i - j) * (j - k) * (k - i) / 2 if False else {
        (0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1,
        (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}.get((i, j, k), 0)


def H(name, fn, tiers=('quick', 'thorough'), **params):
    d = {'name': name, 'fn': fn, 'params': params, 'tiers': tiers}
    for k in ('limit_s', 'max_paths'):
        if k in params:
            d[k] = params.pop(k)
    return d


# -- oracles built by symbolic differentiation ---------------------------------

_ORACLE = {}


class OracleVars:
    pass


def oracle(api, key, names, values, build):
    """build(dict name->Sym) -> object array of Sym.  Symbolically it is built
    on the harness' own variables; natively it is built on fresh variables and
    evaluated at the given numbers."""
    import sym
    if api.symbolic:
        k = ('oracle', key)
        if k not in api.cache:
            api.cache[k] = build({n: v for n, v in zip(names, values)})
        return api.cache[k]
    if key not in _ORACLE:
        v = {}
        for n in names:
            g = sym.new_gen('or_%s_%s' % (key, n), 'var')
            g.lo = None
            v[n] = sym.Sym({((g.id, 1),): 1})
        if sym.CTX is None:
            import core
            sym.CTX = core.Ctx()
        _ORACLE[key] = build(v)
    out = _ORACLE[key]
    env = {'or_%s_%s' % (key, n): float(x) for n, x in zip(names, values)}
    res = np.empty(out.shape, dtype=float)
    for i, e in np.ndenumerate(out):
        res[i] = sym.evalf(sym.lift(e).p, env)
    return res


def strain_basis():
    """Orthonormal symmetric traceless tensors B_j with E = sum e_j B_j for the
    five packed components e_j (exact surds)."""
    import sym
    s3 = sym.sqrt(sym.Sym.const(3))
    h = 1 / sym.sqrt(sym.Sym.const(2))
    p, m = (s3 + 3) / 6, (s3 - 3) / 6
    z = sym.Sym.const(0)
    return [
        [[p, z, z], [z, m, z], [z, z, -p - m]],
        [[z, h, z], [h, z, z], [z, z, z]],
        [[m, z, z], [z, p, z], [z, z, -p - m]],
        [[z, z, h], [z, z, z], [h, z, z]],
        [[z, z, z], [z, z, h], [z, h, z]],
    ]


def pack_rows(T, B):
    """(3,3,...) -> (5,...)"""
    out = []
    for b in B:
        acc = 0
        for i in range(3):
            for j in range(3):
                if b[i][j].p:
                    t = T[i, j]
                    if isinstance(t, np.ndarray):
                        f = b[i][j]
                        w = np.empty(t.shape, dtype=object)
                        for k, e in np.ndenumerate(t):
                            w[k] = e * f
                        acc = w + acc
                    else:
                        acc = t * b[i][j] + acc
        out.append(acc)
    return np.array(out, dtype=object)
