"""C06: point arithmetic and metrics against coordinate-wise definitions."""
import math
import operator
from fractions import Fraction

import numpy as np

from skcurve import Curve, CurvePoint, Point, get_metric, known_metrics
from vlib import gen

RULE = ('random points (dims 1..8, float and integer dtypes, curve points) x operators x operand kinds and sides; random '
        'pairs/triples x 13 metrics x their parameters; non-trivial: the operands have a non-zero coordinate')
ASSUMPTIONS = ['64-bit integer operations stay inside the range of the type', 'scipy 1.5 definitions of the metrics']

OPS = [('+', operator.add, lambda a, b: a + b), ('-', operator.sub, lambda a, b: a - b), ('*', operator.mul, lambda a, b: a * b),
       ('/', operator.truediv, None), ('//', operator.floordiv, None)]


def fdiv(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def fl(a, b):
    return math.floor(a / b) if isinstance(a, int) and isinstance(b, int) and abs(a) < 2 ** 50 else a // b


def coords(rng, n, kind):
    if kind == 'int':
        return [rng.choice([-9, -7, -4, -3, -2, -1, 1, 2, 3, 5, 8, 11]) for _ in range(n)]
    if kind == 'zeros':
        return [float(rng.choice([0, 0, 1, -2])) for _ in range(n)]
    if kind == 'dyadic':
        return [rng.choice([-1, 1]) * rng.randint(1, 64) / 8 for _ in range(n)]
    if kind == 'special':
        return [rng.choice([math.inf, -math.inf, math.nan, 0.0, -0.0, 1.5, -3.0, 1e300]) for _ in range(n)]
    if kind == 'large':
        return [rng.uniform(-1, 1) * 10.0 ** rng.randint(-100, 100) for _ in range(n)]
    return [rng.uniform(-50, 50) for _ in range(n)]


def mkpoint(rng, n, kind):
    """-> (point, coordinates, is integer dtype)"""
    x = coords(rng, n, kind)
    if kind == 'int':
        dt = rng.choice(['float64', 'int64', 'int32', 'int16'])
        if n > 1 and rng.random() < 0.3:
            c = Curve(np.array([x, x[::-1]]), dtype=rng.choice(['float64', 'int64']))
            return c[0], [float(v) for v in x], False
        return Point(x, dtype=dt), (x if dt.startswith('int') else [float(v) for v in x]), dt.startswith('int')
    if n > 1 and rng.random() < 0.3:
        c = Curve(np.array([x[::-1], x, x[::-1]]))
        return c[rng.choice([1, -2])], x, False
    return Point(np.array(x) if rng.random() < 0.5 else x), x, False


def same(got, want, exact):
    if math.isnan(want):
        return math.isnan(got)
    if math.isinf(want) or exact:
        return got == want
    return abs(got - want) <= 1e-14 * abs(want) + 1e-300


def arithmetic(case):
    rng = case.rng
    n = rng.choice([1, 2, 2, 3, 3, 4, 8]) if rng.random() > 0.02 else rng.randint(9, 300)
    kind = rng.choice(['int', 'int', 'int', 'dyadic', 'dyadic', 'float', 'float', 'zeros', 'zeros', 'large', 'large', 'special'])
    p, a, pint = mkpoint(rng, n, kind)
    sym, op, _ = rng.choice(OPS[:3] if kind == 'special' else OPS)
    other = rng.choice(['point', 'point', 'number', 'rnumber', 'self', 'npnumber'])
    if other == 'point':
        q, b, qint = mkpoint(rng, n, kind)
    elif other == 'self':
        q, b, qint = p, a, pint
    else:
        v = rng.choice([2, 3, -1, 7, 0.5, -2.25, 1.5, True, Fraction(-7, 4), Fraction(5)] + ([0, 0.0] if not pint else []))
        if other == 'npnumber':
            v = rng.choice([np.float64(1.5), np.int64(3), np.float32(0.5), np.int32(-2)])
            if not hasattr(v, 'dtype') or pint:
                v = 3
        q, b = v, [v if not isinstance(v, np.generic) else v.item()] * n
        qint = isinstance(b[0], int)
    x, y = (q, p) if other == 'rnumber' else (p, q)
    xs, ys = (b, a) if other == 'rnumber' else (a, b)
    if sym in ('/', '//') and pint and any(v == 0 for v in ys):
        ys = None
    how = (sym, other, a, b, type(p).__name__)
    if ys is None:
        return
    if sym in ('/', '//') and other in ('self', 'point', 'rnumber') and any(v == 0 for v in ys) and sym == '//':
        return
    if sym == '//' and any(v == 0 for v in ys) or isinstance(q, Fraction) and any(v == 0 for v in ys):
        return
    bothint = pint and qint
    want = []
    for u, v in zip(xs, ys):
        if not bothint:
            u, v = float(u), float(v)
        if sym == '+':
            w = u + v
        elif sym == '-':
            w = u - v
        elif sym == '*':
            w = u * v
        elif sym == '/':
            w = fdiv(float(u), float(v))
        else:
            w = u // v
        want.append(float(w))
    da, db = p.data.tolist(), (q.data.tolist() if isinstance(q, Point) else None)
    r = op(x, y)
    case.rec(how)
    case.check(type(r) is Point, 'result is a Point', how, type(r))
    case.check(r.data.dtype == np.float64 and len(r) == n, 'result dtype/size', how, r.dtype)
    case.check(all(same(g, w, sym != '/') for g, w in zip(r.data.tolist(), want)), 'result', how, r.data.tolist(), want)
    case.check(r is not p and r is not q and not np.shares_memory(r.data, p.data), 'a new point', how)
    case.check(repr(p.data.tolist()) == repr(da) and (db is None or repr(q.data.tolist()) == repr(db)), 'operands unchanged', how)
    # in-place forms rebind, they do not change the object
    z = p
    if sym == '+':
        z += q
    elif sym == '-':
        z -= q
    elif sym == '*':
        z *= q
    if sym in '+-*':
        case.check(z is not p and repr(p.data.tolist()) == repr(da), 'in-place operator changed the point', how)
    if any(a):
        case.sig(how)
    case.sample({'op': sym, 'a': a, 'b': b, 'other': other})


def algebra(case):
    rng = case.rng
    n = rng.choice([1, 2, 3, 4, 6])
    a, b, c = [[rng.randint(-2000, 2000) / 16 for _ in range(n)] for _ in range(3)]
    p, q, r = Point(a), Point(b), Point(c)
    k = rng.randint(-40, 40) / 4

    def eq(u, v, law):
        case.check(u.data.tolist() == v.data.tolist(), law, a, b, c, k)
    eq(p + q, q + p, 'commutative +')
    eq((p + q) + r, p + (q + r), 'associative +')
    eq(p - q, p + (-1) * q, 'difference')
    eq(k * (p + q), k * p + k * q, 'distributive')
    eq(p * k, k * p, 'scalar side')
    eq(p - p, Point([0] * n), 'p - p')
    eq((p * q), (q * p), 'commutative *')
    eq(k - p, -1 * (p - k), 'number minus point')
    eq(2 * p / 2, p, 'halving')
    dot = sum(u * v for u, v in zip(a, b))
    case.check(float(p @ q) == dot and float(q @ p) == dot, 'dot product', p @ q, dot, a, b)
    case.check(float((p + q) @ r) == float(p @ r + q @ r), 'dot is linear', a, b, c)
    nrm = math.sqrt(sum(u * u for u in a))
    case.check(abs(p.norm() - nrm) <= 1e-14 * nrm, 'norm', p.norm(), nrm, a)
    i = Point([int(x) for x in a], dtype='int64')
    case.check(abs(i.norm() - math.sqrt(sum(int(x) ** 2 for x in a))) <= 1e-12 * (1 + nrm), 'norm of an integer point', a)
    for bad in ('a', None, [1] * n, (1,) * n, {}, object()):
        for sym, op, _ in OPS:
            case.raises(TypeError, lambda: op(p, bad), 'point %s %s' % (sym, type(bad).__name__), a)
            case.raises(TypeError, lambda: op(bad, p), '%s %s point' % (type(bad).__name__, sym), a)
        case.raises(TypeError, lambda: p @ bad, 'point @ %s' % type(bad).__name__, a)
    for bad in (1, 2.5):
        case.raises(TypeError, lambda: p @ bad, 'point @ number', a)
    case.sig(a, b, c)
    case.sample({'a': a, 'b': b})


# -- metrics ----------------------------------------------------------------

def m_corr(u, v):
    n = len(u)
    mu, mv = math.fsum(u) / n, math.fsum(v) / n
    return m_cos([x - mu for x in u], [x - mv for x in v])


def m_cos(u, v):
    d = math.fsum(x * y for x, y in zip(u, v))
    return abs(1.0 - d / math.sqrt(math.fsum(x * x for x in u) * math.fsum(y * y for y in v)))


def m_js(u, v, base=None):
    su, sv = math.fsum(u), math.fsum(v)
    p, q = [x / su for x in u], [y / sv for y in v]
    m = [(x + y) / 2 for x, y in zip(p, q)]

    def kl(x, z):
        return math.fsum(a * math.log(a / b) for a, b in zip(x, z) if a > 0)
    js = kl(p, m) + kl(q, m)
    if base is not None:
        js /= math.log(base)
    return math.sqrt(max(js, 0) / 2.0)


def m_mink(u, v, p=2, w=None):
    w = w or [1.0] * len(u)
    return math.fsum(k * abs(x - y) ** p for k, x, y in zip(w, u, v)) ** (1.0 / p)


def m_wmink(u, v, p, w):
    return math.fsum((k * abs(x - y)) ** p for k, x, y in zip(w, u, v)) ** (1.0 / p)


def metrics(case):
    rng = case.rng
    n = rng.choice([2, 2, 3, 3, 4, 7]) if rng.random() > 0.02 else rng.randint(8, 60)
    kind = rng.choice(['float', 'float', 'int', 'dyadic'])
    mk = lambda: mkpoint(rng, n, kind)[:2]
    (p, u), (q, v) = mk(), mk()
    u, v = [float(x) for x in u], [float(x) for x in v]
    name = rng.choice(['euclidean', 'sqeuclidean', 'cityblock', 'chebyshev', 'minkowski', 'wminkowski', 'seuclidean', 'canberra',
                       'braycurtis', 'cosine', 'correlation', 'jensenshannon', 'mahalanobis', 'default', 'callable'])
    diff = [x - y for x, y in zip(u, v)]
    kw = {}
    if name == 'jensenshannon':
        u, v = [abs(x) + 0.1 for x in u], [abs(x) + 0.1 for x in v]
        p, q = Point(u), Point(v)
        if rng.random() < 0.6:
            kw['base'] = rng.choice([2, 2.0, 10, math.e])
        want = m_js(u, v, **kw)
    elif name in ('euclidean', 'default'):
        want = math.sqrt(math.fsum(d * d for d in diff))
    elif name == 'sqeuclidean':
        want = math.fsum(d * d for d in diff)
    elif name == 'cityblock':
        want = math.fsum(abs(d) for d in diff)
    elif name == 'chebyshev':
        want = max(abs(d) for d in diff)
    elif name == 'minkowski':
        if rng.random() < 0.8:
            kw['p'] = rng.choice([1, 1.5, 2, 3, 4])
        if rng.random() < 0.4:
            kw['w'] = [rng.uniform(0.1, 3) for _ in range(n)]
        want = m_mink(u, v, **kw)
    elif name == 'wminkowski':
        kw = {'p': rng.choice([1, 2, 3]), 'w': [rng.uniform(0.1, 3) for _ in range(n)]}
        want = m_wmink(u, v, **kw)
    elif name == 'seuclidean':
        kw['V'] = [rng.uniform(0.1, 5) for _ in range(n)]
        want = math.sqrt(math.fsum(d * d / k for d, k in zip(diff, kw['V'])))
    elif name == 'canberra':
        want = math.fsum(abs(d) / (abs(x) + abs(y)) for d, x, y in zip(diff, u, v) if x or y)
    elif name == 'braycurtis':
        den = math.fsum(abs(x + y) for x, y in zip(u, v))
        if den < 1e-3:
            return
        want = math.fsum(abs(d) for d in diff) / den
    elif name == 'cosine':
        want = m_cos(u, v)
    elif name == 'correlation':
        mu, mv = sum(u) / n, sum(v) / n
        if max(abs(x - mu) for x in u) < 1e-3 or max(abs(x - mv) for x in v) < 1e-3:
            return
        want = m_corr(u, v)
    elif name == 'mahalanobis':
        l = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
        vi = [[sum(l[i][k] * l[j][k] for k in range(n)) + (0.5 if i == j else 0) for j in range(n)] for i in range(n)]
        kw['VI'] = vi
        want = math.sqrt(max(0, math.fsum(diff[i] * vi[i][j] * diff[j] for i in range(n) for j in range(n))))
    else:
        seen = []

        def fn(x, y):
            seen.append((np.asarray(x).tolist(), np.asarray(y).tolist()))
            return 42.5
        got = p.distance(q, fn) if rng.random() < 0.5 else p.distance(q, metric=fn)
        case.check(got == 42.5, 'callable metric result', got)
        case.check([([float(x) for x in s], [float(x) for x in t]) for s, t in seen] == [(u, v)], 'callable metric arguments', seen, u, v)
        case.sig(name, u, v)
        return
    how = (name, kw, u, v)
    got = p.distance(q) if name == 'default' else p.distance(q, metric=name, **kw)
    tol = 1e-9 * (1 + abs(want)) if name not in ('cosine', 'correlation', 'jensenshannon') else 1e-7
    case.check(abs(float(got) - want) <= tol, 'distance', float(got), want, how)
    if name != 'default':
        g2 = get_metric(name, **kw)(p.data, q.data)
        case.check(float(g2) == float(got), 'get_metric agrees with distance', g2, got, how)
        if name in ('euclidean', 'cityblock', 'chebyshev'):
            (r, w) = mk()
            r = Point([float(x) for x in w])
            d = lambda a, b: float(a.distance(b, name))
            s = 1e-12 * (1 + d(p, q) + d(p, r) + d(q, r))
            case.check(d(p, q) == d(q, p) and d(p, q) >= 0, 'symmetric and non-negative', how)
            case.check(d(p, p) == 0 and d(p, Point(p)) == 0, 'zero on equal points', how)
            case.check(d(p, r) <= d(p, q) + d(q, r) + s, 'triangle inequality', how)
            k = Point([1.0] * n)
            case.check(abs(d(p + k, q + k) - d(p, q)) <= 1e-10 * (1 + d(p, q)), 'translation invariance', how)
    case.ev('metric ' + name)
    case.sig(how)
    case.sample({'metric': name, 'params': kw, 'value': want})


NARROW = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-2 ** 15, 2 ** 15 - 1), 'uint16': (0, 2 ** 16 - 1),
          'int32': (-2 ** 31, 2 ** 31 - 1), 'uint32': (0, 2 ** 32 - 1), 'int64': (-2 ** 30, 2 ** 30), 'uint64': (0, 2 ** 26)}


def narrow(case):
    """Points of small and unsigned integer types over the whole range of the type."""
    rng = case.rng
    n = rng.choice([1, 2, 2, 3, 3, 5])

    def mk():
        dt = rng.choice(list(NARROW) + ['float64'])
        lo, hi = NARROW.get(dt, (-500, 500))
        x = [rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(max(lo, -9), 9)]) for _ in range(n)]
        return Point(x, dtype=dt), x, dt
    (p, a, da), (q, b, db) = mk(), mk()
    how = (da, a, db, b)
    case.rec(how)

    def eq(got, want, law):
        want = [float(x) for x in want]
        ok = type(got) is Point and got.data.dtype == np.float64 and len(got) == n
        case.check(ok and all(abs(g - w) <= 1e-15 * abs(w) for g, w in zip(got.data.tolist(), want)), law, how, got, want)
    num = rng.choice([2, -3, 7, 0.5, -1, 1000, 300])
    eq(p + q, [x + y for x, y in zip(a, b)], 'sum')
    eq(p - q, [x - y for x, y in zip(a, b)], 'difference')
    if all(abs(x * y) < 2 ** 62 for x, y in zip(a, b)):
        eq(p * q, [x * y for x, y in zip(a, b)], 'product')
    eq(p + num, [x + num for x in a], 'sum with a number')
    eq(num - p, [num - x for x in a], 'number minus point')
    eq(p * num, [x * num for x in a], 'product with a number')
    eq(p / num, [x / num for x in a], 'quotient by a number')
    if all(b):
        eq(p / q, [x / y for x, y in zip(a, b)], 'quotient')
        if 'uint64' not in (da, db):
            eq(p // q, [x // y for x, y in zip(a, b)], 'floor quotient')
    case.check(p.data.tolist() == a and str(p.dtype) == da, 'operand unchanged', how)
    if sum(x * x for x in a) < 2 ** 62 and sum(x * x for x in b) < 2 ** 62:
        close = lambda g, w: abs(float(g) - w) <= 1e-12 * (abs(w) + (1 if 'float64' in (da, db) else 0)) + 1e-9
        # int64 with uint64 is float64 arithmetic: terms above 2**53 round
        noise = 2e-15 * sum(abs(x * y) for x, y in zip(a, b))
        w = sum(x * y for x, y in zip(a, b))
        case.check(close(p @ q, w) or abs(float(p @ q) - w) <= noise, 'dot product', how, p @ q)
        case.check(close(p.norm(), math.sqrt(sum(x * x for x in a))), 'norm', how, p.norm())
        diff = [x - y for x, y in zip(a, b)]
        want = {'euclidean': math.sqrt(sum(d * d for d in diff)), 'cityblock': sum(map(abs, diff)), 'chebyshev': max(map(abs, diff)),
                'sqeuclidean': float(sum(d * d for d in diff)), 'minkowski': sum(abs(d) ** 3 for d in diff) ** (1 / 3)}
        for name, w in want.items():
            for x, y in ((p, q), (q, p)):
                g = x.distance(y, name, p=3) if name == 'minkowski' else x.distance(y, name) if name != 'euclidean' or rng.random() < 0.5 else x.distance(y)
                case.check(close(g, w), name + ' distance', how, g, w)
        case.check(float(p.distance(p)) == 0.0 and float(p.distance(Point(p))) == 0.0, 'zero on equal points', how)
        case.ev('metrics of narrow types')
    case.ev('types %s' % ('mixed' if da != db else 'same'))
    case.sig(how)
    case.sample({'dtypes': (da, db), 'a': a, 'b': b})


def names(case):
    rng = case.rng
    lst = known_metrics()
    need = {'braycurtis', 'canberra', 'chebyshev', 'cityblock', 'correlation', 'cosine', 'euclidean', 'jensenshannon',
            'mahalanobis', 'minkowski', 'seuclidean', 'sqeuclidean', 'wminkowski'}
    case.check(need <= set(lst), 'documented metrics are listed', lst)
    for nme in lst:
        case.check(callable(get_metric(nme)), 'listed metric resolves', nme)
    lst.append('zzz')
    case.check('zzz' not in known_metrics(), 'the list of metrics is a copy')
    p = Point(coords(rng, 3, 'float'))
    bad = rng.choice(['zzz', 'Euclidean', '', 'euclid', 'l2', 'hamming2', 'eucledean' + str(rng.randint(0, 9))])
    case.raises(NameError, lambda: p.distance(p, bad), 'unknown metric', bad)
    case.raises(NameError, lambda: get_metric(bad), 'unknown metric', bad)
    junk = rng.choice([None, 5, 1.5, ['euclidean']])
    case.raises(TypeError, lambda: p.distance(p, junk), 'metric of a wrong type', junk)
    case.sig(bad, junk, case.index)


FAMILIES = [
    ('arithmetic', 20000, 300000, arithmetic),
    ('algebra', 3000, 40000, algebra),
    ('metrics', 12000, 150000, metrics),
    ('narrow', 3000, 40000, narrow),
    ('names', 300, 1000, names),
]
