"""C05: equality, membership, index and count against list semantics."""
import math

import numpy as np

from skcurve import Curve, Point, Segment, allequal, isequal
from vlib import gen
from vlib.core import Skip

RULE = ('pairs of points/segments/curves built equal, perturbed well inside or well outside the tolerance, of other dtype, '
        'dimension or size; curves with repeated points and all kinds of start/end bounds; non-trivial: operands have coordinates')
ASSUMPTIONS = ['perturbations stay a factor two away from the isclose tolerance, where its asymmetry would matter']


def eqv(a, b, exact):
    """Coordinate equality under the documented rule; Skip inside the grey zone."""
    if exact:
        return a == b
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    d = abs(a - b)
    if d <= 0.5 * (1e-8 + 1e-5 * min(abs(a), abs(b))):
        return True
    if d >= 2 * (1e-8 + 1e-5 * max(abs(a), abs(b))):
        return False
    raise Skip()


def rows_eq(r, s, exact):
    return len(r) == len(s) and all([eqv(float(a) if not exact else a, float(b) if not exact else b, exact) for a, b in zip(r, s)])


def isint(dt):
    return np.issubdtype(np.dtype(dt), np.integer)


def perturb(rng, rows, dt, p=0.15):
    """A copy of rows with some coordinates changed by less or more than the tolerance."""
    out = []
    for r in rows:
        r = list(r)
        if rng.random() < p:
            j = rng.randrange(len(r))
            if isint(dt):
                r[j] = r[j] + rng.choice([1, -1]) if 0 < r[j] < 100 else r[j] + (1 if r[j] <= 0 else -1)
            else:
                tol = 1e-8 + 1e-5 * abs(r[j])
                r[j] = r[j] + rng.choice([0.2, -0.2, 0.1, 5.0, -5.0, 100.0, 1e6]) * tol
        out.append(tuple(r))
    return out


def base_rows(rng, m, n, dt):
    kind = rng.choice(['lattice', 'dup', 'dup', 'bigint', 'walk'] + ([] if isint(dt) else ['dyadic', 'float', 'tiny', 'special']))
    if kind == 'tiny':
        return [tuple(rng.uniform(-1, 1) * 10.0 ** rng.randint(-9, -5) for _ in range(n)) for _ in range(m)]
    if kind == 'special':
        return [tuple(rng.choice([math.nan, math.inf, -math.inf, 0.0, -0.0, 1.0, 1e300, 1e-300]) for _ in range(n)) for _ in range(m)]
    if kind == 'bigint' and isint(dt) and dt in ('int64', 'int32'):
        b = rng.randint(10 ** 5, 10 ** 8)
        return [tuple(b + rng.randint(-3, 3) for _ in range(n)) for _ in range(m)]
    if dt == 'int64' and rng.random() < 0.15:
        kind = 'hugeint'
    return gen.rows(rng, m, n, kind, dt)


DTS = ['float64', 'float64', 'float64', 'int64', 'int64', 'int32', 'uint8', 'int16']


def arr(rows, n, dt):
    return np.array(rows, dtype=dt).reshape(len(rows), n)


def second(rng, rows, n, dt):
    """A second operand related to rows: (rows, n, dtype)."""
    k = rng.choice(['same', 'same', 'perturb', 'perturb', 'dtype', 'dim', 'size', 'perm', 'other', 'one'])
    dt2 = dt
    r2 = list(rows)
    if k == 'perturb':
        r2 = perturb(rng, rows, dt)
    elif k == 'dtype':
        dt2 = rng.choice(['float64', 'int64'])
        if isint(dt2) and not all(math.isfinite(x) and float(x).is_integer() and abs(x) < 1e15 for r in rows for x in r):
            dt2 = dt
        r2 = [tuple(int(x) if isint(dt2) else float(x) for x in r) for r in rows]
        if dt2 == 'float64' and rng.random() < 0.5:
            r2 = perturb(rng, r2, dt2)
    elif k == 'dim':
        n2 = n + 1
        return [tuple(r) + (0,) for r in rows], n2, dt2
    elif k == 'size':
        r2 = rows[:-1] if rng.random() < 0.5 else rows + rows[-1:]
    elif k == 'perm':
        r2 = rows[::-1] if rng.random() < 0.5 else rng.sample(rows, len(rows))
    elif k == 'other':
        r2 = base_rows(rng, len(rows), n, dt)
    elif k == 'one' and rows:
        # everything equal except one coordinate
        i, j = rng.randrange(len(rows)), rng.randrange(n)
        r = list(rows[i])
        r[j] = r[j] + 1 if isint(dt) and r[j] < 100 else (r[j] - 1 if isint(dt) else r[j] * 1.5 + 0.25)
        r2 = rows[:i] + [tuple(r)] + rows[i + 1:]
    return r2, n, dt2


def equality(case):
    rng = case.rng
    dt, n = rng.choice(DTS), gen.ndim(rng, 2, 5)
    m = rng.choice([0, 1, 2, 3, 5, rng.randint(1, 20)])
    rows = base_rows(rng, m, n, dt)
    r2, n2, dt2 = second(rng, rows, n, dt)
    a = Curve(arr(rows, n, dt), ndmin=n)
    b = Curve(arr(r2, n2, dt2), ndmin=n2, tdata=None if rng.random() < 0.7 else list(range(len(r2))))
    exact = isint(dt) and isint(dt2)
    exp = n == n2 and len(rows) == len(r2)
    if exp:
        flags = [rows_eq(x, y, exact) for x, y in zip(rows, r2)]
        exp = all(flags)
    how = (dt, dt2, rows[:8], r2[:8])
    for x, y in ((a, b), (b, a)):
        case.check((x == y) is exp, 'curve == curve', exp, how)
        case.check((x != y) is (not exp), 'curve != curve', exp, how)
    for junk in (None, 5, 'a', [1, 2], (1,)):
        case.check(not (a == junk) and (a != junk), 'curve against another type', junk)
    # points and segments
    for i in range(min(len(rows), len(r2), 4)):
        p, q = Point(rows[i], dtype=dt), Point(r2[i], dtype=dt2)
        e = n == n2 and rows_eq(rows[i], r2[i], exact)
        for x, y in ((p, q), (q, p)):
            case.check((x == y) is e and (x != y) is (not e), 'point == point', e, rows[i], r2[i], dt, dt2)
        e2 = n == n2 and rows_eq([float(v) for v in rows[i]], [float(v) for v in r2[i]], False)
        case.check((a[i] == b[i]) is e2 and (a[i] != b[i]) is (not e2), 'curve point == curve point', e2, rows[i], r2[i], dt, dt2)
        case.check(not (p == tuple(rows[i])) and not (p == None), 'point against another type')  # noqa
        if i + 1 < min(len(rows), len(r2)):
            s, t = Segment(p, Point(rows[i + 1], dtype=dt)), Segment(q, Point(r2[i + 1], dtype=dt2))
            e3 = e and rows_eq(rows[i + 1], r2[i + 1], exact)
            case.check((s == t) is e3 and (t == s) is e3 and (s != t) is (not e3), 'segment == segment', e3, how)
            case.check((a.segments[i] == b.segments[i]) is (n == n2 and e2 and rows_eq(
                [float(v) for v in rows[i + 1]], [float(v) for v in r2[i + 1]], False)), 'curve segment == curve segment', how)
            if n == n2:
                e4 = rows_eq(rows[i], r2[i + 1], exact) and rows_eq(rows[i + 1], r2[i], exact)
                case.check((s == t.reverse()) is e4, 'segment == reversed segment', e4, how)
            case.check(not (s == p) and not (p == s) and not (a == s) and not (a == p), 'mixed kinds are not equal')
    if rows:
        case.sig(how)
        case.sample({'dtypes': (dt, dt2), 'equal': exp, 'a': rows[:3], 'b': r2[:3]})


def membership(case):
    rng = case.rng
    dt, n = rng.choice(DTS), gen.ndim(rng, 2, 4)
    m = rng.choice([0, 1, 2, 3, 6, rng.randint(1, 25)])
    rows = base_rows(rng, m, n, dt)
    c = Curve(arr(rows, n, dt), ndmin=n)
    how = (dt, rows[:12])
    # a point
    for _ in range(4):
        dp = rng.choice([dt, 'float64'])
        if rows and rng.random() < 0.7:
            r = rng.choice(rows)
            if rng.random() < 0.5:
                r = perturb(rng, [r], dp, 1.0)[0]
            elif rng.random() < 0.3:
                # mixes coordinates of two points of the curve
                r = tuple(rng.choice(rows)[j] for j in range(n))
        else:
            r = base_rows(rng, 1, n, dt)[0]
        p = Point(r, dtype=dp)
        exact = isint(dt) and isint(dp)
        rr = p.data.tolist()
        hits = [i for i, row in enumerate(rows) if rows_eq(rr, row, exact)]
        case.check((p in c) == bool(hits), 'point in curve', bool(hits), r, dp, how)
        case.check(c.count(p) == len(hits), 'count', c.count(p), hits, r, how)
        for _ in range(3):
            bounds = [None, None, 0, 1, -1, m, -m, m + 3, -m - 3, rng.randint(-m - 2, m + 2), rng.randint(-m - 2, m + 2)]
            s, e = rng.choice(bounds), rng.choice(bounds)
            lo, hi, _ = slice(s, e).indices(m)
            inside = [i for i in hits if lo <= i < hi]
            form = rng.choice(['pos', 'kw'])
            call = (lambda: c.index(p, s, e)) if form == 'pos' else (lambda: c.index(p, start=s, end=e))
            if s is None and e is None:
                call = lambda: c.index(p)
            if inside:
                got = call()
                case.check(got == inside[0] and got >= 0, 'index', got, inside, (s, e), r, how)
            else:
                case.raises(ValueError, call, 'index of an absent point', (s, e), r, hits, how)
    # contiguous runs
    for _ in range(4):
        i, j = sorted((rng.randint(0, m), rng.randint(0, m)))
        run = rows[i:j]
        k = rng.choice(['run', 'perturb', 'gap', 'rev', 'longer', 'dim', 'float'])
        d2, n2 = dt, n
        if k == 'perturb':
            run = perturb(rng, run, dt, 0.5)
        elif k == 'gap':
            run = rows[i:j:2]
        elif k == 'rev':
            run = run[::-1]
        elif k == 'longer':
            run = rows + rows[-1:]
        elif k == 'dim':
            n2 = n + 1
            run = [tuple(r) + (0,) for r in run]
        elif k == 'float':
            d2 = 'float64'
            run = [tuple(float(x) for x in r) for r in run]
        d = Curve(arr(run, n2, d2), ndmin=n2)
        exact = isint(dt) and isint(d2)
        exp = n == n2 and any(all([rows_eq(run[y], rows[x + y], exact) for y in range(len(run))])
                              for x in range(m - len(run) + 1))
        case.check((d in c) == exp, 'run of points in curve', exp, k, run[:8], how)
    case.check(c in c, 'a curve contains itself', how) if not any(math.isnan(x) for r in rows for x in r) else None
    for junk in (None, 1, 'x', tuple(rows[0]) if rows else (), np.zeros(n), Segment(Point([0] * n), Point([1] * n))):
        case.check((junk in c) is False, 'membership of another type', type(junk).__name__)
    # also a one-dimensional point that would broadcast over the curve
    q = Point([0] * (n + 1)) if rng.random() < 0.5 or not rows else Point([rng.choice(rows)[0]])
    case.check(q not in c, 'membership of a point of another dimension')
    case.raises(ValueError, lambda: c.index(q), 'index of a point of another dimension')
    case.raises(ValueError, lambda: c.count(q), 'count of a point of another dimension')
    case.check((q == Point([0] * n)) is False and (Point([0] * n) == q) is False and q != Point([0] * n), 'points of different dimension', q)
    if rows:
        case.sig(how)
        case.sample({'dtype': dt, 'rows': rows[:4]})


def large(case):
    """Hits far from the start of long curves and close to the interval bounds."""
    rng = case.rng
    n, m = rng.choice([2, 3]), rng.randint(150, 900)
    rows = [tuple(rng.randint(0, 30) for _ in range(n)) for _ in range(m)]
    dt = rng.choice(['float64', 'int64', 'float32'])
    c = Curve(arr(rows, n, dt))
    for _ in range(12):
        r = rng.choice(rows)
        p = rng.choice([Point(r), Point(r, dtype=dt)])
        hits = [i for i, x in enumerate(rows) if x == r]
        case.check(c.count(p) == len(hits) and p in c, 'count', c.count(p), hits)
        h = rng.choice(hits)
        for s, e in ((h, None), (h + 1, None), (None, h), (None, h + 1), (h, h + 1), (h - m, None), (h + 1 - m, None),
                     (None, h - m), (0, h), (h, h)):
            lo, hi, _ = slice(s, e).indices(m)
            inside = [i for i in hits if lo <= i < hi]
            if inside:
                case.check(c.index(p, s, e) == inside[0], 'index', c.index(p, s, e), inside[:3], (s, e))
            else:
                case.raises(ValueError, lambda: c.index(p, s, e), 'index of an absent point', (s, e))
    k = rng.randint(0, m - 2)
    w = rng.randint(1, m - k)
    case.check(c[k:k + w] in c, 'run in curve', k, w, m)
    run = [list(x) for x in rows[k:k + w]]
    run[rng.randrange(w)][rng.randrange(n)] += 1000
    case.check(Curve(np.array(run, dtype=dt)) not in c, 'changed run in curve', k, w, m)
    case.sig(rows[:3], m)
    case.sample({'m': m, 'n': n})


def many(case):
    """Points that occur hundreds and tens of thousands of times."""
    rng = case.rng
    n = rng.choice([2, 3])
    m = rng.choice([300, 300, 700, 2000, 33000, 66000]) + rng.randint(0, 40)
    base = []
    while len(set(base)) < 3:
        base = [tuple(rng.randint(-4, 4) for _ in range(n)) for _ in range(3)]
    order = [0 if rng.random() < 0.97 else rng.choice([0, 1]) for _ in range(m)]
    dt = rng.choice(['float64', 'int64', 'int32', 'float32'])
    c = Curve(np.array([base[i] for i in order], dtype=dt))
    for k in (0, 1, 2):
        hits = [i for i, x in enumerate(order) if x == k]
        p = Point(base[k])
        case.check(c.count(p) == len(hits), 'count of a point that occurs many times', m, base, c.count(p), len(hits))
        case.check((p in c) == bool(hits), 'membership', m, base, k)
        for h in (rng.sample(hits, 3) + hits[-1:] if len(hits) > 3 else hits):
            got = c.index(p, h)
            case.check(got == h, 'index from a position where the point is', m, k, h, got)
            nxt = [x for x in hits[-2:] if x > h]
            if nxt and h == hits[-2]:
                case.check(c.index(p, h + 1) == hits[-1], 'the last occurrence', m, k, h)
        if hits:
            case.raises(ValueError, lambda: c.index(p, hits[-1] + 1), 'index after the last occurrence', m, k)
    case.sig(m, base, dt)
    case.sample({'m': m, 'dtype': dt})


def helpers(case):
    rng = case.rng
    d1, d2 = rng.choice(DTS), rng.choice(DTS)
    m, n = rng.randint(1, 6), rng.randint(2, 4)
    a = base_rows(rng, m, n, d1)
    b = perturb(rng, a, d1, 0.5) if d1 == d2 else base_rows(rng, m, n, d2)
    x, y = arr(a, n, d1), arr(b, n, d2)
    exact = isint(d1) and isint(d2)
    want = [[eqv(float(p) if not exact else p, float(q) if not exact else q, exact) for p, q in zip(r, s)] for r, s in zip(a, b)]
    case.check(isequal(x, y).tolist() == want, 'isequal', a, b, d1, d2)
    case.check(bool(allequal(x, y)) == all(all(w) for w in want), 'allequal', a, b)
    case.check(allequal(x, y, axis=1).tolist() == [all(w) for w in want], 'allequal axis=1', a, b)
    case.check(allequal(x, y, axis=0).tolist() == [all(w) for w in zip(*want)], 'allequal axis=0', a, b)
    case.sig(d1, d2, a, b)
    case.sample({'a': a[:2], 'b': b[:2]})


FAMILIES = [
    ('equality', 6000, 100000, equality),
    ('membership', 6000, 90000, membership),
    ('large', 300, 4000, large),
    ('many', 60, 600, many),
    ('helpers', 4000, 40000, helpers),
]
