"""C25: textual representations show the object."""
import re

import numpy as np

from skcurve import Curve, Point, Segment
from vlib import gen

RULE = ('random points, curves, segments, curve points, curve segments and intersections of every dtype, under random ambient '
        'print settings; the numbers are read back out of the text; non-trivial: at least one coordinate is not zero')
ASSUMPTIONS = ['coordinates of 1e8 and more are shown with 4 decimals of the mantissa (numpy)', 'points of at most a hundred dimensions, so that numpy does not shorten a row']

NUM = re.compile(r'(?<![\w.])[-+]?(?:nan|inf|\d+\.?\d*(?:e[-+]?\d+)?)(?![\w.])')


def numbers(s):
    return [float(x) for x in NUM.findall(s)]


def bracket(s, start):
    """The text of the balanced bracket that opens at or after start."""
    i = s.index('[', start)
    d = 0
    for j in range(i, len(s)):
        d += {'[': 1, ']': -1}.get(s[j], 0)
        if d == 0:
            return s[i:j + 1], j + 1
    raise ValueError(s)


def brackets(s):
    r, j = [], 0
    while '[' in s[j:]:
        b, j = bracket(s, j)
        r.append(b)
    return r


def same(case, text, coords, law, how):
    coords = np.asarray(coords)
    isint = coords.dtype.kind != 'f'
    eps = 0.0 if isint else float(np.finfo(coords.dtype).eps)        # numpy shows no more digits than the type has
    got = numbers(text)
    want = [float(x) for x in coords]
    case.check(len(got) == len(want), law + ': every coordinate once', how, text, want)
    big = any(abs(x) >= 1e8 for x in want if np.isfinite(x))      # numpy then shows mantissa and exponent
    for g, w in zip(got, want):
        ok = g == w or (np.isnan(g) and np.isnan(w)) or (not isint and abs(g - w) <= ((5.001e-5 + eps) * max(abs(w), 1e-4) if big else 5.001e-5 + eps * abs(w)))
        case.check(ok, law + ': coordinate rounded to 4 decimals', how, text, want)


def field(s, name):
    m = re.findall(r'\b%s=([\w.<>]+)' % name, s)
    return m[-1] if m else None


def coords(rng, m, n, dt):
    if dt.startswith('float') and rng.random() < 0.6:
        sc = 10.0 ** rng.randint(-6, 7 if dt == 'float64' else 1)
        a = np.array([[rng.uniform(-sc, sc) for _ in range(n)] for _ in range(m)]).reshape(m, n).astype(dt)
        if a.size and rng.random() < 0.1:
            a[rng.randrange(m), rng.randrange(n)] = rng.choice([np.nan, np.inf, -np.inf])
        return a
    return gen.array(gen.rows(rng, m, n, None, dt), n, dt)


def ambient(rng):
    return {} if rng.random() < 0.5 else rng.choice([{'precision': 1}, {'precision': 12}, {'suppress': False}, {'precision': 2, 'suppress': False}])


def show(case, o):
    amb = ambient(case.rng)
    with np.printoptions(**amb):
        before = np.get_printoptions()
        r, s = repr(o), str(o)
        after = np.get_printoptions()
    case.check(before == after, 'printing leaves the print settings alone', amb)
    case.check(r == s == repr(o) == '{}'.format(o), 'str and repr agree and do not depend on the print settings', amb, r, s)
    return r


def lead(case, r, name, how):
    case.check(r.startswith(name + '(') and r.endswith(')'), 'begins with the name of its type', how, r)


def points(case):
    rng = case.rng
    dt = rng.choice(gen.ALL_DTYPES)
    n = rng.choice([1, 2, 3, 4, rng.randint(1, 30)])
    a = coords(rng, 1, n, dt)[0]
    p = Point(a, dtype=dt)
    how = (dt, a.tolist())
    r = show(case, p)
    lead(case, r, 'Point', how)
    same(case, bracket(r, 0)[0], a, 'point', how)
    case.check(field(r, 'ndim') == str(n) and field(r, 'dtype') == dt, 'dimension and dtype of a point', how, r)
    if np.any(a):
        case.sig(how)
    case.sample({'repr': r})


def curves(case):
    rng = case.rng
    dt = rng.choice(gen.ALL_DTYPES)
    n = gen.ndim(rng)
    m = rng.choice([0, 1, 2, 9, 10, 11, 12, rng.randint(0, 40), rng.randint(0, 400)])
    a = coords(rng, m, n, dt)
    c = Curve(a, ndmin=n) if m else Curve([], ndmin=n, dtype=dt)
    if m and rng.random() < 0.3:
        c = gen.touch(rng, c)
    how = (dt, m, n, a[:4].tolist())
    r = show(case, c)
    lead(case, r, 'Curve', how)
    case.check(field(r, 'size') == str(m) and field(r, 'ndim') == str(n) and field(r, 'dtype') == dt, 'size, dimension and dtype of a curve', how, r)
    if m:
        body = bracket(r, 0)[0]
        if m <= 10:
            same(case, body, a.ravel(), 'curve', how)
            case.check('...' not in body, 'a short curve is shown whole', how, r)
        else:
            case.check(body.count('...') == 1, 'a long curve is shortened once', how, r)
            head, tail = body.split('...')
            same(case, head, a[:4].ravel(), 'first points of a long curve', how)
            same(case, tail, a[-4:].ravel(), 'last points of a long curve', how)
        case.ev('whole' if m <= 10 else 'shortened')
        if np.any(a):
            case.sig(how)
    else:
        case.check(not numbers(bracket(r, 0)[0]), 'an empty curve shows no point', how, r)
    case.check(True, '')
    case.sample({'repr': r[:200]})


def parts(case):
    """Curve points, curve segments, plain segments."""
    rng = case.rng
    dt = rng.choice(gen.ALL_DTYPES)
    n, m = gen.ndim(rng), rng.randint(2, 30)
    a = coords(rng, m, n, dt)
    c = Curve(a)
    for _ in range(3):
        i = rng.randrange(m)
        p = c[i if rng.random() < 0.5 else i - m]
        r = show(case, p)
        how = (dt, m, n, i, a[i].tolist())
        lead(case, r, 'CurvePoint', how)
        # a curve point holds its coordinates as float64
        same(case, bracket(r, 0)[0], p.data, 'curve point', how)
        case.check(field(r, 'index') == str(i), 'index of a curve point', how, r)
        k = rng.randrange(m - 1)
        s = c.segments[k]
        r = show(case, s)
        how = (dt, m, n, k, a[k:k + 2].tolist())
        lead(case, r, 'CurveSegment', how)
        b = brackets(r)
        case.check(len(b) == 2 and r.index('p1=') < r.index('p2='), 'both ends of a curve segment', how, r)
        same(case, b[0], s.p1.data, 'first end', how)
        same(case, b[1], s.p2.data, 'second end', how)
        case.check(field(r, 'index') == str(k), 'index of a curve segment', how, r)
        if np.any(a[k:k + 2]):
            case.sig(how)
    d = rng.choice(gen.ALL_DTYPES)
    x = coords(rng, 2, n, d)
    s = Segment(Point(x[0], dtype=d), Point(x[1], dtype=d))
    if rng.random() < 0.3:
        s, x = s.reverse(), x[::-1]
    r = show(case, s)
    how = (d, x.tolist())
    lead(case, r, 'Segment', how)
    b = brackets(r)
    case.check(len(b) == 2 and r.index('p1=') < r.index('p2='), 'both ends of a segment', how, r)
    for t, row in zip(b, x):
        same(case, t, row, 'end of a segment', how)
    case.sample({'repr': r})


def crossings(case):
    """An intersection shows both segments, the point and the type."""
    rng = case.rng
    n = rng.choice([2, 2, 3])
    rows = [[rng.randint(-4, 4) / 2 for _ in range(n)] for _ in range(4)]
    how = rows
    if rows[0] == rows[1] or rows[2] == rows[3]:
        case.check(True, '')
        return
    if rng.random() < 0.4:
        s1, s2 = Curve(np.array(rows[:2])).segments[0], Curve(np.array(rows[2:])).segments[0]
    else:
        s1, s2 = Segment(Point(rows[0]), Point(rows[1])), Segment(Point(rows[2]), Point(rows[3]))
    kw = rng.choice([{}, {'method': 'exact'}, {'method': 'almost', 'dist_tol': rng.choice([0.1, 1.0, 3.0])}])
    x = s1.intersect(s2, **kw)
    r = show(case, x)
    lead(case, r, 'SegmentsIntersection', how)
    case.check(repr(s1) in r and repr(s2) in r and r.index(repr(s1)) <= r.rindex(repr(s2)), 'both segments in order', how, r)
    case.check(field(r, 'type') == x.intersect_type.name, 'type of the intersection', how, r)
    case.check(repr(x.intersect_point) in r, 'point of the intersection', how, r)
    case.ev(x.intersect_type.name)
    case.sig(rows, sorted(kw.items()))
    case.sample({'repr': r})


FAMILIES = [
    ('points', 1200, 15000, points),
    ('curves', 1200, 15000, curves),
    ('parts', 400, 7000, parts),
    ('crossings', 400, 7000, crossings),
]
