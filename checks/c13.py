"""C13: segment parametrization, overlap and the end-point attributes."""
import math
import warnings
from fractions import Fraction as F

import numpy as np

from skcurve import Curve, CurveSegment, GeometryAlgorithmsWarning, Point, Segment
from vlib import exact as ex, gen

RULE = ('lattice segments under exact similarities, dims 1..6, plain and curve segments, dyadic parameters as numbers, lists and '
        'arrays, points on and off the line; overlaps of collinear segments of every direction and relation, all compared with '
        'exact rational arithmetic; non-trivial: a segment of positive length')
ASSUMPTIONS = ['coordinates and parameters exactly representable (round trips of random floats within 1e-6)']


def warned(fn):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        r = fn()
    return r, any(issubclass(w.category, GeometryAlgorithmsWarning) for w in rec)


def dim(rng):
    return rng.choice([2, 2, 2, 3, 3, 3, 4, 5, 6, 1])


def ts(rng, k=None):
    r = rng.choice([lambda: rng.randint(-64, 128) / 64, lambda: rng.uniform(-2, 3), lambda: rng.randint(-64, 128) / 61, lambda: float(rng.randint(-4, 5)), lambda: rng.randint(-3, 3), lambda: rng.choice([0, 1, 0.5, 0.0, 1.0])])
    return r() if k is None else [r() for _ in range(k)]


def mkseg(f, s, rng):
    a, b = f(s[0]), f(s[1])
    if rng.random() < 0.25 and len(a) > 1:
        j = rng.randrange(2)
        return Curve([b] * j + [a, b, a], axis=0).segments[j]
    return f.seg(s)


def point(case):
    rng = case.rng
    n = dim(rng)
    s = ex.rseg(rng, n, rng.choice([2, 6, 50]), 0.1)
    f = ex.Frame(rng, n, 9000, (0, 0, 0, 1, 3, 10, -3, -20, 30))
    S = mkseg(f, s, rng)
    how = (s, f)
    form = rng.choice(['number', 'list', 'array', 'tuple', 'nparray0', 'numpy'])
    u = ex.sub(s[1], s[0])

    def want(t):
        return f.float(ex.add(s[0], ex.mul(F(t), u)))
    tol = 1e-13 * float(np.max(np.abs(want(64)) + np.abs(want(-64)))) + 1e-300
    if form in ('number', 'numpy'):
        t = ts(rng)
        p = S.point(np.float64(t) if form == 'numpy' else t)
        case.check(type(p) is Point, 'point of a number is a Point', how, t, p)
        case.check(p.ndim == n and gen.close(p.data, want(t), 0, tol), 'point on the line', how, t, p, want(t))
        case.ev('points')
    else:
        k = rng.choice([0, 1, 2, 3, 7, 40])
        t = ts(rng, k)
        arg = {'list': list, 'tuple': tuple, 'array': np.array, 'nparray0': lambda x: np.array(x)[::1]}[form](t)
        ps = S.point(arg)
        case.check(isinstance(ps, list) and len(ps) == k, 'one point per parameter', how, t, ps)
        for x, p in zip(t, ps):
            case.check(type(p) is Point and p.ndim == n and gen.close(p.data, want(x), 0, tol), 'points on the line', how, x, p, want(x))
            case.ev('points')
        if k:
            q = S.point(t[0])
            case.check(gen.close(q.data, ps[0].data, 0, tol), 'a number and a list give the same point', how, t[0], q, ps[0])
    case.check(S.point(0) == S.p1 and S.point(1) == S.p2 and S.point(0.0).data.tolist() == S.p1.data.tolist(), 'ends at t 0 and 1', how)
    case.raises(ValueError, lambda: S.point(np.zeros((2, 2))), '2-dimensional parameters are rejected', how)
    if any(u):
        case.sig(how, t)
    case.sample({'s': s, 't': t, 'form': form})


def tvalues(case):
    rng = case.rng
    n = dim(rng)
    s = ex.rseg(rng, n, rng.choice([2, 6, 30]), 0)
    f = ex.Frame(rng, n)
    S = mkseg(f, s, rng)
    u = ex.sub(s[1], s[0])
    k = rng.choice([1, 1, 2, 3, 8, 30])
    pts, want = [], []
    for _ in range(k):
        t = rng.randint(-3, 4)
        p = ex.add(s[0], ex.mul(t, u))
        r = rng.random()
        if r < 0.25:
            p = ex.nudge(rng, p)
        elif r < 0.35:
            p = ex.rpoint(rng, n, 8)
        elif r < 0.6:
            p = ex.add(s[0], ex.mul(F(rng.randint(-16, 32), 16), u))
        on = ex.affine_rank([s[0], s[1], p]) <= 1
        pts.append(p)
        want.append(float(ex.param(s, p)) if on else math.nan)
    P = [Point(f.float(p)) for p in pts]
    how = (s, f, [tuple(map(str, p)) for p in pts])
    off = any(math.isnan(x) for x in want)
    form = rng.choice(['single', 'list', 'tuple', 'curvepoint'])
    if form in ('single', 'curvepoint'):
        for p, w in zip(P, want):
            if form == 'curvepoint' and n > 1:
                p = Curve([p.data.tolist(), [0.0] * n], axis=0)[0]
            x, wr = warned(lambda: S.t(p))
            case.check(isinstance(x, float), 't of a point is a number', how, x)
            case.check(gen.close(x, w, 1e-9, 1e-9), 't of a point', how, p, x, w)
            case.check(wr == math.isnan(w), 'a warning exactly for a point off the line', how, p, x, wr)
            case.ev('t values')
    else:
        x, wr = warned(lambda: S.t(list(P) if form == 'list' else tuple(P)))
        case.check(isinstance(x, np.ndarray) and x.shape == (k,), 'one t per point', how, x)
        case.check(gen.close(x, want, 1e-9, 1e-9), 't of a list of points', how, x, want)
        case.check(wr == off, 'a warning exactly when a point is off the line', how, x, wr)
        case.ev('t values', k)
    case.ev('off the line', sum(map(math.isnan, want)))
    case.sig(how, form)
    case.sample({'s': s, 'points': how[2], 't': want})


def long(case):
    """Points close to the ends of very long segments: t is as precise as the points are."""
    rng = case.rng
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    L = 2 ** rng.randint(8, 34)
    d = ex.rvec(rng, n, 3)
    if not any(d):
        d = (1,) * n
    a = rng.choice([(0,) * n, ex.rpoint(rng, n, 9)])
    s = (a, ex.add(a, ex.mul(L, d)))
    f = ex.Frame(rng, n, 20, (0, 0, 3, -5))
    S = mkseg(f, s, rng)
    ks = [rng.choice([0, 1, 2, 3, -1, -2, 7, rng.randint(0, L), L, L - 1, L // 2, rng.randint(4, 300)]) for _ in range(rng.randint(1, 6))]
    P = [f.pt(ex.add(a, ex.mul(k, d))) for k in ks]
    how = (s, ks, f)
    got = [S.t(p) for p in P] if rng.random() < 0.5 else S.t(P)
    for k, x in zip(ks, got):
        case.check(abs(float(x) - k / L) <= 1e-9 * abs(k / L) + 1e-14 * (1 if k > 1000 else 0) + 1e-18, 't of a point near the end of a long segment', how, k, x, k / L)
    case.ev('long t values', len(ks))
    e = S.point([k / L for k in ks])
    scale = (max(abs(x) for p in s for x in p) + max(map(abs, f.off)) + 1) * f.scale
    for k, p in zip(ks, e):
        case.check(gen.close(p.data, f.float(ex.add(a, ex.mul(k, d))), 0, 1e-14 * scale), 'point of a long segment', how, k, p)
    case.sig(how)
    case.sample({'s': s, 'k': ks})


def roundtrip(case):
    """Random float segments: t inverts point, reversed segments count from the other end."""
    rng = case.rng
    n = rng.choice([2, 2, 3, 4, 5])
    L = 10 ** rng.uniform(-1, 3)
    off = rng.choice([0, 1, 10]) * L
    a, b = ([off + rng.uniform(-L, L) for _ in range(n)] for _ in range(2))
    S = Segment(Point(a), Point(b))
    if S.seglen < 1e-3 * (off + L):
        case.check(True, '')
        return
    t = [rng.uniform(0, 1) if rng.random() < 0.7 else rng.uniform(-3, 4) for _ in range(rng.randint(1, 6))]
    how = (a, b, t)
    x, wr = warned(lambda: S.t(S.point(t)))
    case.check(gen.close(x, t, 1e-6, 1e-6) and not wr, 't inverts point', how, x)
    case.check(gen.close(S.t(S.point(t[0])), t[0], 1e-6, 1e-6), 't inverts point for a number', how)
    case.check(gen.close(S.reverse().t(S.point(t)), [1 - v for v in t], 1e-6, 1e-6), 't on the reversed segment', how)
    case.sig(how)


def overlap(case):
    rng = case.rng
    n = dim(rng)
    L = rng.choice([2, 4, 9])
    p, u = ex.rpoint(rng, n, L), ex.rvec(rng, n, 3)
    ks = [rng.randint(-6, 6) for _ in range(4)]
    if rng.random() < 0.85:
        if ks[0] == ks[1]:
            ks[1] += 1
        if ks[2] == ks[3]:
            ks[3] -= 2
    if rng.random() < 0.15:
        ks[2] = ks[rng.randrange(2)]
    q = [ex.add(p, ex.mul(k, u)) for k in ks]
    s, o = (q[0], q[1]), (q[2], q[3])
    f = ex.Frame(rng, n)
    S, O = mkseg(f, s, rng), mkseg(f, o, rng)
    want = ex.common(s, o)
    how = (s, o, f)
    for A in (S, S.reverse()):
        for B in (O, O.reverse()):
            for X, Y in ((A, B), (B, A)):
                for kw in ({}, {'check_collinear': True}):
                    r = X.overlap(Y, **kw)
                    if want is None:
                        case.check(r is None, 'no overlap of disjoint segments', how, (X, Y), r)
                        continue
                    case.check(type(r) is Segment, 'overlap is a segment', how, (X, Y), r)
                    got = sorted([tuple(r.p1.data.tolist()), tuple(r.p2.data.tolist())])
                    case.check(got == sorted([f(want[0]), f(want[1])]), 'overlap is the common part', how, (X, Y), r, want)
    lo, hi = max(min(ks[:2]), min(ks[2:])), min(max(ks[:2]), max(ks[2:]))
    case.check((want is None) == (lo > hi), 'oracles agree', how)
    case.ev('overlap %s' % ('none' if want is None else 'point' if want[0] == want[1] else 'segment'))
    # segments that are not collinear
    kind, s2, o2 = ex.rpair(rng, n, 5)
    if ex.affine_rank([s2[0], s2[1], o2[0], o2[1]]) > 1:
        A, B = f.seg(s2), f.seg(o2)
        case.check(A.overlap(B, check_collinear=True) is None and B.overlap(A, True) is None, 'no overlap of non-collinear segments', s2, o2, f)
        case.ev('non-collinear rejected')
    case.sig(how)
    case.sample({'s': s, 'o': o, 'common': want})


ex_narrow = ('int8', 'uint8', 'int16', 'uint16', 'uint32')


def attributes(case):
    rng = case.rng
    n = dim(rng)
    dt = rng.choice(['float64'] * 4 + ['int64', 'int32', 'float32'])
    a, b = ex.rseg(rng, n, 40, 0.15)
    if rng.random() < 0.15:              # types whose differences wrap around
        dt = rng.choice(['int8', 'uint8', 'int16', 'uint16', 'uint32'])
        lo = 0 if dt[0] == 'u' else -120
        hi = 127 if dt == 'int8' else 255
        a, b = [tuple(rng.randint(lo, hi) for _ in range(n)) for _ in range(2)]
    db = rng.choice(['float64', 'int64', 'int32', 'float32']) if rng.random() < 0.4 else dt
    ka = 0 if dt in ex_narrow else rng.choice([0, 0, 2, 7]) if dt != 'float64' else rng.choice([0, 3, -6, 20])
    kb = ka if db == dt else rng.choice([0, 0, 2, 7]) if db != 'float64' else rng.choice([0, ka, -6, -1, 20])
    if ka != kb and a == b:
        b = ex.nudge(rng, b)
    a, b = tuple(x * 2.0 ** ka for x in a), tuple(x * 2.0 ** kb for x in b)
    S = Segment(Point(a, dtype=dt), Point(b, dtype=db))
    f32 = 'float32' in (dt, db)
    u = ex.sub(b, a)
    how = (dt, db, a, b)
    case.check(S.p1.data.tolist() == list(a) and S.p2.data.tolist() == list(b), 'end points', how)
    case.check(S.ndim == n and S.data.shape == (2, n) and S.data.tolist() == [list(a), list(b)], 'data', how)
    r = S.reverse()
    case.check(type(r) is Segment and r.p1 == S.p2 and r.p2 == S.p1 and r.data.tolist() == [list(b), list(a)], 'reverse', how, r)
    case.check(S.direction.data.tolist() == list(u), 'direction', how, S.direction)
    case.check(r.direction.data.tolist() == [-x for x in u], 'direction of the reversed segment', how)
    want = math.sqrt(ex.dot(u, u))
    case.check(gen.close(S.seglen, want, 1e-6 if f32 else 1e-12, 0), 'seglen', how, S.seglen, want)
    case.check(gen.close(float(S.dot), ex.dot(a, b), 1e-6 if f32 else 1e-12, 1e-6 * float(max(map(abs, a + b))) ** 2 if f32 else 1e-9 * (1 + want)), 'dot', how, S.dot)
    if all(x == y or abs(x - y) > 1e-4 * abs(y) + 1e-7 for x, y in zip(a, b)) or dt.startswith('int') and db.startswith('int'):
        case.check(bool(S.singular) == (a == b), 'singular', how, S.singular)
    if n > 1:
        c = S.to_curve()
        case.check(isinstance(c, Curve) and c.size == 2 and c.ndim == n and c.data.tolist() == [list(a), list(b)], 'to_curve', how, c)
        case.check(c.dtype == S.data.dtype == np.result_type(S.p1.data, S.p2.data), 'dtype of to_curve', how)
        cs = c.segments[0]
        case.check(isinstance(cs, CurveSegment) and cs == S and cs.reverse() == r, 'round trip through a curve', how)
    case.check(S == Segment(Point(a), Point(b)) and (a == b or not S == r or all(abs(x - y) <= 1e-4 * abs(y) + 1e-7 for x, y in zip(a, b))), 'equality', how)
    case.check(S.point(0.5).data.tolist() == [x + 0.5 * (y - x) for x, y in zip(a, b)], 'midpoint', how)
    case.raises(TypeError, lambda: Segment(a, Point(b)), 'an end that is not a point', how)
    case.raises(ValueError, lambda: Segment(Point(a), Point(list(b) + [0])), 'ends of different dimension', how)
    case.ev('zero length' if a == b else 'positive length')
    case.sig(how)
    case.sample({'a': a, 'b': b, 'dtypes': (dt, db)})


FAMILIES = [
    ('point', 2500, 40000, point),
    ('tvalues', 3000, 40000, tvalues),
    ('long', 900, 15000, long),
    ('roundtrip', 1200, 12000, roundtrip),
    ('overlap', 2200, 36000, overlap),
    ('attributes', 2000, 20000, attributes),
]
