"""C24: explicit tolerance and precision arguments decide exactly what they are documented to decide."""
import itertools
import math
import warnings
from fractions import Fraction as F

import numpy as np

from skcurve import Curve, Point, Segment, allequal, dot1d, isequal
from vlib import exact as ex, gen

RULE = ('segments and points in 2..6 dimensions at several scales; explicit tolerances from far below to far above the exact squared '
        'sine (parallel) or the singular values of the differences (collinear, coplanar, t), ascending, so that both answers and the '
        'place where they change are observed; angles rounded to random numbers of digits; arrays of every dtype and layout against '
        'numpy comparison criteria; non-trivial: both answers of the predicate occur, or an array with at least one element')
ASSUMPTIONS = ['tolerances between the singular values for different reference points (a factor of at most about 3) are not judged']


def dim(rng):
    return rng.choice([2, 2, 3, 3, 3, 4, 5, 6])


def flags(case, fn, tols, what, *how):
    """The answers for ascending tolerances: booleans that never turn from true to false."""
    out = [fn(t) for t in tols]
    for r in out:
        case.check(isinstance(r, (bool, np.bool_)), what + ' is a boolean', how, r)
    out = [bool(r) for r in out]
    case.check(out == sorted(out), what + ': a larger tolerance never turns true into false', how, tols, out)
    return out


def sigma_range(P, k):
    """Smallest and largest k-th singular value of the differences over all reference points (and the centre)."""
    P = np.array(P, dtype=float)
    P = P - P[0]
    r = []
    for ref in list(P) + [P.mean(axis=0)]:
        s = np.linalg.svd(P - ref, compute_uv=False)
        r.append(s[k - 1] if k <= len(s) else 0.0)
    return min(r), max(r)


def ladder(rng, lo, hi):
    """Ascending tolerances around [lo, hi]."""
    c = [0.0, lo * 1e-6, lo * 1e-3, lo * 0.1, lo * 0.5, lo * 0.9, lo * 0.999, hi * 1.001, hi * 1.1, hi * 2, hi * 10, hi * 1e3, hi * 1e6]
    return sorted(rng.sample(c, rng.randint(4, len(c))))


def pts(rng, n, k, scale, flat=0):
    """k distinct lattice points with offsets of different sizes per axis (so that singular values spread).

    With flat, all but the first flat axes are very short.
    """
    if flat:
        w = [1.0] * flat + [2.0 ** -rng.choice([rng.randint(18, 34), 33]) for _ in range(n - flat)]
        while True:
            P = [tuple(scale * x * rng.randint(-9, 9) for x in w) for _ in range(k)]
            Q = [Point(p) for p in P]
            if all(a != b for a, b in itertools.combinations(Q, 2)):
                return P, Q
    w = [rng.choice([1, 1, 1, 2.0 ** -rng.randint(1, 12)]) for _ in range(n)]
    off = [rng.choice([0, 0, rng.randint(-40, 40)]) for _ in range(n)]
    while True:
        P = [tuple(scale * (o + x * rng.randint(-9, 9)) for x, o in zip(w, off)) for _ in range(k)]
        Q = [Point(p) for p in P]
        if all(a != b for a, b in itertools.combinations(Q, 2)):
            return P, Q


def mkseg(rng, a, b):
    if rng.random() < 0.25:
        return Curve([a, b], axis=0).segments[0]
    return Segment(Point(a), Point(b))


def judge(case, fn, lo, hi, what, *how):
    tols = ladder(case.rng, lo, hi)
    out = flags(case, fn, tols, what, *how)
    for t, r in zip(tols, out):
        if t < lo:
            case.check(not r, what + ' is false below the singular value', how, t, (lo, hi))
            case.ev('false')
        elif t > hi:
            case.check(r, what + ' is true above the singular value', how, t, (lo, hi))
            case.ev('true')
    if len(set(out)) == 2:
        case.sig(how)


def collinear(case):
    rng = case.rng
    n = dim(rng)
    scale = 2.0 ** rng.choice([0, 0, 0, -3, 5, 20])
    k = rng.choice([3, 3, 4])
    flat, eps = 0, 1e-9
    if rng.random() < 0.25:
        # singular values down to below the machine epsilon
        flat, eps, scale = 1, 1e-12, 2.0 ** rng.choice([-22, -22, -15, 0])
    P, Q = pts(rng, n, k, scale, flat)
    lo, hi = sigma_range(P, 2)
    if lo <= 1e-9 * hi or lo < eps * max(0.0 if flat else 1.0, float(np.abs(P).max())):
        lo = 0.0     # on one line (up to rounding): only the upper side is judged
        hi = max(hi, 1e-6 * scale)
    S = mkseg(rng, P[0], P[1])
    O = Q[2] if k == 3 else mkseg(rng, P[2], P[3])
    judge(case, lambda t: S.collinear(O, tol=t), lo, hi, 'collinear(tol)', S, O)
    t = rng.choice([lo * 0.5, hi * 2])
    case.check(bool(S.collinear(O, t)) == bool(S.collinear(O, tol=t)), 'positional tol', S, O, t)
    # symmetric in direction and argument order
    if t < lo or t > hi:
        case.check(bool(S.reverse().collinear(O, tol=t)) == bool(S.collinear(O, tol=t)), 'direction', S, O, t)
        if k == 4:
            case.check(bool(O.collinear(S, tol=t)) == bool(S.collinear(O, tol=t)), 'order', S, O, t)
    case.sample({'P': P})


def coplanar(case):
    rng = case.rng
    n = rng.choice([3, 3, 3, 4, 5])
    scale = 2.0 ** rng.choice([0, 0, 0, -3, 5, 20])
    flat, eps = 0, 1e-9
    if rng.random() < 0.25:
        # singular values down to below the machine epsilon
        flat, eps, scale = 2, 1e-12, 2.0 ** rng.choice([-22, -22, -15, 0])
    P, Q = pts(rng, n, 4, scale, flat)
    lo, hi = sigma_range(P, 3)
    if lo <= 1e-9 * hi or lo < eps * max(0.0 if flat else 1.0, float(np.abs(P).max())):
        lo = 0.0
        hi = max(hi, 1e-6 * scale)
    S, O = mkseg(rng, P[0], P[1]), mkseg(rng, P[2], P[3])
    judge(case, lambda t: S.coplanar(O, tol=t), lo, hi, 'coplanar(tol)', S, O)
    t = rng.choice([lo * 0.5, hi * 2])
    case.check(bool(S.coplanar(O, t)) == bool(S.coplanar(O, tol=t)), 'positional tol', S, O, t)
    case.check(bool(S.coplanar(Q[2], tol=rng.choice([0.0, t]))), 'three points are always coplanar', S, O, t)
    if t < lo or t > hi:
        case.check(bool(O.coplanar(S.reverse(), tol=t)) == bool(S.coplanar(O, tol=t)), 'order and direction', S, O, t)
    case.sample({'P': P})


def parallel(case):
    rng = case.rng
    n = dim(rng)
    scale = 2.0 ** rng.choice([0, 0, 0, -8, 8, 30, -30])
    while True:
        w = [rng.choice([1, 1, 2.0 ** -rng.randint(1, 10)]) for _ in range(n)]
        p, q, r, s = [tuple(scale * x * rng.randint(-9, 9) for x in w) for _ in range(4)]
        if rng.random() < 0.4:    # a small angle
            e = 2.0 ** -rng.randint(2, 9)
            s = tuple(a + (b - c) + scale * e * rng.randint(-2, 2) for a, b, c in zip(r, q, p))
        u, v = [tuple(F(y) - F(x) for x, y in zip(a, b)) for a, b in ((p, q), (r, s))]
        if any(u) and any(v):
            break
    sin2 = float(1 - F(ex.dot(u, v)) ** 2 / (ex.dot(u, u) * ex.dot(v, v)))
    S, O = mkseg(rng, p, q), mkseg(rng, r, s)
    if sin2 > 1e-8:
        c = [0.0, sin2 * 1e-6, sin2 * 0.01, sin2 * 0.5, sin2 * 0.9, sin2 * 0.999, sin2 * 1.001, sin2 * 1.1, sin2 * 2, sin2 * 100, 1.5]
    else:
        if sin2:
            return
        c = [1e-14, 1e-12, 1e-6, 0.5]
    tols = sorted(rng.sample(c, rng.randint(2, len(c))))
    out = flags(case, lambda t: S.parallel(O, tol=t), tols, 'parallel(tol)', S, O)
    for t, x in zip(tols, out):
        case.check(x == (t > sin2), 'parallel(tol) compares the squared sine of the angle', S, O, t, sin2, x)
        case.check(bool(S.parallel(O, t)) == x and bool(O.parallel(S, t)) == x and bool(S.reverse().parallel(O, t)) == x,
                   'parallel(tol) by position, swapped and reversed', S, O, t)
        case.ev('parallel' if x else 'not parallel')
    if len(set(out)) == 2:
        case.sig(S, O, tols)
    case.sample({'S': S, 'O': O})


def tparam(case):
    rng = case.rng
    n = dim(rng)
    scale = 2.0 ** rng.choice([0, 0, -3, 5])
    P, Q = pts(rng, n, rng.choice([3, 4, 6]), scale)
    S = mkseg(rng, P[0], P[1])
    u = np.array(P[1]) - np.array(P[0])
    want, rngs = [], []
    for p in P[2:]:
        w = np.array(p) - np.array(P[0])
        want.append(float(w @ u / (u @ u)))
        lo, hi = sigma_range([P[0], P[1], p], 2)
        if lo <= 1e-9 * hi or lo < 1e-9 * max(1.0, float(np.abs(P).max())):
            lo, hi = 0.0, max(hi, 1e-6 * scale)
        rngs.append((lo, hi))
    tol = rng.choice([x * f for r in rngs for x in r for f in (0.5, 0.9, 1.1, 2)]) or rng.choice([0.0, 1e-6 * scale])
    if rng.random() < 0.05:
        tol = 0.0
    acc = []
    for (lo, hi), q, w in zip(rngs, Q[2:], want):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            t = S.t(q, tol=tol) if rng.random() < 0.7 else S.t(q, tol)
        case.check(isinstance(t, float), 't is a number', S, q, t)
        ok = not math.isnan(t)
        case.check(ok == bool(S.collinear(q, tol=tol)), 't is a number exactly when the point is collinear within tol', S, q, tol, t)
        if tol < lo:
            case.check(not ok, 't beyond tol is NaN', S, q, tol, t, (lo, hi))
            case.check(any('GeometryAlgorithmsWarning' in w_.category.__name__ for w_ in rec), 'a warning for a point beyond tol', S, q, tol)
            case.ev('rejected')
        elif tol > hi:
            case.check(ok, 't within tol is a number', S, q, tol, t, (lo, hi))
            case.ev('accepted')
        if ok:
            case.check(abs(t - w) <= 1e-9 * (1 + abs(w)), 't of an accepted point is that of its projection', S, q, t, w)
        acc.append(ok)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        ts = S.t(list(Q[2:]), tol=tol)
    case.check(isinstance(ts, np.ndarray) and ts.shape == (len(want),), 't of a list', S, ts)
    for t, ok, w in zip(ts, acc, want):
        case.check(math.isnan(t) != ok and (not ok or abs(t - w) <= 1e-9 * (1 + abs(w))), 'a list and single points agree', S, tol, ts, acc, want)
    if not all(acc):
        case.check(any('GeometryAlgorithmsWarning' in w_.category.__name__ for w_ in rec), 'a warning for a list with a point beyond tol', S, tol)
    if len(set(acc)) == 2 or len(acc) == 1:
        case.sig(S, Q, tol)
    case.sample({'P': P, 'tol': tol})


def digits(case):
    rng = case.rng
    n = dim(rng)
    P, Q = pts(rng, n, 4, 1.0)
    S, O = mkseg(rng, P[0], P[1]), mkseg(rng, P[2], P[3])
    u, v = [np.array(b, dtype=float) - np.array(a, dtype=float) for a, b in ((P[0], P[1]), (P[2], P[3]))]
    c = float(u @ v) / math.sqrt(float(u @ u) * float(v @ v))
    k = rng.choice([0, 1, 2, 3, 4, 6, 8])
    x = S.angle(O, ndigits=k)
    frac = abs(c) * 10 ** k % 1
    if abs(frac - 0.5) < 1e-6:
        case.ev('skipped:tie')
        return
    w = math.acos(max(-1.0, min(1.0, round(c, k))))
    case.check(abs(float(x) - w) <= 1e-7, 'angle of the cosine rounded to ndigits', S, O, k, x, w)
    case.check(float(S.angle(O, k)) == float(x), 'positional ndigits', S, O, k)
    full = float(S.angle(O))
    case.check(abs(full - math.acos(max(-1.0, min(1.0, c)))) <= 1e-7, 'full precision', S, O, full)
    case.ev('angles')
    case.sig(S, O, k)


def numeric(case):
    rng = case.rng
    n, m = rng.choice([1, 2, 3, 6]), rng.choice([0, 1, 1, 2, 5, 12]) if rng.random() > 0.01 else rng.randint(60, 600)
    d1, d2 = [rng.choice(['float64', 'float64', 'float32', 'int64', 'int32', 'int8']) for _ in range(2)]
    a = np.array([[rng.randint(-6, 6) for _ in range(n)] for _ in range(m)], dtype=d1).reshape(m, n)
    b = a.astype(d2)
    for _ in range(rng.randint(0, 3)):
        if m:
            i, j = rng.randrange(m), rng.randrange(n)
            e = rng.choice([1, -1, 1e-3, 1e-5, 1e-7, 1e-9, float('nan')]) if d2[0] == 'f' else rng.choice([1, -1])
            b[i, j] += e
            if rng.random() < 0.2 and d1[0] == 'f':
                a[i, j] = b[i, j]
    if rng.random() < 0.3:
        a = np.asfortranarray(a)
    if rng.random() < 0.2:
        a = np.repeat(a, 2, axis=0)[::2]
    ints = d1[0] == 'i' and d2[0] == 'i'
    kw = {}
    if not ints:
        if rng.random() < 0.5:
            kw['rtol'] = rng.choice([0.0, 1e-5, 1e-2, 0.5])
        if rng.random() < 0.5:
            kw['atol'] = rng.choice([0.0, 1e-8, 1e-4, 0.1, 2])
        if rng.random() < 0.3:
            kw['equal_nan'] = rng.random() < 0.5

    def eq(x, y):
        if ints:
            return int(x) == int(y)
        x, y = float(x), float(y)
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y) and kw.get('equal_nan', False)
        return abs(x - y), kw.get('atol', 1e-8) + kw.get('rtol', 1e-5) * abs(y)
    r = isequal(a, b, **kw)
    case.check(isinstance(r, np.ndarray) and r.shape == a.shape and r.dtype == bool, 'isequal is an array of booleans', a, b, r)
    for i in range(m):
        for j in range(n):
            w = eq(a[i, j], b[i, j])
            if isinstance(w, tuple):
                if abs(w[0] - w[1]) <= 1e-6 * w[1] and w[0]:
                    continue       # within rounding of the threshold
                w = w[0] <= w[1]
            case.check(bool(r[i, j]) == w, 'isequal', a, b, kw, (i, j), r)
            case.ev('elements')
    for axis in (None, 0, 1, -1):
        s = allequal(a, b, axis=axis, **kw) if axis is not None or rng.random() < 0.5 else allequal(a, b, **kw)
        if axis is None:
            case.check(bool(s) == all(map(all, r.tolist())), 'allequal', a, b, kw, s)
        else:
            w = [all(row) for row in r.tolist()] if axis in (1, -1) else [all(r[:, j].tolist()) for j in range(n)]
            case.check(np.asarray(s).tolist() == w, 'allequal along an axis', a, b, kw, axis, s)
    f = np.array([[gen.dyadic(rng) for _ in range(n)] for _ in range(m)], dtype=rng.choice(['float64', 'float32'])).reshape(m, n)
    g = np.array([[gen.dyadic(rng) for _ in range(n)] for _ in range(m)]).reshape(m, n)
    if rng.random() < 0.3:
        f, g = f[::-1], g[::-1]
    d = dot1d(f, g)
    case.check(d.shape == (m,) and d.tolist() == [sum(float(x) * float(y) for x, y in zip(p, q)) for p, q in zip(f, g)],
               'dot1d', f, g, d)
    if m:
        case.sig(a.tolist(), b.tolist(), sorted(kw.items()))


FAMILIES = [('collinear', 2500, 40000, collinear), ('coplanar', 2000, 30000, coplanar), ('parallel', 2500, 40000, parallel),
            ('t', 2000, 30000, tparam), ('digits', 1500, 20000, digits), ('numeric', 2000, 30000, numeric)]
