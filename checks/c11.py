"""C11: geometric predicates against exact rational arithmetic."""
import math
import warnings

import numpy as np

from skcurve import Curve, GeometryAlgorithmsWarning, Point, Segment
from vlib import exact as ex, gen

RULE = ('pairs of lattice segments of chosen relative positions (random, collinear, parallel, crossing, touching, coplanar, '
        'equal, degenerate, one lattice unit off), dims 1..6, exactly scaled and translated to float64, in every argument '
        'order and direction, against exact rank computations; non-trivial: every configuration with distinct points')
ASSUMPTIONS = ['coordinates exactly representable; distinct points stay distinguishable under the isclose equality of points '
               '(offsets up to 9000 units, scales 2^-8 to 2^20)']


def dim(rng):
    return rng.choice([2, 2, 2, 3, 3, 3, 4, 5, 6, 1])


def orders(rng, s, o):
    """The same figure in another order and direction."""
    if rng.random() < 0.5:
        s = s.reverse()
    if rng.random() < 0.5:
        o = o.reverse()
    return (o, s) if rng.random() < 0.5 else (s, o)


def predicates(case):
    rng = case.rng
    n = dim(rng)
    L = rng.choice([2, 4, 6, 30])
    kind, s, o = ex.rpair(rng, n, L)
    f = ex.Frame(rng, n)
    S, O = f.seg(s), f.seg(o)
    how = (kind, s, o, f)
    case.rec(how)
    r = ex.affine_rank([s[0], s[1], o[0], o[1]])
    par = ex.parallel(s, o)
    if r < 2 and s[0] != s[1] and o[0] != o[1]:
        par = True
    for _ in range(4):
        A, B = orders(rng, S, O)
        case.check(bool(A.collinear(B)) == (r <= 1), 'collinear segments', how, (A, B), A.collinear(B))
        case.check(bool(A.parallel(B)) == par, 'parallel segments', how, (A, B), A.parallel(B))
        case.check(bool(A.coplanar(B)) == (r <= 2), 'coplanar segments', how, (A, B), A.coplanar(B))
        for name, v in (('collinear', A.collinear(B)), ('parallel', A.parallel(B)), ('coplanar', A.coplanar(B))):
            case.check(isinstance(v, (bool, np.bool_)), name + ' is a truth value', how, v)
    case.ev('collinear' if r <= 1 else 'parallel' if par else 'coplanar' if r == 2 else 'skew')
    case.ev('dimension %d' % n)
    # a third point
    k = rng.random()
    p = (ex.add(s[0], ex.mul(rng.randint(-3, 3), ex.sub(s[1], s[0]))) if k < 0.4 else
         ex.nudge(rng, ex.add(s[0], ex.mul(rng.randint(-2, 2), ex.sub(s[1], s[0])))) if k < 0.7 else ex.rpoint(rng, n, 6))
    P = f.pt(p)
    rp = ex.affine_rank([s[0], s[1], p])
    for A in (S, S.reverse()):
        case.check(bool(A.collinear(P)) == (rp <= 1), 'point collinear with a segment', how, p, rp)
        case.check(bool(A.coplanar(P)), 'a point is coplanar with a segment', how, p)
    if len({s[0], s[1], o[0], o[1]}) > 2:
        case.sig(how)
    case.sample({'kind': kind, 's': s, 'o': o, 'frame': repr(f)})


def larger(case):
    """Large coordinates and long segments on which absolute tolerances would fail."""
    rng = case.rng
    n = rng.choice([2, 3, 3, 4])
    u, v = ex.rvec(rng, n, 9), ex.rvec(rng, n, 9)
    p = ex.rpoint(rng, n, 300)
    a = sorted(rng.sample(range(-60, 60), 2))
    b = rng.sample(range(-60, 60), 2)
    k = rng.choice(['collinear', 'off', 'parallel', 'plane', 'offplane'])
    s = (ex.add(p, ex.mul(a[0], u)), ex.add(p, ex.mul(a[1], u)))
    o = (ex.add(p, ex.mul(b[0], u)), ex.add(p, ex.mul(b[1], u)))
    if k == 'off':
        o = (o[0], ex.nudge(rng, o[1]))
    elif k == 'parallel':
        o = (ex.add(o[0], v), ex.add(o[1], v))
    elif k in ('plane', 'offplane'):
        o = (ex.add(o[0], ex.mul(rng.randint(-20, 20), v)), ex.add(o[1], ex.mul(rng.randint(-20, 20), v)))
        if k == 'offplane':
            o = (o[0], ex.nudge(rng, o[1]))
    f = ex.Frame(rng, n, 2000, (-6, 0, 4, 12, 24))
    A, B = orders(rng, f.seg(s), f.seg(o))
    pts = [s[0], s[1], o[0], o[1]]
    if any(max(abs(x - y) for x, y in zip(x, y)) < 0.2 for i, x in enumerate(pts) for y in pts[:i] if x != y):
        raise ValueError
    r = ex.affine_rank(pts)
    how = (k, s, o, f)
    case.check(bool(A.collinear(B)) == (r <= 1), 'collinear long segments', how)
    case.check(bool(A.coplanar(B)) == (r <= 2), 'coplanar long segments', how)
    case.check(bool(A.parallel(B)) == (ex.parallel(s, o) or r <= 1 and A.seglen * B.seglen > 0), 'parallel long segments', how)
    case.ev('long ' + k)
    case.sig(how)
    case.sample({'kind': k, 's': s, 'o': o})


def narrow(rng, f, pts, dt):
    """Moves the frame so that the points fit the integer type (the type that holds them)."""
    if dt in ('uint8', 'uint16', 'uint32', 'int8') and pts:
        lo = [min(x) for x in zip(*pts)]
        top = max(max(x) - l for x, l in zip(zip(*pts), lo))
        base = np.iinfo(dt).min
        room = min(np.iinfo(dt).max, 4000) - base - top
        if room < 0:
            dt = 'int64'
        else:
            f.off = tuple(base - l + rng.choice([0, rng.randint(0, min(room, 4000)), rng.randint(0, min(room, 9))]) for l in lo)
            if base < 0 and rng.random() < 0.5:
                f.off = tuple(o + room // 2 for o in (base - l for l in lo))
    return dt


def isplane(case):
    rng = case.rng
    n = rng.choice([2, 3, 3, 3, 4, 5])
    m = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 30])
    k = rng.choice(['plane', 'plane', 'off', 'random', 'line', 'axis', 'const'])
    o, u, v = ex.rpoint(rng, n, 8), ex.rvec(rng, n, 3), ex.rvec(rng, n, 3)
    if k in ('plane', 'off'):
        pts = [ex.add(o, ex.add(ex.mul(rng.randint(-4, 4), u), ex.mul(rng.randint(-4, 4), v))) for _ in range(m)]
        if k == 'off' and m:
            i = rng.randrange(m)
            pts[i] = ex.nudge(rng, pts[i])
    elif k == 'line':
        pts = [ex.add(o, ex.mul(rng.randint(-9, 9), u)) for _ in range(m)]
    elif k == 'axis':
        c = rng.randrange(n)
        pts = [tuple(o[c] if j == c else x for j, x in enumerate(ex.rpoint(rng, n, 9))) for _ in range(m)]
    elif k == 'const':
        pts = [o] * m
    else:
        pts = [ex.rpoint(rng, n, 5) for _ in range(m)]
    dt = rng.choice(['float64'] * 3 + ['int64', 'int16', 'uint8', 'uint8', 'uint16', 'uint32', 'int8'])
    if dt == 'float64':
        f = ex.Frame(rng, n)
    else:
        f = ex.Frame(rng, n, 900, (0,))
        dt = narrow(rng, f, pts, dt)
    a = np.array([f(p) for p in pts], dtype=dt).reshape(m, n)
    want = m == 0 or ex.affine_rank(pts) <= 2 if m else True
    how = (k, pts[:8], f, dt)
    c = gen.curve(rng, a)
    case.check(bool(c.isplane) == want, 'isplane', how, c.isplane)
    case.check(bool(c.reverse().isplane) == want, 'isplane of the reversed curve', how)
    idx = list(range(n))
    rng.shuffle(idx)
    case.check(bool(Curve(a[:, idx]).isplane) == want, 'isplane after swapping axes', how)
    z = Curve(a, ndmin=n + rng.choice([1, 2]))
    case.check(bool(z.isplane) == want, 'isplane with added zero dimensions', how)
    case.check(c.isspatial == (n >= 3) and c.is2d == (n == 2) and c.is3d == (n == 3), 'dimension predicates', how)
    case.ev('plane curves' if want else 'spatial curves')
    if m > 3:
        case.sig(how)
    case.sample({'kind': k, 'points': pts[:6], 'plane': want})


def bigplane(case):
    """Curves of many points of which none, one or a few leave the plane."""
    rng = case.rng
    n = rng.choice([3, 3, 4])
    m = int(10 ** rng.uniform(1.6, 2.9))
    o, u = ex.rpoint(rng, n, 8), ex.rvec(rng, n, 3)
    while True:
        v = ex.rvec(rng, n, 3)
        if ex.rank([u, v]) == 2:
            break
    pts = [ex.add(o, ex.add(ex.mul(rng.randint(-6, 6), u), ex.mul(rng.randint(-6, 6), v))) for _ in range(m)]
    off = []
    if rng.random() < 0.75:
        off = rng.sample(range(m), rng.choice([1, 1, 1, 2, 3]))
        for i in off:
            pts[i] = ex.nudge(rng, pts[i])
    f = ex.Frame(rng, n, 300)
    a = np.array([f(p) for p in pts])
    if f.mix and f.k >= 0:
        dt = rng.choice(['int64', 'float32', 'uint8', 'uint16', 'int8']) if f.k < 4 else 'int64'
        if dt not in ('int64', 'float32'):
            f = ex.Frame(rng, n, 300, (0,))
            dt = narrow(rng, f, pts, dt)
            a = np.array([f(p) for p in pts])
        a = a.astype(dt)
    want = ex.affine_rank(pts) <= 2
    how = (m, off, [pts[i] for i in off], o, u, v, f, str(a.dtype))
    case.check(bool(Curve(a).isplane) == want, 'isplane of a curve of many points', how)
    if m < 200:
        case.check(bool(Curve(a[::-1]).isplane) == want, 'isplane of the reversed curve', how)
    case.ev('large plane curves' if want else 'large curves leaving a plane')
    case.sig(how)
    case.sample({'points': m, 'off the plane': off, 'plane': want})


def exact_angle(u, v):
    """atan2 of exact Gram quantities: accurate near 0 and pi as well."""
    g = ex.dot(u, u) * ex.dot(v, v) - ex.dot(u, v) ** 2
    return math.atan2(math.sqrt(g), ex.dot(u, v))


def warned(fn):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        r = fn()
    return r, any(issubclass(w.category, GeometryAlgorithmsWarning) for w in rec)


def angle(case):
    rng = case.rng
    n = dim(rng)
    kind, s, o = ex.rpair(rng, n, rng.choice([2, 6, 40]))
    f = ex.Frame(rng, n, 9000, (0, 0, 3, 10, -3, -10, -30, -60, 40))
    S, O = f.seg(s), f.seg(o)
    u, v = ex.sub(s[1], s[0]), ex.sub(o[1], o[0])
    how = (kind, s, o, f)
    if not any(u) or not any(v):
        for A, B in ((S, O), (O, S)):
            x, w = warned(lambda: A.angle(B))
            case.check(math.isnan(x), 'angle with a zero-length segment is NaN', how, x)
            case.check(w, 'angle with a zero-length segment warns', how)
        case.ev('undefined angles')
        return
    want = exact_angle(u, v)
    for A, B, e in ((S, O, want), (O, S, want), (S.reverse(), O, math.pi - want), (S, O.reverse(), math.pi - want),
                    (S.reverse(), O.reverse(), want), (O.reverse(), S, math.pi - want)):
        x, w = warned(lambda: A.angle(B))
        # the arc cosine of a correctly rounded cosine: exact to rounding in the cosine
        case.check(0 <= x <= math.pi and abs(x - e) < 1e-7 and abs(math.cos(x) - math.cos(e)) < 4e-15, 'angle', how, (A, B), x, e)
        case.check(not w, 'no warning for a defined angle', how)
    case.check(S.angle(S) < 1e-7 and abs(S.angle(S.reverse()) - math.pi) < 1e-7, 'angle with itself and its reverse', how)
    k = rng.randint(1, 6)
    x = S.angle(O, ndigits=k)
    case.check(abs(math.cos(x) - round(math.cos(want), k)) < 1e-9 or abs(abs(math.cos(want) * 10 ** k) % 1 - 0.5) < 1e-6, 'rounded angle', how, k, x)
    case.ev('angles')
    case.sig(how)
    case.sample({'s': s, 'o': o, 'angle': want})


def invariance(case):
    """Float figures: a predicate says the same in every order, direction and axis permutation."""
    rng = case.rng
    n = rng.choice([2, 3, 4])
    pts = [tuple(rng.uniform(-10, 10) for _ in range(n)) for _ in range(4)]
    perm = list(range(n))
    rng.shuffle(perm)
    mk = lambda p: Point([p[i] for i in perm])
    S, O = Segment(Point(pts[0]), Point(pts[1])), Segment(Point(pts[2]), Point(pts[3]))
    Sp, Op = Segment(mk(pts[0]), mk(pts[1])), Segment(mk(pts[2]), mk(pts[3]))
    for A, B in (orders(rng, S, O), orders(rng, Sp, Op)):
        case.check(not A.collinear(B) and not A.parallel(B), 'random segments are not collinear or parallel', pts)
        case.check(bool(A.coplanar(B)) == (n == 2), 'random segments are coplanar only in the plane', pts)
    case.check(abs(S.angle(O) - Sp.angle(Op)) < 1e-7, 'angle after swapping axes', pts)
    q = gen.rotation(rng, n)
    R = [Point(q @ np.array(p)) for p in pts]
    case.check(abs(S.angle(O) - Segment(R[0], R[1]).angle(Segment(R[2], R[3]))) < 1e-6, 'angle after rotation', pts)
    case.sig(pts)


def types(case):
    rng = case.rng
    n = rng.randint(2, 4)
    s = ex.rseg(rng, n, 5, 0)
    S = ex.Frame(rng, n).seg(s)
    bad = rng.choice([3, 'x', None, [1, 2], np.zeros(n), s, Curve([s[0], s[1]], axis=0)])
    case.raises(TypeError, lambda: S.collinear(bad), 'collinear with a wrong type', bad)
    case.raises(TypeError, lambda: S.coplanar(bad), 'coplanar with a wrong type', bad)
    case.raises(TypeError, lambda: S.angle(bad), 'angle with a wrong type', bad)
    case.raises(TypeError, lambda: S.angle(S.p1), 'angle with a point', bad)
    case.sig(s, str(bad))


FAMILIES = [
    ('predicates', 4000, 70000, predicates),
    ('larger', 1500, 25000, larger),
    ('isplane', 2500, 30000, isplane),
    ('bigplane', 160, 2500, bigplane),
    ('angle', 2500, 30000, angle),
    ('invariance', 600, 6000, invariance),
    ('types', 300, 2000, types),
]
