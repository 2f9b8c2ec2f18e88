"""C12: shortest segments and distances are minimal."""
from fractions import Fraction as F

import numpy as np

from skcurve import Curve, Point, Segment
from vlib import exact as ex, gen

RATIO = 1e-12
RULE = ('pairs of segments and points of chosen relative positions (crossing, touching, collinear, parallel, nearly parallel, '
        'degenerate, random), dims 1..6, lattice figures under exact similarities and random float figures; the exact '
        'minimal squared distance over the rationals is compared with the returned segment; non-trivial: distinct objects')
ASSUMPTIONS = ['distances agree within 1e-7 of the size of the figure']


def d2pts(p, q):
    d = np.asarray(p, dtype=np.float64) - np.asarray(q, dtype=np.float64)
    return float(np.sqrt(np.sum(d * d)))


def dseg(seg, p):
    """Float distance from p to the segment (a, b)."""
    a, b, p = (np.asarray(x, dtype=np.float64) for x in (seg[0], seg[1], p))
    u = b - a
    uu = float(u @ u)
    t = 0.0 if uu == 0 else min(1.0, max(0.0, float((p - a) @ u) / uu))
    return d2pts(p, a + t * u)


def variants(rng, S, O):
    """The same pair in all orders and directions: (first, second)."""
    v = []
    for A in (S, S.reverse()):
        for B in ((O, O.reverse()) if isinstance(O, Segment) else (O,)):
            v.append((A, B))
            if isinstance(O, Segment):
                v.append((B, A))
    rng.shuffle(v)
    return v


def ends(o):
    return (o.p1.data.tolist(), o.p2.data.tolist())


def verify(case, A, B, want, tol, how):
    s = A.shortest_segment(B)
    case.check(type(s) is Segment and s.ndim == A.ndim, 'a plain segment of the same dimension', how, s)
    p, q = s.p1.data.tolist(), s.p2.data.tolist()
    case.check(bool(np.all(np.isfinite(p)) and np.all(np.isfinite(q))), 'finite end points', how, s)
    ea = dseg(ends(A), p)
    case.check(ea <= tol, 'the shortest segment starts on the first segment', how, (A, B), s, ea)
    eb = dseg(ends(B), q) if isinstance(B, Segment) else d2pts(B.data, q)
    case.check(eb <= tol, 'the shortest segment ends on the other object', how, (A, B), s, eb)
    case.check(abs(d2pts(p, q) - want) <= tol, 'no closer pair of points exists', how, (A, B), s, d2pts(p, q), want)
    d = A.distance(B)
    case.check(abs(float(d) - d2pts(p, q)) <= 1e-9 * tol + 1e-12 * want, 'distance is the length of the shortest segment', how, d, d2pts(p, q))
    case.check(abs(float(d) - want) <= tol, 'distance is minimal', how, (A, B), d, want)
    case.ev('pairs measured')
    return s


def mkseg(f, s, rng):
    r = rng.random()
    a, b = f(s[0]), f(s[1])
    if r < 0.2 and len(a) > 1:
        c = Curve(np.array([a, b, a], dtype=f.dtypes([a, b, a])[0] if f.mix and a == b else 'float64'))
        return c.segments[0]
    return f.seg(s)


def lattice(case):
    rng = case.rng
    n = rng.choice([2, 2, 2, 3, 3, 3, 4, 5, 6, 1])
    kind, s, o = ex.rpair(rng, n, rng.choice([2, 4, 6, 25]))
    if rng.random() < 0.1:
        o = ex.rseg(rng, n, 4, 1.0)
    f = ex.Frame(rng, n, 9000, (0, 0, 0, 1, 3, 10, 20, -1, -3, -8, -20, 40))
    S, O = mkseg(f, s, rng), mkseg(f, o, rng)
    D = ex.dist2(s, o)
    want = float(D) ** 0.5 * f.scale
    size = (max(abs(x) for p in s + o for x in p) + max(map(abs, f.off)) * 1e-3 + 1) * f.scale
    how = (kind, s, o, f)
    for A, B in variants(rng, S, O)[:4]:
        verify(case, A, B, want, 1e-7 * size, how)
    case.ev('zero distance' if D == 0 else 'positive distance')
    case.ev('kind ' + kind)
    # a point
    p = rng.choice([ex.rpoint(rng, n, 8), s[0], s[1], ex.add(s[0], ex.mul(rng.randint(-2, 3), ex.sub(s[1], s[0])))])
    wp = float(ex.dist2_point(s, p)) ** 0.5 * f.scale
    P = f.pt(p)
    for A in (S, S.reverse()):
        g = verify(case, A, P, wp, 1e-7 * size, (how, p))
        case.check(g.p2 == P, 'the shortest segment to a point ends in the point', how, p, g)
    if s != o:
        case.sig(how)
    case.sample({'kind': kind, 's': s, 'o': o, 'distance2': str(D)})


def long(case):
    """Long segments with the nearest place anywhere, in particular very close to an end; far points and segments beside them."""
    rng = case.rng
    n = rng.choice([2, 2, 3, 3, 4])
    L = 2 ** rng.randint(6, 16)
    d = ex.rvec(rng, n, 2)
    a = ex.rpoint(rng, n, 20)
    s = (a, ex.add(a, ex.mul(L, d)))
    k = rng.choice([0, 1, 2, 3, rng.randint(0, L), L - 1, L - 2, L - 3, L, L + 1, -1, L - rng.randint(1, 9)])
    foot = ex.add(a, ex.mul(k, d))
    if rng.random() < 0.8:
        w = ex.rvec(rng, n, 2)
        # orthogonal to d, times d.d
        w = ex.sub(ex.mul(ex.dot(d, d), w), ex.mul(ex.dot(w, d), d))
    else:
        w = ex.rpoint(rng, n, 3)
    p = ex.add(foot, w)
    f = ex.Frame(rng, n, 50, (0, 0, 0, 3, -3))
    S, P = mkseg(f, s, rng), f.pt(p)
    size = (max(abs(x) for q in s + (p,) for x in q) + max(map(abs, f.off)) + 1) * f.scale
    how = (s, p, k, L, f)
    want = float(ex.dist2_point(s, p)) ** 0.5 * f.scale
    for A in (S, S.reverse()):
        verify(case, A, P, want, 1e-9 * size, how)
    q = ex.add(p, rng.choice([w, ex.rpoint(rng, n, 4), ex.mul(rng.randint(1, 3), d)]))
    o = (p, q)
    O = mkseg(f, o, rng)
    want = float(ex.dist2(s, o)) ** 0.5 * f.scale
    for A, B in variants(rng, S, O)[:4]:
        verify(case, A, B, want, 1e-7 * size, how)
    case.ev('long segments')
    case.sig(how)
    case.sample({'s': s, 'p': p, 'k': k})


def ratio(case):
    """A very short segment close to a very long one: the lengths differ by up to 2**29, the distance by as much from the length."""
    rng = case.rng
    n = rng.choice([2, 2, 3, 3, 4])
    L = 2 ** rng.randint(17, 29)
    d = ex.rvec(rng, n, 2)
    if not any(d):
        d = tuple([1] + [0] * (n - 1))
    a = ex.rpoint(rng, n, 20)
    s = (a, ex.add(a, ex.mul(L, d)))
    k = rng.choice([0, 1, -1, 2, L, L + 1, L - 1, L // 2, rng.randint(0, L), rng.randint(0, L), rng.randint(0, L)])
    foot = ex.add(a, ex.mul(k, d))
    p = ex.add(foot, rng.choice([ex.rpoint(rng, n, 3), ex.rpoint(rng, n, 3), ex.mul(rng.randint(-2, 2), d)]))
    o = (p, ex.add(p, rng.choice([ex.rvec(rng, n, 3), ex.rvec(rng, n, 3), d])))
    if rng.random() < 0.2:
        # across the foot
        v = ex.rvec(rng, n, 2)
        o = (ex.sub(foot, v), ex.add(foot, v))
    f = ex.Frame(rng, n, 50, (0, 0, 0, 3, -3, -10))
    S, O = f.seg(s), f.seg(o)
    size = (max(abs(x) for q in s + o for x in q) + max(map(abs, f.off)) + 1) * f.scale
    how = (s, o, k, f)
    want = float(ex.dist2(s, o)) ** 0.5 * f.scale
    for A, B in variants(rng, S, O)[:4]:
        verify(case, A, B, want, RATIO * size, how)
    case.ev('lengths of ratio 2**%d' % (L.bit_length() - 1))
    case.sig(how)
    case.sample({'s': s, 'o': o, 'distance2': str(ex.dist2(s, o))})


def floats(case):
    rng = case.rng
    n = rng.choice([2, 3, 3, 4])
    k = rng.choice(['random', 'near', 'nearpar', 'cross', 'far', 'long'])
    R = lambda h=10: [rng.uniform(-h, h) for _ in range(n)]
    a, b, c, d = R(), R(), R(), R()
    if k == 'near':
        c = [x + rng.uniform(-1e-3, 1e-3) for x in a]
    elif k == 'nearpar':
        e = 10.0 ** rng.uniform(-9, -2)
        z = R(3)
        c = [x + y for x, y in zip(a, z)]
        d = [x + y + rng.uniform(-e, e) for x, y in zip(b, z)]
    elif k == 'cross':
        m = R()
        t, r = rng.uniform(0.1, 2), rng.uniform(0.1, 2)
        b = [y + t * (y - x) for x, y in zip(a, m)]
        d = [y + r * (y - x) for x, y in zip(c, m)]
    elif k == 'far':
        c, d = [x + 1e3 for x in c], [x + 1e3 for x in d]
    elif k == 'long':
        b = [1e3 * x for x in b]
    fr = [tuple(F(x) for x in p) for p in (a, b, c, d)]
    S, O = Segment(Point(a), Point(b)), Segment(Point(c), Point(d))
    want = float(ex.dist2((fr[0], fr[1]), (fr[2], fr[3]))) ** 0.5
    size = max(abs(x) for p in (a, b, c, d) for x in p)
    how = (k, a, b, c, d)
    for A, B in variants(rng, S, O)[:3]:
        verify(case, A, B, want, 1e-6 * size if k == 'nearpar' else 1e-7 * size, how)
    p = fr[2]
    verify(case, S, Point(c), float(ex.dist2_point((fr[0], fr[1]), p)) ** 0.5, 1e-8 * size, how)
    case.ev('float ' + k)
    case.sig(how)
    case.sample({'kind': k, 'points': [a, b, c, d]})


def invariance(case):
    rng = case.rng
    n = rng.choice([2, 3, 4])
    kind, s, o = ex.rpair(rng, n, 6)
    S, O = (Segment(Point(x[0]), Point(x[1])) for x in (s, o))
    d = S.distance(O)
    how = (kind, s, o)
    perm = list(range(n))
    rng.shuffle(perm)
    v = [float(rng.randint(-50, 50)) for _ in range(n)]
    q = gen.rotation(rng, n)
    k = rng.choice([0.25, 3.0, 100.0, 1e-3])
    mp = {'permuted axes': (lambda p: [p[i] for i in perm], 1), 'translated': (lambda p: [x + y for x, y in zip(p, v)], 1),
          'rotated': (lambda p: q @ np.array(p), 1), 'scaled': (lambda p: [k * x for x in p], k), 'mirrored': (lambda p: [-p[0]] + list(p[1:]), 1),
          'in higher dimension': (lambda p: list(p) + [0.0, 5.0], 1)}
    for name, (g, sc) in mp.items():
        A, B = (Segment(Point(g(x[0])), Point(g(x[1]))) for x in (s, o))
        case.check(abs(A.distance(B) - sc * d) <= 1e-7 * sc * 20, 'distance of the %s figure' % name, how, A.distance(B), d)
        case.check(abs(B.distance(A) - sc * d) <= 1e-7 * sc * 20, 'symmetric distance of the %s figure' % name, how)
    case.check(S.distance(S) == 0 and S.distance(S.reverse()) <= 1e-9, 'distance to itself', how)
    case.sig(how)


def types(case):
    rng = case.rng
    s = ex.rseg(rng, 3, 5, 0)
    S = Segment(Point(s[0]), Point(s[1]))
    bad = rng.choice([3, 'x', None, list(s[0]), np.zeros(3), s, Curve([s[0], s[1]], axis=0)])
    case.raises(TypeError, lambda: S.shortest_segment(bad), 'shortest_segment to a wrong type', bad)
    case.raises(TypeError, lambda: S.distance(bad), 'distance to a wrong type', bad)
    case.sig(s, str(bad))


FAMILIES = [
    ('lattice', 3500, 60000, lattice),
    ('floats', 1800, 30000, floats),
    ('long', 1500, 25000, long),
    ('ratio', 1200, 20000, ratio),
    ('invariance', 900, 12000, invariance),
    ('types', 200, 1000, types),
]
