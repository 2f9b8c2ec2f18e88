"""C14: exact intersection of two segments against exact rational arithmetic."""
import numpy as np

import skcurve as sk
from skcurve import Curve, IntersectionInfo, IntersectionType, NOT_INTERSECTED, Point, Segment, SegmentsIntersection
from checks.c12 import dseg
from vlib import exact as ex, gen

RULE = ('pairs of lattice segments of chosen relative positions (crossing, touching inside and at ends, shared ends, collinear '
        'with and without common part, parallel, skew, degenerate, one unit off), dims 1..6, exact similarities, all orders and '
        'directions, against exact rational intersection; result objects read in random order; non-trivial: distinct segments')
ASSUMPTIONS = ['coordinates exactly representable, no configuration within 1e-5 of a boundary case without being on it',
               'points agree within 1e-9 of the size of the figure']

E, O, N, A = IntersectionType.EXACT, IntersectionType.OVERLAP, IntersectionType.NONE, IntersectionType.ALMOST


def result(case, r, S, T, how):
    """The readings of one result object are consistent, in whatever order they are taken."""
    rng = case.rng
    got = {}
    for name in rng.sample(['intersect_info', 'intersect_type', 'intersect_point', 'intersect_segment', 'segment1', 'segment2', 'bool', 'repr'], 8):
        got[name] = bool(r) if name == 'bool' else repr(r) if name == 'repr' else getattr(r, name)
    t, info = got['intersect_type'], got['intersect_info']
    case.check(type(r) is SegmentsIntersection and isinstance(t, IntersectionType), 'result type', how, r)
    case.check(got['segment1'] is S and got['segment2'] is T, 'the result carries its segments in order', how, r)
    case.check(isinstance(info, IntersectionInfo) and info.type is t, 'info carries the type', how, info)
    case.check(got['bool'] == (t is not N), 'truth value', how, r)
    p, s = got['intersect_point'], got['intersect_segment']
    if t is N:
        case.check(info.data is None and p is None and s is None and info == NOT_INTERSECTED, 'no data without intersection', how, r)
    elif t is E:
        case.check(isinstance(info.data, Point) and p is info.data, 'the point is the data of an EXACT intersection', how, r)
        case.check(isinstance(s, Segment) and s.p1 == p and s.p2 == p and s.data.tolist() == [p.data.tolist()] * 2, 'the segment of an EXACT intersection is its point', how, s)
    else:
        case.check(isinstance(info.data, Segment) and s is info.data, 'the segment is the data of the intersection', how, r)
        a, b = s.p1.data.astype(float), s.p2.data.astype(float)
        case.check(gen.close(p.data, a + (b - a) / 2, 1e-12, 1e-12 * float(np.max(np.abs([a, b]), initial=0))), 'the point is the middle of the segment', how, p, s)
    for x in (p, s):
        if x is not None:
            case.check(x.ndim == S.ndim, 'dimension of the data', how, x)
    return t, info.data


def compare(case, r, S, T, s, t, f, how, ptol=1e-9):
    if ex.marginal(s, t):
        case.check(True, '')
        case.ev('marginal')
        return
    kind, w = ex.intersect(s, t)
    got, data = result(case, r, S, T, how)
    want = {'none': N, 'point': E, 'overlap': O}[kind]
    case.check(got is want, 'type of the intersection is %s' % want.name, how, (S, T), got.name, data)
    size = (max([abs(x) for p in s + t for x in p]) + max(map(abs, f.off)) + 1) * f.scale
    if want is E:
        case.check(gen.close(data.data, f.float(w), 0, ptol * size), 'point of the intersection', how, (S, T), data, f.float(w))
        for g in (S, T):
            case.check(dseg((g.p1.data, g.p2.data), data.data) <= ptol * size, 'the point is on both segments', how, data)
    elif want is O:
        ends = sorted([tuple(data.p1.data.tolist()), tuple(data.p2.data.tolist())])
        case.check(ends == sorted([f(w[0]), f(w[1])]), 'overlap is the common part', how, (S, T), data, w)
    case.ev(want.name + ('' if want is not O else ' touching' if w[0] == w[1] else ' proper'))


def mkseg(f, s, rng):
    a, b = f(s[0]), f(s[1])
    r = rng.random()
    if r < 0.2 and len(a) > 1:
        return Curve([a, b, a], axis=0).segments[0]
    return f.seg(s)


def call(rng, S, T):
    k = rng.randint(0, 3)
    if k == 0:
        return S.intersect(T)
    if k == 1:
        return S.intersect(T, method='exact')
    if k == 2:
        return S.intersect(T, method=sk.get_intersect_method('exact'))
    return sk.get_intersect_method('exact')(S, T)


def lattice(case):
    rng = case.rng
    n = rng.choice([2, 2, 2, 2, 3, 3, 3, 4, 5, 6, 1])
    kind, s, t = ex.rpair(rng, n, rng.choice([2, 4, 6, 25]))
    f = ex.Frame(rng, n, 2000, (0, 0, 0, 1, 3, 10, -1, -3, -12, -22, 20))
    S, T = mkseg(f, s, rng), mkseg(f, t, rng)
    how = (kind, s, t, f)
    case.rec(how)
    combos = [(S, T, s, t), (T, S, t, s), (S.reverse(), T, s[::-1], t), (S, T.reverse(), s, t[::-1]), (T.reverse(), S.reverse(), t[::-1], s[::-1])]
    for X, Y, x, y in combos:
        compare(case, call(rng, X, Y), X, Y, x, y, f, how)
    # the same figure with the axes permuted
    perm = list(range(n))
    rng.shuffle(perm)
    ps, pt = (tuple(tuple(p[i] for i in perm) for p in z) for z in (s, t))
    f.off = tuple(f.off[i] for i in perm)
    X, Y = mkseg(f, ps, rng), mkseg(f, pt, rng)
    compare(case, call(rng, X, Y), X, Y, ps, pt, f, ('axes permuted', how))
    case.ev('dimension %d' % n)
    if set(s) != set(t):
        case.sig(how)
    case.sample({'kind': kind, 's': s, 't': t, 'frame': repr(f)})


def wide(case):
    """Segments of very different lengths, nearly parallel ones, and misses by a small part of the length."""
    rng = case.rng
    n = rng.choice([2, 2, 3, 3, 4])
    L = rng.choice([2, 5, 30])
    big = lambda: int(10 ** rng.uniform(0, 3))
    p, u = ex.rpoint(rng, n, 5), ex.rvec(rng, n, L)
    if rng.random() < 0.4:
        # nearly parallel
        k = rng.choice([1, 2, -1, 30])
        v = ex.add(ex.mul(k, u), ex.rvec(rng, n, 1))
        if rng.random() < 0.5:
            u = ex.mul(30, u)
            v = ex.add(u, ex.rvec(rng, n, 1))
    else:
        v = ex.rvec(rng, n, L)

    def around(d):
        k = rng.choice(['across', 'across', 'across', 'touch', 'miss', 'miss', 'far'])
        a, b = big(), big()
        if k == 'across':
            r = (-a, b)
        elif k == 'touch':
            r = (0, b)
        elif k == 'miss':
            r = (1, 1 + b)
        else:
            r = (a, a + b)
        if rng.random() < 0.5:
            r = (-r[0], -r[1])
        if rng.random() < 0.5:
            r = r[::-1]
        return k, (ex.add(p, ex.mul(r[0], d)), ex.add(p, ex.mul(r[1], d)))
    ks, s = around(u)
    kt, t = around(v)
    if rng.random() < 0.15:
        t = (ex.nudge(rng, t[0]), t[1])
        kt += ' nudged'
    f = ex.Frame(rng, n, 300, (0, 0, 3, -4, -18, 16))
    S, T = mkseg(f, s, rng), mkseg(f, t, rng)
    how = (ks, kt, s, t, f)
    case.rec(how)
    for X, Y, x, y in ((S, T, s, t), (T, S, t, s), (S.reverse(), T, s[::-1], t), (T.reverse(), S.reverse(), t[::-1], s[::-1])):
        compare(case, call(rng, X, Y), X, Y, x, y, f, how, 1e-8)
    case.ev('wide %s/%s' % tuple(sorted((ks, kt))))
    case.sig(how)
    case.sample({'s': s, 't': t, 'frame': repr(f)})


def grid(case):
    """All pairs of segments on a tiny lattice, in blocks."""
    rng = case.rng
    n, k = rng.choice([(2, 2), (2, 3), (3, 2)])
    pts = [()]
    for _ in range(n):
        pts = [p + (x,) for p in pts for x in range(k)]
    segs = [(p, q) for p in pts for q in pts if p <= q]
    f = ex.Frame(rng, n, 500, (0, 0, 2, -2, -20, 20))
    for _ in range(25):
        s, t = rng.choice(segs), rng.choice(segs)
        S, T = f.seg(s), f.seg(t)
        compare(case, call(rng, S, T), S, T, s, t, f, (s, t, f))
        case.sig(s, t)
    case.sample({'n': n, 'k': k})


def floats(case):
    """Random float segments in the plane: side-of-line signs decide, clear cases only."""
    rng = case.rng
    from fractions import Fraction as F
    p = [tuple(rng.uniform(-10, 10) for _ in range(2)) for _ in range(4)]
    fr = [tuple(F(x) for x in q) for q in p]
    u, v = ex.sub(fr[1], fr[0]), ex.sub(fr[3], fr[2])
    d = u[0] * v[1] - u[1] * v[0]
    if abs(d) < F(1, 1000):
        case.check(True, '')
        return
    w = ex.sub(fr[2], fr[0])
    t, r = (w[0] * v[1] - w[1] * v[0]) / d, (w[0] * u[1] - w[1] * u[0]) / d
    if any(abs(x - y) < F(1, 5000) for x in (t, r) for y in (0, 1)):
        case.check(True, '')
        return
    hit = 0 < t < 1 and 0 < r < 1
    S, T = Segment(Point(p[0]), Point(p[1])), Segment(Point(p[2]), Point(p[3]))
    for X, Y in ((S, T), (T, S), (S.reverse(), T), (T, S.reverse())):
        i = call(rng, X, Y)
        got, data = result(case, i, X, Y, p)
        case.check(got is (E if hit else N), 'crossing of float segments', p, got, float(t), float(r))
        if hit:
            case.check(gen.close(data.data, [float(x) for x in ex.lerp(fr[0], fr[1], t)], 0, 1e-9), 'point of the crossing', p, data)
    case.ev('float crossings' if hit else 'float misses')
    case.sig(p)
    case.sample({'points': p, 'hit': hit})


def objects(case):
    rng = case.rng
    n = rng.randint(2, 4)
    a, b = ex.rseg(rng, n, 5, 0)
    P, S, T = Point(a), Segment(Point(a), Point(b)), Segment(Point(b), Point(a))
    for typ, data in ((E, P), (O, S), (A, S)):
        info = typ(data)
        case.check(info.type is typ and info.data is data, 'info of %s' % typ.name, info)
        r = SegmentsIntersection(S, T, info)
        result(case, r, S, T, (typ.name, a, b))
    case.check(N() == NOT_INTERSECTED and N(None) == NOT_INTERSECTED and NOT_INTERSECTED.type is N and NOT_INTERSECTED.data is None, 'NOT_INTERSECTED')
    result(case, SegmentsIntersection(segment1=S, segment2=T, intersect_info=NOT_INTERSECTED), S, T, 'none')
    for typ, bad in ((E, S), (E, None), (O, P), (O, None), (A, P), (A, 3), (N, P), (N, S)):
        case.raises(ValueError, lambda: typ(bad), 'wrong data for %s' % typ.name, bad)
    other = Segment(Point(a + (0,)), Point(b + (1,)))
    case.raises(ValueError, lambda: S.intersect(other), 'segments of different dimension')
    case.raises(ValueError, lambda: other.intersect(S), 'segments of different dimension')
    case.sig(a, b)


FAMILIES = [
    ('lattice', 3500, 60000, lattice),
    ('wide', 1200, 18000, wide),
    ('grid', 400, 8000, grid),
    ('floats', 1500, 20000, floats),
    ('objects', 200, 2000, objects),
]
