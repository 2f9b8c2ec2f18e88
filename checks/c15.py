"""C15: curve intersections are exactly the intersecting pairs of segments."""
from fractions import Fraction as F

import numpy as np

import skcurve as sk
from skcurve import Curve, IntersectionType, Point, Segment
from checks.c14 import result
from vlib import exact as ex, gen

RULE = ('pairs of lattice curves (walks, zigzags, closed, overlapping, with repeated points and retraced parts), curve with segment '
        'in both orders, curve with itself, with its copy and with its own segments, dims 2..4; the list of results is compared with '
        'the exact all-pairs enumeration and with the segments intersected one by one; non-trivial: at least one intersection')
ASSUMPTIONS = ['coordinates exactly representable; in the float family pairs within 1e-4 of a boundary case may go either way']

NAMES = {'point': IntersectionType.EXACT, 'overlap': IntersectionType.OVERLAP}


def lrows(rng, m, n, L=4):
    k = rng.choice(['walk', 'walk', 'random', 'axiswalk', 'zigzag', 'retrace', 'closed', 'dup', 'staircase'])
    if k == 'random':
        d = [ex.rpoint(rng, n, L) for _ in range(m)]
    elif k == 'walk':
        p, d = ex.rpoint(rng, n, L), []
        for _ in range(m):
            d.append(p)
            p = tuple(x + rng.randint(-2, 2) for x in p)
    elif k in ('axiswalk', 'staircase'):
        p, d = ex.rpoint(rng, n, 2), []
        for i in range(m):
            d.append(p)
            q = list(p)
            j = i % n if k == 'staircase' else rng.randrange(n)
            q[j] += rng.choice([1, 1, 2, -1]) if k == 'axiswalk' else 1
            p = tuple(q)
    elif k == 'zigzag':
        d = [(i % 3 - 1 + rng.randint(0, 1), i // 2 if i % 2 else -i // 3) + tuple(rng.randint(0, 1) for _ in range(n - 2)) for i in range(m)]
    elif k == 'retrace':
        h = [ex.rpoint(rng, n, L) for _ in range(m // 2 + 1)]
        d = (h + h[::-1])[:m]
    elif k == 'closed':
        d = [ex.rpoint(rng, n, L) for _ in range(m)]
        if m > 1:
            d[-1] = d[0]
    else:
        b = [ex.rpoint(rng, n, 2) for _ in range(max(1, m // 2))]
        d = [rng.choice(b) for _ in range(m)]
    if n == 3 and rng.random() < 0.5:
        d = [p[:2] + (0,) for p in d]
    return k, d


def pairs_of(c, d, rows1, rows2, self_):
    s1, s2 = list(zip(rows1, rows1[1:])), list(zip(rows2, rows2[1:]))
    out = []
    for i, s in enumerate(s1):
        lo = [min(a) for a in zip(*s)]
        hi = [max(a) for a in zip(*s)]
        for j, t in enumerate(s2):
            if self_ and j < i + 2:
                continue
            if any(max(a) < l or min(a) > h for a, l, h in zip(zip(*t), lo, hi)):
                continue
            k, w = ex.intersect(s, t)
            if k != 'none':
                out.append((i, j, k, w))
    return out


def check_list(case, res, want, segs1, segs2, f, how, one_by_one=True):
    """segs1/segs2: functions from index to the expected segment object (by identity)."""
    case.check(isinstance(res, list), 'a list of results', how, type(res))
    got = []
    for r in res:
        a, b = r.segment1, r.segment2
        got.append((getattr(a, 'idx', None), getattr(b, 'idx', None)))
    idx = [(i, j) for i, j, _, _ in want]
    seen = [(i if segs1[1] else None, j if segs2[1] else None) for i, j in idx]
    case.check(got == seen, 'one result for every intersecting pair of segments, in ascending order', how, got, seen)
    deep = set(case.rng.sample(range(len(want)), min(len(want), 10)))
    for pos, (r, (i, j, k, w)) in enumerate(zip(res, want)):
        a, b = segs1[0](i), segs2[0](j)
        case.check((r.segment1 is a if not segs1[1] else r.segment1.curve is segs1[2] and r.segment1.idx == i) and
                   (r.segment2 is b if not segs2[1] else r.segment2.curve is segs2[2] and r.segment2.idx == j), 'the result carries the segments of its operands', how, i, j, r)
        if pos in deep:
            case.check(r.segment1.data.tolist() == a.data.tolist() and r.segment2.data.tolist() == b.data.tolist(), 'coordinates of the carried segments', how, i, j)
        if pos in deep:
            t, data = result(case, r, r.segment1, r.segment2, how)
        else:
            t, data = r.intersect_type, r.intersect_info.data
        case.check(t is NAMES[k], 'type of a pair', how, i, j, t, k)
        scale = f.scale * (40 + max(map(abs, f.off)))
        if k == 'point':
            case.check(gen.close(data.data, f.float(w), 0, 1e-9 * scale), 'point of a pair', how, i, j, data, w)
        else:
            ends = sorted([tuple(data.p1.data.tolist()), tuple(data.p2.data.tolist())])
            case.check(ends == sorted([f(w[0]), f(w[1])]), 'overlap of a pair', how, i, j, data, w)
        if one_by_one and pos in deep:
            alone = a.intersect(b, method='exact')
            case.check(alone.intersect_type is t, 'same type as the pair alone', how, i, j)
            case.check(gen.close(alone.intersect_point.data, r.intersect_point.data, 0, 1e-12 * scale), 'same point as the pair alone', how, i, j)
        case.ev('results ' + k)
    case.ev('lists compared')


def setup(case, big=False):
    rng = case.rng
    n = rng.choice([2, 2, 2, 3, 3, 4])
    size = (lambda: rng.randint(15, 50)) if big else (lambda: rng.choice([2, 2, 3, 4, 5, 6, 8, 12]))
    f = ex.Frame(rng, n, 800, (0, 0, 0, 2, -2))
    k1, r1 = lrows(rng, size(), n, 9 if big else 4)
    k2, r2 = lrows(rng, size(), n, 9 if big else 4)
    if rng.random() < 0.2:
        r2 = r1[:rng.randint(1, len(r1))] + r2
    if rng.random() < 0.15:
        r2 = [ex.add(p, tuple(1 if q == 0 else 0 for q in range(n))) for p in r1]
    if rng.random() < 0.25:
        # curve 1 on whole numbers, its partner on halves or quarters
        f.k = rng.choice([-1, -1, -2])
        f.scale = 2.0 ** f.k
        h = 2 ** -f.k
        f.off = ex.mul(h, f.off)
        r1 = [ex.mul(h, p) for p in r1]
        k = rng.random()
        if k < 0.3:
            r2 = [ex.mul(h, p) for p in r2]
        elif k < 0.7:
            r2 = [ex.add(ex.mul(h - 1, p), ex.rpoint(rng, n, 1)) for p in r2]
    return rng, n, f, (k1, k2), r1, r2


def curve(case, f, rows, n):
    a = np.array([f(p) for p in rows], dtype=np.float64).reshape(len(rows), n)
    whole = bool(np.all(a == np.round(a)))
    dt = case.rng.choice(['float64'] * 3 + ['int64', 'int32', 'int16', 'float32']) if whole else 'float64'
    if whole and f.k < 0:
        dt = case.rng.choice(['float64', 'int64', 'int64', 'int32'])
    if np.max(np.abs(a), initial=0) >= 2.0 ** {'int16': 12, 'int32': 28, 'float32': 23}.get(dt, 40) or np.any(a.astype(dt) != a):
        dt = 'float64'
    t = gen.tdata(case.rng, len(rows)) if case.rng.random() < 0.2 else None
    case.ev('curves of type ' + dt)
    return gen.curve(case.rng, a.astype(dt), t, 0.3)


def kwargs(rng):
    return rng.choice([{}, {'method': 'exact'}, {'method': sk.get_intersect_method('exact')}])


def two(case, big=False):
    rng, n, f, kinds, r1, r2 = setup(case, big)
    c, d = curve(case, f, r1, n), curve(case, f, r2, n)
    how = (kinds, r1[:20], r2[:20], f, str(c.dtype), str(d.dtype))
    want = pairs_of(c, d, r1, r2, False)
    side = lambda x: ((lambda i: x.segments[i]), True, x)
    check_list(case, c.intersect(d, **kwargs(rng)), want, side(c), side(d), f, how, not big)
    back = sorted((j, i, k, w) for i, j, k, w in want)
    check_list(case, d.intersect(c, **kwargs(rng)), back, side(d), side(c), f, how, not big)
    # reversed curves meet in the same pairs, counted from the other end
    e = c.reverse()
    rev = sorted((len(r1) - 2 - i, j, k, w) for i, j, k, w in want)
    check_list(case, e.intersect(d), rev, side(e), side(d), f, how, False)
    if want:
        case.sig(how)
    case.sample({'kinds': kinds, 'curve1': r1[:8], 'curve2': r2[:8], 'results': [w[:3] for w in want[:8]]})


def large(case):
    two(case, True)


def selfint(case):
    rng, n, f, kinds, r1, r2 = setup(case, case.rng.random() < 0.04)
    c = curve(case, f, r1, n)
    how = (kinds[0], r1[:30], f, str(c.dtype))
    want = pairs_of(c, c, r1, r1, True)
    side = lambda x: ((lambda i: x.segments[i]), True, x)
    for r in (c.intersect(**kwargs(rng)), c.intersect(c, **kwargs(rng))):
        check_list(case, r, want, side(c), side(c), f, how)
        case.check(all(x.segment1.idx < x.segment2.idx - 1 for x in r), 'never a segment with itself or its neighbour', how)
    e = rng.choice([Curve(c), c[:]])
    full = pairs_of(c, e, r1, r1, False)
    check_list(case, c.intersect(e), full, side(c), side(e), f, ('with a copy', how), False)
    case.check({(i, j) for i, j, _, _ in full if j > i + 1} == {(i, j) for i, j, _, _ in want}, 'oracles agree', how)
    case.ev('self-intersections', len(want))
    if want:
        case.sig(how)
    case.sample({'kind': kinds[0], 'curve': r1[:8], 'results': [w[:3] for w in want[:8]]})


def segment(case):
    rng, n, f, kinds, r1, _ = setup(case, case.rng.random() < 0.05)
    c = curve(case, f, r1, n)
    own = len(r1) > 1 and rng.random() < 0.25
    if own:
        s = c.segments[rng.randrange(len(r1) - 1)]
        lat = (r1[s.idx], r1[s.idx + 1])
    else:
        lat = ex.rseg(rng, n, 6 if f.k >= 0 else 20, 0.1) if rng.random() < 0.6 else (rng.choice(r1), ex.rpoint(rng, n, 5))
        s = f.seg(lat)
    how = (kinds[0], r1[:30], lat, f)
    want = [(i, 0, k, w) for i, _, k, w in pairs_of(c, None, r1, list(lat), False)]
    side = ((lambda i: c.segments[i]), True, c)
    one = ((lambda j: s), False, None)
    if own:
        one = ((lambda j: s), True, c)
        want1 = [(i, s.idx, k, w) for i, _, k, w in want]
        want2 = [(s.idx, i, k, w) for i, _, k, w in want]
    else:
        want1, want2 = want, [(0, i, k, w) for i, _, k, w in want]
    r = c.intersect(s, **kwargs(rng))
    check_list(case, r, want1, side, one, f, how)
    case.check(all(x.segment2 is s for x in r), 'the segment operand itself is carried', how)
    r = s.intersect(c, **kwargs(rng))
    check_list(case, r, want2, one, side, f, how)
    case.check(all(x.segment1 is s for x in r), 'the segment operand itself is carried', how)
    case.ev('curve-segment results', len(want))
    if want:
        case.sig(how)
    case.sample({'curve': r1[:8], 'segment': lat, 'results': [w[:3] for w in want[:8]]})


def empty(case):
    rng = case.rng
    n = rng.randint(2, 4)
    k, r = lrows(rng, rng.choice([0, 1, 1, 2, 6]), n)
    c = Curve(np.array(r, dtype=float).reshape(len(r), n))
    z = [Curve([], ndmin=n), Curve(np.array([r[0] if r else (0,) * n], dtype=float)), Curve(np.array(ex.rpoint(rng, n, 3), dtype=float).reshape(1, n))]
    s = Segment(Point((0,) * n), Point((1,) * n))
    kw = rng.choice([{}, {'method': 'exact'}, {'method': 'almost'}, {'method': 'almost', 'dist_tol': 5.0, 'remove_extra': True, 'correct_overlap': True}])
    for e in z:
        for a, b in ((c, e), (e, c), (e, e), (e, s), (e, None), (s, e), (e, Curve(e))):
            x = a.intersect(b, **kw)
            case.check(isinstance(x, list) and not x, 'empty and one-point curves intersect nothing', r, a, b, kw, x)
            case.ev('empty operands')
    other = Curve(np.zeros((3, n + 1)))
    os = Segment(Point((0,) * (n + 1)), Point((1,) * (n + 1)))
    for a, b in ((c, other), (other, c), (c, os), (os, c), (s, other), (other, s), (z[0], other), (other, z[1]), (c, Curve([], ndmin=n + 1))):
        case.raises(ValueError, lambda: a.intersect(b, **kw), 'operands of different dimension', a, b, kw)
    m = sk.get_intersect_method(kw.get('method', 'exact'))
    bad = rng.choice([5, 'x', None, [[1, 2], [3, 4]], Point((0,) * n), np.zeros((2, n))])
    for a, b in ((c, bad), (bad, s), (bad, bad)):
        case.raises(TypeError, lambda: m(a, b), 'a method object called with other operands', a, b)
    for a, b in ((c, other), (os, s), (s, other), (z[0], os)):
        case.raises(ValueError, lambda: m(a, b), 'a method object called with operands of different dimension', a, b)
    case.sig(n, r)


def history(case):
    """One method object serving many curves in turn gives what a fresh one gives."""
    rng = case.rng
    n = rng.choice([2, 2, 3])
    m = sk.get_intersect_method('exact')
    cs = []
    for _ in range(rng.randint(2, 4)):
        f = ex.Frame(rng, n, 10, (0,))
        f.off = (0,) * n
        k, r = lrows(rng, rng.randint(2, 9), n)
        cs.append((curve(case, f, r, n), r))
    side = lambda x: ((lambda i: x.segments[i]), True, x)
    found = 0
    for _ in range(rng.randint(3, 8)):
        (c, r), (d, q) = rng.choice(cs), rng.choice(cs)
        want = pairs_of(c, d, r, q, c is d)
        found += len(want)
        case.rec(r, q)
        check_list(case, c.intersect(d, method=m) if rng.random() < 0.7 else c.intersect(d), want, side(c), side(d), f, (r, q, 'shared method object'), False)
    if found:
        case.sig(case.log)
    case.sample({'curves': [r for _, r in cs][:3]})


def comb(rng, M, n):
    """A zigzag of M segments along the first axis and polylines and segments that run through its middle."""
    up = rng.choice([1, 2, 5])
    r1 = [(2 * i, up if i % 2 else -up) + (0,) * (n - 2) for i in range(M + 1)]
    M2 = rng.choice([1, 1, 2, M, M + rng.randint(1, 90), rng.randint(1, M)])
    x = sorted(rng.sample(range(-3, 2 * M + 60), M2 - 1)) if M2 > 1 else []
    y = rng.choice([0, 0, up - 1])
    r2 = [(q, y) + (0,) * (n - 2) for q in [-4] + x + [2 * M + 64]]
    if rng.random() < 0.3:
        r2 = r2[::-1]
    return r1, r2


def huge(case):
    """Hundreds of segments and results."""
    rng = case.rng
    n = rng.choice([2, 2, 3])
    M = rng.randint(257, 420)
    r1, r2 = comb(rng, M, n)
    f = ex.Frame(rng, n, 10, (0,))
    f.off = (0,) * n
    c, d = curve(case, f, r1, n), curve(case, f, r2, n)
    how = (M, len(r2), r2[:5], str(c.dtype), str(d.dtype))
    want = pairs_of(c, d, r1, r2, False)
    side = lambda x: ((lambda i: x.segments[i]), True, x)
    if rng.random() < 0.5:
        check_list(case, c.intersect(d, **kwargs(rng)), want, side(c), side(d), f, how, False)
    else:
        check_list(case, d.intersect(c, **kwargs(rng)), sorted((j, i, k, w) for i, j, k, w in want), side(d), side(c), f, how, False)
    case.ev('huge lists', len(want))
    case.sig(how)
    case.sample({'M': M, 'M2': len(r2) - 1, 'results': len(want)})


def floats(case):
    rng = case.rng
    mk = lambda m: np.cumsum([[rng.uniform(-3, 3) for _ in range(2)] for _ in range(m)], axis=0)
    a, b = mk(rng.randint(2, 40)), mk(rng.randint(2, 40))
    self_ = rng.random() < 0.4
    c = gen.curve(rng, a)
    d = c if self_ else Curve(b)
    sure, maybe = [], []
    A, B = [tuple(map(F, p)) for p in c.data.tolist()], [tuple(map(F, p)) for p in d.data.tolist()]
    for i, s in enumerate(zip(A, A[1:])):
        for j, t in enumerate(zip(B, B[1:])):
            if self_ and j < i + 2:
                continue
            if max(s[0][0], s[1][0]) < min(t[0][0], t[1][0]) - F(1, 10) or max(t[0][0], t[1][0]) < min(s[0][0], s[1][0]) - F(1, 10):
                continue
            u, v, w = ex.sub(s[1], s[0]), ex.sub(t[1], t[0]), ex.sub(t[0], s[0])
            D = u[0] * v[1] - u[1] * v[0]
            if D == 0:
                maybe.append((i, j))
                continue
            x, y = float((w[0] * v[1] - w[1] * v[0]) / D), float((w[0] * u[1] - w[1] * u[0]) / D)
            if -1e-4 < x < 1.0001 and -1e-4 < y < 1.0001:
                if abs(D) < 1e-6 or min(x, y, 1 - x, 1 - y) < 1e-4:
                    maybe.append((i, j))
                else:
                    sure.append((i, j))
    got = [(r.segment1.idx, r.segment2.idx) for r in c.intersect(d)]
    case.check(got == sorted(set(got)), 'ascending order without repetition', a.tolist(), b.tolist(), got)
    case.check(set(sure) <= set(got) <= set(sure) | set(maybe), 'the crossing pairs of float curves', a.tolist(), b.tolist(), self_, got, sure)
    case.ev('float crossings', len(sure))
    case.sig(a.tolist()[:3], b.tolist()[:3])
    case.sample({'sizes': (len(a), len(b)), 'self': self_, 'crossings': len(sure)})


FAMILIES = [
    ('two', 700, 9000, two),
    ('selfint', 600, 6000, selfint),
    ('segment', 700, 9000, segment),
    ('large', 24, 400, large),
    ('huge', 16, 160, huge),
    ('empty', 250, 3000, empty),
    ('history', 200, 3000, history),
    ('floats', 500, 6000, floats),
]
