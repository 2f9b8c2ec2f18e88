"""C16: almost-intersections against the exact distances of all pairs."""
import numpy as np

import skcurve as sk
from skcurve import Curve, IntersectionType, Point, Segment
from checks.c12 import d2pts, dseg
from checks.c14 import result
from checks.c15 import comb, curve, lrows
from vlib import exact as ex, gen

RULE = ('pairs of lattice segments and curves under exact similarities with tolerances below, between and above their distances '
        '(exact ties on exactly computable figures); all pairs of curve segments by exact distance, both curves, curve with '
        'segment, self-intersection; remove_extra against connected components of the observed points, correct_overlap against '
        'exact parallelism and coordinate ranges; non-trivial: at least one pair within the tolerance')
ASSUMPTIONS = ['pairs whose distance is within 1e-9 of the tolerance may go either way, unless the distance is computed exactly']

A, N, O = IntersectionType.ALMOST, IntersectionType.NONE, IntersectionType.OVERLAP


def extents(s, t):
    """Per-axis common range of two lattice segments, or None."""
    lo = tuple(max(min(a), min(b)) for a, b in zip(zip(*s), zip(*t)))
    hi = tuple(min(max(a), max(b)) for a, b in zip(zip(*s), zip(*t)))
    return None if any(l > h for l, h in zip(lo, hi)) else (lo, hi)


def isoverlap(s, t):
    return ex.parallel(s, t) and extents(s, t) is not None


def size_of(f, pts):
    return (max(abs(x) for p in pts for x in p) + max(map(abs, f.off)) + 1) * f.scale


def check_almost(case, r, s, t, S, T, f, how):
    """One ALMOST result of a pair with known lattice segments."""
    D = float(ex.dist2(s, t)) ** 0.5 * f.scale
    tol = 1e-7 * size_of(f, s + t)
    g = r.intersect_info.data
    case.check(r.intersect_type is A and isinstance(g, Segment), 'type ALMOST with a segment', how, r)
    case.check(abs(d2pts(g.p1.data, g.p2.data) - D) <= tol, 'the data is the shortest segment', how, r, D)
    case.check(dseg((S.p1.data, S.p2.data), g.p1.data) <= tol and dseg((T.p1.data, T.p2.data), g.p2.data) <= tol, 'it connects the first segment with the second', how, r)
    mid = (g.p1.data.astype(float) + g.p2.data) / 2
    case.check(gen.close(r.intersect_point.data, mid, 0, tol * 1e-6 + 1e-300), 'the point is its middle', how, r)


def check_overlap(case, r, s, t, f, how):
    lo, hi = extents(s, t)
    g = r.intersect_info.data
    case.check(r.intersect_type is O and isinstance(g, Segment), 'type OVERLAP with a segment', how, r)
    p, q = g.p1.data.tolist(), g.p2.data.tolist()
    box = ([min(x) for x in zip(p, q)], [max(x) for x in zip(p, q)])
    case.check(gen.close(box[0], f(lo), 0, 1e-9 * size_of(f, s + t)) and gen.close(box[1], f(hi), 0, 1e-9 * size_of(f, s + t)), 'the overlap spans the common extent', how, r, lo, hi)
    if ex.affine_rank([s[0], s[1], t[0], t[1]]) <= 1:
        w = ex.common(s, t)
        case.check(w is not None and sorted([p, q]) == sorted([list(f(w[0])), list(f(w[1]))]), 'the overlap is the common part of collinear segments', how, r, w)


def pair(case):
    rng = case.rng
    n = rng.choice([2, 2, 3, 3, 4, 5])
    kind, s, t = ex.rpair(rng, n, rng.choice([2, 4, 9]))
    f = ex.Frame(rng, n, 500, (0, 0, 0, 2, 6, -2, -5))
    S, T = f.seg(s), f.seg(t)
    D = float(ex.dist2(s, t)) ** 0.5 * f.scale
    taus = [1e-5, 1e-5, D * 0.999, D * 1.001 + 1e-6, D + f.scale, D * 0.5, 3 * f.scale]
    if D == 0:
        taus += [0.0, 1e-6]
    how = (kind, s, t, f, D)
    for tau in rng.sample(taus, 4):
        if abs(D - tau) < 1e-9 * size_of(f, s + t) and not D == tau == 0:
            continue
        corr = rng.random() < 0.4
        kw = {} if tau == 1e-5 and rng.random() < 0.5 else {'dist_tol': tau}
        if corr:
            kw['correct_overlap'] = True
        if rng.random() < 0.2:
            kw.update(remove_extra=True, extra_tol=rng.choice([0.1, 10.0]))
        for X, Y, x, y in ((S, T, s, t), (T, S, t, s), (S.reverse(), T, s[::-1], t)):
            r = X.intersect(Y, method='almost', **kw) if rng.random() < 0.7 else X.intersect(Y, method=sk.get_intersect_method('almost', **kw))
            result(case, r, X, Y, (how, kw))
            if D < tau:
                if corr and isoverlap(x, y):
                    check_overlap(case, r, x, y, f, (how, kw))
                else:
                    check_almost(case, r, x, y, X, Y, f, (how, kw))
            else:
                case.check(r.intersect_type is N and not r, 'no intersection at or beyond the tolerance', how, kw, r)
        case.ev('pair %s' % ('within' if D < tau else 'beyond'))
    case.sig(how)
    case.sample({'kind': kind, 's': s, 't': t, 'distance': D})


def ties(case):
    """Distances that are computed exactly: the tolerance itself is excluded."""
    rng = case.rng
    n = rng.choice([2, 3])
    h = rng.choice([1, 2, 3, 4]) * 2.0 ** rng.randint(-3, 3)
    a, b = rng.randint(-4, 0) * 1.0, rng.randint(1, 5) * 1.0
    k = rng.choice(['parallel', 'perp', 'points', 'endpoints'])
    z = [0.0] * (n - 2)
    s = ([a, 0.0] + z, [b, 0.0] + z)
    if k == 'parallel':
        t = ([a + 1, h] + z, [b + 3, h] + z)
    elif k == 'perp':
        t = ([a, h] + z, [a, h + 2] + z)
    elif k == 'points':
        s = ([a, 0.0] + z,) * 2
        t = ([a, h] + z,) * 2
    else:
        t = ([b + h, 0.0] + z, [b + h + 1, 0.0] + z)
    S, T = Segment(Point(s[0]), Point(s[1])), Segment(Point(t[0]), Point(t[1]))
    c, d = Curve(list(s), axis=0), Curve(list(t), axis=0)
    up = float(np.nextafter(h, 2 * h))
    how = (k, s, t, h)
    for X, Y in ((S, T), (T, S), (c, d), (d, c), (c, T), (S, d)):
        case.check(not X.intersect(Y, method='almost', dist_tol=h), 'distance equal to dist_tol is no intersection', how, X, Y)
        case.check(bool(X.intersect(Y, method='almost', dist_tol=up)), 'distance just below dist_tol is an intersection', how, X, Y)
        case.ev('exact ties')
    case.sig(how)
    case.sample({'kind': k, 's': s, 't': t})


def setup(case):
    rng = case.rng
    n = rng.choice([2, 2, 3, 3, 4])
    f = ex.Frame(rng, n, 500, (0, 0, 0, 3, -3))
    z = (lambda: rng.choice([2, 3, 4, 5, 6, 8, 12])) if rng.random() < 0.93 else (lambda: rng.randint(15, 30))
    k1, r1 = lrows(rng, z(), n)
    k2, r2 = lrows(rng, z(), n)
    kw = {}
    tau = rng.choice([1e-5, 1e-5, 0.3, 0.75, 1.3, 2.1, 4.2, 0.05]) * (f.scale if rng.random() < 0.9 else 1.0)
    if tau != 1e-5:
        kw['dist_tol'] = tau
    mode = rng.choice(['two', 'two', 'self', 'self', 'segment', 'rsegment'])
    c = curve(case, f, r1, n)
    if mode == 'self':
        x, y, ra, rb = c, (c if rng.random() < 0.5 else None), r1, r1
    elif mode == 'two':
        x, y, ra, rb = c, curve(case, f, r2, n), r1, r2
    else:
        g = ex.rseg(rng, n, 5, 0.1)
        x, y, ra, rb = c, f.seg(g), r1, list(g)
        if mode == 'rsegment':
            x, y, ra, rb = y, x, rb, ra
    return rng, n, f, x, y, ra, rb, tau, kw, mode


def wanted(ra, rb, tau, f, self_):
    sure, maybe = [], []
    for i, s in enumerate(zip(ra, ra[1:])):
        for j, t in enumerate(zip(rb, rb[1:])):
            if self_ and j < i + 2:
                continue
            D = float(ex.dist2(s, t)) ** 0.5 * f.scale
            if abs(D - tau) <= 1e-9 * size_of(f, s + t):
                if D:
                    maybe.append((i, j))
                    continue
            if D < tau:
                sure.append((i, j))
    return sure, maybe


def indices(r):
    return getattr(r.segment1, 'idx', 0), getattr(r.segment2, 'idx', 0)


def curves(case):
    rng, n, f, x, y, ra, rb, tau, kw, mode = setup(case)
    how = (mode, ra[:25], rb[:25], f, kw)
    sure, maybe = wanted(ra, rb, tau, f, mode == 'self')
    if len(sure) > 400:
        case.check(True, '')
        return
    res = x.intersect(y, method='almost', **kw) if rng.random() < 0.7 else x.intersect(y, method=sk.get_intersect_method('almost', **kw))
    got = [indices(r) for r in res]
    case.check(isinstance(res, list) and got == sorted(set(got)), 'every pair once, in ascending order', how, got)
    case.check(set(sure) <= set(got) <= set(sure) | set(maybe), 'the pairs closer than the tolerance', how, 'missing', sorted(set(sure) - set(got))[:9],
               'extra', sorted(set(got) - set(sure) - set(maybe))[:9])
    deep = set(rng.sample(range(len(res)), min(12, len(res))))
    other = x if y is None else y
    for pos, r in enumerate(res):
        i, j = got[pos]
        a, b = r.segment1, r.segment2
        case.check((a is x if isinstance(x, Segment) else a.curve is x) and (b is other if isinstance(other, Segment) else b.curve is other), 'the result carries the segments of its operands', how, i, j)
        check_almost(case, r, (ra[i], ra[i + 1]), (rb[j], rb[j + 1]), a, b, f, how)
        if pos in deep:
            result(case, r, a, b, how)
            one = a.intersect(b, method='almost', **kw)
            case.check(one.intersect_type is A or (i, j) in maybe, 'the pair intersects when taken alone', how, i, j)
    case.ev('lists compared')
    case.ev('pairs found', len(res))
    # remove_extra over the observed points
    for _ in range(2):
        et = rng.choice([1e-3, 0.26, 0.6, 1.1, 2.3, 5.2]) * f.scale
        corr = rng.random() < 0.4
        k2 = dict(kw, remove_extra=True, correct_overlap=corr)
        if et != 1e-3 or rng.random() < 0.5:
            k2['extra_tol'] = et
        fil = x.intersect(y, method='almost', **k2)
        extra(case, res, fil, et, corr, ra, rb, f, (how, k2))
    cor = x.intersect(y, method='almost', correct_overlap=True, **kw)
    case.check([indices(r) for r in cor] == got, 'correct_overlap keeps every intersection', how)
    overlaps(case, res, cor, ra, rb, f, how)
    again = x.intersect(y, method='almost', **kw)
    case.check([indices(r) for r in again] == got, 'repeatable', how)
    if sure:
        case.sig(how)
    case.sample({'mode': mode, 'curve1': ra[:6], 'curve2': rb[:6], 'dist_tol': tau, 'pairs': got[:8]})


def extra(case, res, fil, et, corr, ra, rb, f, how):
    pts = [r.intersect_point.data.astype(float) for r in res]
    ln = [d2pts(r.intersect_info.data.p1.data, r.intersect_info.data.p2.data) for r in res]
    m = len(res)
    parent = list(range(m))

    def find(i):
        while parent[i] != i:
            i = parent[i]
        return i
    for i in range(m):
        for j in range(i):
            d = d2pts(pts[i], pts[j])
            if abs(d - et) <= 1e-9 * (et + float(np.max(np.abs(pts[i]), initial=0))):
                case.ev('near ties of extra_tol skipped')
                return
            if d < et:
                parent[find(i)] = find(j)
    groups = {}
    for i in range(m):
        groups.setdefault(find(i), []).append(i)
    pos = {indices(r): i for i, r in enumerate(res)}
    kept = [pos.get(indices(r), -1) for r in fil]
    case.check(-1 not in kept and kept == sorted(set(kept)), 'remove_extra keeps results in their order', how, kept)
    for g in groups.values():
        k = [i for i in g if i in kept]
        case.check(len(k) == 1, 'remove_extra keeps exactly one of a group of close intersections', how, g, k, [p.tolist() for p in pts][:12])
        best = min(ln[i] for i in g)
        case.check(ln[k[0]] <= best + 1e-9 * (f.scale + best), 'remove_extra keeps the one with the shortest connecting segment', how, g, k, [ln[i] for i in g])
        case.ev('groups of %s' % ('one' if len(g) == 1 else 'several'))
    if corr:
        overlaps(case, [res[i] for i in kept], fil, ra, rb, f, how)
    else:
        for i, r in zip(kept, fil):
            case.check(r.intersect_type is A and r.intersect_info.data.data.tolist() == res[i].intersect_info.data.data.tolist(), 'remove_extra leaves the kept ones alone', how, r)


def overlaps(case, res, cor, ra, rb, f, how):
    for r0, r in zip(res, cor):
        i, j = indices(r)
        s, t = (ra[i], ra[i + 1]), (rb[j], rb[j + 1])
        if isoverlap(s, t):
            check_overlap(case, r, s, t, f, how)
            case.ev('corrected to OVERLAP')
        else:
            case.check(r.intersect_type is A and r.intersect_info.data.data.tolist() == r0.intersect_info.data.data.tolist(), 'correct_overlap leaves the others alone', how, r)
            case.ev('left as ALMOST')
        case.check(r.segment1.data.tolist() == r0.segment1.data.tolist() and r.segment2.data.tolist() == r0.segment2.data.tolist(), 'the segments stay', how, r)


def paralleltol(case):
    """parallel_tol bounds the squared sine of the angle of segments that count as parallel."""
    rng = case.rng
    n = rng.choice([2, 3])
    p = ex.rpoint(rng, n, 3)
    u = ex.mul(rng.randint(5, 30), ex.rvec(rng, n, 2))
    v = ex.add(u, ex.rpoint(rng, n, 2))
    if not any(v):
        case.check(True, '')
        return
    s, t = (p, ex.add(p, u)), (p, ex.add(p, v))
    sin2 = 1 - ex.dot(u, v) ** 2 / (ex.dot(u, u) * ex.dot(v, v))
    for tol in (1e-12, 1e-4, 1e-3, 1e-2, 0.1, 2.0):
        if abs(sin2 - tol) < 1e-9:
            continue
        f = ex.Frame(rng, n, 50, (0, 2, 5))
        r = f.seg(s).intersect(f.seg(t), method='almost', correct_overlap=True, parallel_tol=tol)
        want = O if sin2 <= tol else A
        case.check(r.intersect_type is want, 'parallel_tol', s, t, tol, sin2, r)
        q = f.seg(s).to_curve().intersect(f.seg(t).to_curve(), method='almost', correct_overlap=True, parallel_tol=tol)
        case.check(len(q) == 1 and q[0].intersect_type is want, 'parallel_tol of curves', s, t, tol, sin2, q)
        case.ev('parallel_tol ' + want.name)
    case.sig(s, t)


def huge(case):
    """Hundreds of segments and results: a zigzag and a polyline in a parallel plane."""
    rng = case.rng
    n = 3
    r1, r2 = comb(rng, rng.randint(257, 400), n)
    h = rng.choice([1, 2, 3])
    r2 = [p[:2] + (h,) for p in r2]
    f = ex.Frame(rng, n, 10, (0,))
    f.off = (0,) * n
    c, d = curve(case, f, r1, n), curve(case, f, r2, n)
    tau = (h + rng.choice([-0.5, 0.25, 0.25, 0.25])) * f.scale
    if rng.random() < 0.5:
        c, d, r1, r2 = d, c, r2, r1
    want = []
    for i, s in enumerate(zip(r1, r1[1:])):
        for j, t in enumerate(zip(r2, r2[1:])):
            if max(s[0][0], s[1][0]) + h + 1 < min(t[0][0], t[1][0]) or max(t[0][0], t[1][0]) + h + 1 < min(s[0][0], s[1][0]):
                continue
            if float(ex.dist2(s, t)) ** 0.5 * f.scale < tau:
                want.append((i, j))
    res = c.intersect(d, method='almost', dist_tol=tau)
    got = [indices(r) for r in res]
    how = (len(r1), len(r2), h, tau, f)
    case.check(got == want, 'every pair closer than the tolerance once, in ascending order', how, len(got), len(want), sorted(set(want) ^ set(got))[:9])
    for pos in rng.sample(range(len(res)), min(20, len(res))):
        i, j = got[pos]
        r = res[pos]
        case.check(r.segment1.curve is c and r.segment2.curve is d, 'the result carries the segments of its operands', how, i, j)
        check_almost(case, r, (r1[i], r1[i + 1]), (r2[j], r2[j + 1]), r.segment1, r.segment2, f, how)
    case.ev('huge lists', len(want))
    case.sig(how)
    case.sample({'sizes': (len(r1), len(r2)), 'pairs': len(want)})


def floats(case):
    """Random float curves: agreement with exact distances of the actual floats."""
    from fractions import Fraction as F
    rng = case.rng
    n = rng.choice([2, 3])
    mk = lambda m: np.cumsum([[rng.uniform(-2, 2) for _ in range(n)] for _ in range(m)], axis=0)
    a, b = mk(rng.randint(2, 10)), mk(rng.randint(2, 10))
    self_ = rng.random() < 0.4
    c = gen.curve(rng, a)
    d = c if self_ else Curve(b)
    A_, B_ = [tuple(map(F, p)) for p in c.data.tolist()], [tuple(map(F, p)) for p in d.data.tolist()]
    tau = rng.choice([0.1, 0.5, 1.0])
    sure, maybe = [], []
    for i, s in enumerate(zip(A_, A_[1:])):
        for j, t in enumerate(zip(B_, B_[1:])):
            if self_ and j < i + 2:
                continue
            D = float(ex.dist2(s, t)) ** 0.5
            (maybe if abs(D - tau) < 1e-7 else sure if D < tau else []).append((i, j))
    got = [indices(r) for r in c.intersect(d, method='almost', dist_tol=tau)]
    case.check(got == sorted(set(got)) and set(sure) <= set(got) <= set(sure) | set(maybe), 'close pairs of float curves', a.tolist(), b.tolist(), self_, tau, got, sure)
    case.ev('float pairs', len(sure))
    case.sig(a.tolist()[:3], self_)


def wide(case):
    """Long segments in general position, of any size: every pair within a large tolerance, with its shortest segment."""
    from fractions import Fraction as F
    rng = case.rng
    n = rng.choice([2, 2, 2, 3, 3, 4])
    kind = rng.choice(['lattice', 'lattice', 'lattice', 'long', 'float', 'far', 'nearpar'])
    z = lambda: rng.randint(2, 6)
    rel = 1e-7
    if kind in ('lattice', 'long'):
        L = rng.choice([6, 9, 30])
        f = ex.Frame(rng, n, 500, (0, 0, 2, 10, 20, 40, -3, -8, -20, -40))
        rows = lambda m: [ex.rpoint(rng, n, L) for _ in range(m)]
        r1, r2 = rows(z()), rows(z())
        if kind == 'long':
            r1 = [tuple(x * rng.choice([1, 1, 50]) for x in p) for p in r1]
        c, d = curve(case, f, r1, n), curve(case, f, r2, n)
        scale, size = f.scale, size_of(f, r1 + r2)
    else:
        R = lambda: [rng.uniform(-10, 10) for _ in range(n)]
        a, b = [R() for _ in range(z())], [R() for _ in range(z())]
        if kind == 'far':
            b = [[x + 300 for x in p] for p in b]
        elif kind == 'nearpar':
            e = 10.0 ** rng.uniform(-9, -2)
            w = R()
            b = [[x + y + rng.uniform(-e, e) for x, y in zip(p, w)] for p in a]
            rel = 1e-6
        c, d = Curve(a, axis=0), Curve(b, axis=0)
        r1, r2 = [tuple(map(F, p)) for p in a], [tuple(map(F, p)) for p in b]
        scale, size = 1.0, max(abs(x) for p in a + b for x in p)
    if rng.random() < 0.2:
        d, r2, kind = c, r1, kind + ' self'
    dist = {(i, j): float(ex.dist2(s, t)) ** 0.5 * scale for i, s in enumerate(zip(r1, r1[1:])) for j, t in enumerate(zip(r2, r2[1:]))
            if d is not c or j >= i + 2}
    how = (kind, [list(map(float, p)) for p in r1], [list(map(float, p)) for p in r2], scale)
    taus = [1e3 * size] + ([rng.choice(sorted(dist.values())) * rng.choice([0.9, 1.1, 1.1])] if dist else [])
    for tau in taus:
        res = c.intersect(d, method='almost', dist_tol=tau)
        got = [indices(r) for r in res]
        sure = {k for k, D in dist.items() if D < tau - rel * size}
        maybe = {k for k, D in dist.items() if abs(D - tau) <= rel * size}
        case.check(got == sorted(set(got)) and sure <= set(got) <= sure | maybe, 'the pairs closer than the tolerance', how, tau, got)
        for r, k in zip(res, got):
            p, q = r.intersect_info.data.p1.data, r.intersect_info.data.p2.data
            case.check(abs(d2pts(p, q) - dist[k]) <= rel * size, 'the data is the shortest segment', how, k, r, dist[k])
            case.check(dseg((r.segment1.p1.data, r.segment1.p2.data), p) <= rel * size and dseg((r.segment2.p1.data, r.segment2.p2.data), q) <= rel * size,
                       'it connects the first segment with the second', how, k, r)
            case.check(gen.close(r.intersect_point.data, (p.astype(float) + q) / 2, 0, 1e-12 * size), 'the point is its middle', how, k, r)
        case.ev('wide pairs measured', len(res))
    case.ev('wide ' + kind)
    case.sig(how)
    case.sample({'kind': kind, 'sizes': (len(r1), len(r2))})


FAMILIES = [
    ('pair', 900, 18000, pair),
    ('ties', 300, 4000, ties),
    ('curves', 900, 14000, curves),
    ('paralleltol', 300, 4000, paralleltol),
    ('huge', 12, 120, huge),
    ('floats', 400, 6000, floats),
    ('wide', 900, 14000, wide),
]
