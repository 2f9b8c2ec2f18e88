"""C10: curve points and curve segments are exact views of their curve."""
import copy
import gc

import numpy as np

from skcurve import Curve, CurvePoint, CurveSegment, Point, Segment
from vlib import gen
from vlib.world import POINT_PROPS

RULE = ('random curves (0..300 points, dims 2..6, all dtypes, parametric or not); interleaved reads of point, segment and '
        'curve quantities in random order, compared with the rows of an independently built twin curve; all pairs of '
        'end points for subcurve; all out-of-range indices near the ends; non-trivial: at least three points')
ASSUMPTIONS = ['the rows of the quantities themselves are decided by C07-C09']

SEGPROPS = ['chordlen', 'seglen', 'data', 'p1.t', 'p2.t', 'direction']


def make(case, lo=1, hi=10):
    rng = case.rng
    n, m = gen.ndim(rng), gen.size(rng, lo, hi, big=0.04, huge=700)
    dt = rng.choice(gen.ALL_DTYPES)
    rows = gen.rows(rng, m, n, rng.choice(['lattice', 'dup', 'walk', 'range', 'line', 'closed'] + (['dyadic', 'float'] if dt == 'float64' else [])), dt)
    t = gen.tdata(rng, m) if rng.random() < 0.5 else None
    a = gen.array(rows, n, dt)
    return gen.curve(rng, a, t), gen.curve(rng, a.copy(), t), rows, t, n, m, dt


def index(rng, i, m):
    """i as a Python or numpy integer, possibly negative."""
    j = i - m if rng.random() < 0.4 else i
    return rng.choice([int, int, np.int64, np.int32])(j)


def same(x, y):
    return np.shape(x) == np.shape(y) and gen.close(x, y, 1e-12, 0)


def views(case):
    rng = case.rng
    c, twin, rows, t, n, m, dt = make(case)
    how = (dt, n, m, t and t[:4], rows[:6])
    pts = {}
    ints = dt.startswith(('int', 'uint'))
    for _ in range(rng.randint(6, 30)):
        k = rng.random()
        i = rng.randrange(m)
        if k < 0.2:
            a = rng.choice(POINT_PROPS + ['chordlen', 'arclen', 'isparametric'])
            case.rec('curve', a)
            case.check(same(getattr(c, a), getattr(twin, a)), 'curve.%s' % a, how)
            case.ev('curve reads')
        elif k < 0.35 and m > 1:
            i = rng.randrange(m - 1)
            j = index(rng, i, m - 1)
            s = c.segments[j] if rng.random() < 0.6 else CurveSegment(c, int(j))
            case.rec('segment', i)
            case.check(type(s) is CurveSegment and s.idx == i and s.curve is c, 'index and curve of a segment', i, s.idx, how)
            case.check(s.p1.idx == i and s.p2.idx == i + 1 and s.p1.curve is c and s.p2.curve is c, 'end points of a segment', i, how)
            case.check(s.p1.data.tolist() == list(rows[i]) and s.p2.data.tolist() == list(rows[i + 1]), 'coordinates of a segment', i, how)
            case.check(s.ndim == n and s.data.tolist() == [list(rows[i]), list(rows[i + 1])], 'segment data', i, how)
            case.check(same(s.chordlen, twin.chordlen[i]), 'chord length of a segment', i, s.chordlen, how)
            case.check(same(s.p1.t, twin.t[i]) and same(s.p2.t, twin.t[i + 1]), 't at the ends of a segment', i, how)
            if not ints and dt != 'float16':
                case.check(gen.close(s.seglen, twin.chordlen[i], 1e-6, 1e-6 if dt != 'float64' else 1e-12), 'segment length is the chord length', i, how)
            case.ev('segment reads')
        else:
            p = pts.get(i)
            if p is None or rng.random() < 0.3:
                j = index(rng, i, m)
                how_p = rng.randint(0, 3)
                p = (c[j] if how_p < 2 else CurvePoint(c, int(j)) if how_p == 2 else list(c)[i])
                if rng.random() < 0.15:
                    p = rng.choice([copy.copy, copy.deepcopy])(p)
                pts[i] = p
                case.check(type(p) is CurvePoint and p.idx == i and p.curve is c, 'index and curve of a point', j, i, p.idx, how)
                case.check(p.data.tolist() == list(rows[i]) and p.ndim == n and len(p) == n, 'coordinates of a point', i, p.data, how)
                case.check([x for x in p] == list(rows[i]), 'iteration over a point', i, how)
            a = rng.choice(POINT_PROPS)
            case.rec('point', i, a)
            v = getattr(p, a)
            case.check(same(v, getattr(twin, a)[i]), 'point.%s' % a, i, v, getattr(twin, a)[i], how)
            case.check(same(v, getattr(c, a)[i]), 'point.%s is the row of the curve' % a, i, v, how)
            case.ev('point reads')
    case.check(len(c.segments) == max(0, m - 1) and [s.idx for s in c.segments] == list(range(m - 1)), 'one segment per chord', how)
    case.check([p.idx for p in c] == list(range(m)), 'iteration visits every point once', how)
    if m > 2:
        case.sig(how, case.log)
    case.sample({'dtype': dt, 'rows': rows[:4], 't': t and t[:4], 'reads': [str(x) for x in case.log[:8]]})


def bounds(case):
    rng = case.rng
    c, twin, rows, t, n, m, dt = make(case, 0, 5)
    how = (n, m, rows[:6])
    for i in list(range(-m - 4, m + 5)) + [10 ** 6, -10 ** 6]:
        k = rng.choice([int, np.int64])
        if -m <= i < m:
            case.check(c[k(i)].idx == i % m and c[k(i)].data.tolist() == list(rows[i]), 'valid point index', i, how)
            case.check(CurvePoint(c, i).idx == i % m, 'valid point index', i, how)
        else:
            case.raises(IndexError, lambda: c[k(i)], 'point index out of range', i, how)
            case.raises(IndexError, lambda: CurvePoint(c, i), 'point index out of range', i, how)
        if -(m - 1) <= i < m - 1:
            s = CurveSegment(c, i)
            case.check(s.idx == i % (m - 1) and s.data.tolist() == [list(rows[s.idx]), list(rows[s.idx + 1])], 'valid segment index', i, how)
        else:
            case.raises(ValueError, lambda: CurveSegment(c, i), 'segment index out of range', i, how)
        case.ev('indices')
    case.check(len(c.segments) == max(0, m - 1), 'number of segments', how)
    case.sig(how)
    case.sample({'size': m, 'ndim': n})


def subcurve(case):
    rng = case.rng
    c, twin, rows, t, n, m, dt = make(case, 1, 7)
    how = (n, m, dt, rows[:6], t)
    pairs = [(i, j) for i in range(m) for j in range(m)]
    for i, j in (pairs if m <= 8 else rng.sample(pairs, 60)):
        e = rng.choice([True, False, None])
        p, q = c[index(rng, i, m)], c[index(rng, j, m)]
        s = p.subcurve(q) if e is None else p.subcurve(q, e) if rng.random() < 0.5 else p.subcurve(q, endpoint=e)
        end = j + (0 if e is False else 1)
        case.check(type(s) is Curve and s.data.tolist() == [list(r) for r in rows[i:end]], 'points of a subcurve', i, j, e, s, how)
        case.check(s.ndim == n and s.dtype == c.dtype, 'dimension and dtype of a subcurve', i, j, how)
        case.check(s.isparametric == c.isparametric and (t is None or s.t.tolist() == t[i:end]), 'parameters of a subcurve', i, j, how)
        case.ev('subcurves')
    p = c[rng.randrange(m)]
    other = rng.choice([twin, Curve(c), c[:], c.reverse()])
    case.raises(ValueError, lambda: p.subcurve(other[rng.randrange(m)]), 'subcurve to a point of another curve', how)
    bad = rng.choice([Point(rows[0]), m - 1, rows[0], None, c, 'x'] + ([c.segments[0]] if m > 1 else []))
    case.raises(TypeError, lambda: p.subcurve(bad), 'subcurve to something else', how)
    if m > 2:
        case.sig(how)
    case.sample({'dtype': dt, 'rows': rows[:4], 't': t and t[:4]})


def lifetime(case):
    """Points and segments stay views of their curve when nothing else refers to it any more."""
    rng = case.rng
    got = []
    for _ in range(6):
        c, twin, rows, t, n, m, dt = make(case, 2, 7)
        i = rng.randrange(m - 1)
        k = rng.randint(0, 6)
        v = (c[i] if k < 2 else c.segments[i] if k < 4 else c.segments[i].p1 if k == 4 else list(c)[i] if k == 5 else list(c.segments)[i])
        if rng.random() < 0.4:
            c.frenet1, c.t
        got.append((v, i, twin, rows, n))
        del c
    gc.collect()
    [bytearray(4096) for _ in range(50)]
    for v, i, twin, rows, n in got:
        how = (type(v).__name__, i, n, rows[:6])
        held = v.curve
        case.check(isinstance(held, Curve) and held.data.tolist() == [list(r) for r in rows], 'the curve of a lone view', how)
        p = v if isinstance(v, CurvePoint) else v.p1
        case.check(p.data.tolist() == list(rows[i]) and same(p.t, twin.t[i]), 'a lone point', how)
        for a in rng.sample(POINT_PROPS, 3):
            case.check(same(getattr(p, a), getattr(twin, a)[i]), 'point.%s of a lone point' % a, how)
        if isinstance(v, CurveSegment):
            case.check(same(v.chordlen, twin.chordlen[i]) and v.p2.data.tolist() == list(rows[i + 1]), 'a lone segment', how)
        case.check(p.subcurve(held[-1]).data.tolist() == [list(r) for r in rows[i:]], 'subcurve from a lone point', how)
        case.ev('lone views')
    case.sig(got[0][1], got[0][3])


FAMILIES = [
    ('views', 2500, 40000, views),
    ('bounds', 800, 8000, bounds),
    ('subcurve', 900, 12000, subcurve),
    ('lifetime', 80, 800, lifetime),
]
