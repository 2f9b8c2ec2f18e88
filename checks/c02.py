"""C02: objects never change and operations have no side effects."""
import copy
import pickle
import gc
import math
import threading
import time

import numpy as np

import skcurve as sk
from skcurve import (Curve, CurvePoint, CurveSegment, Point, Segment, PreservedSpeedInterpolationGrid,
                     UniformExtrapolationGrid, UniformInterpolationGrid)
from checks.c08 import diff
from vlib import gen
from vlib.world import CURVE_PROPS, POINT_PROPS, World, process_state, snap

RULE = ('random histories over the whole public API (constructors, reads, edits, geometry, interpolation, smoothing, '
        'intersection, metrics) on a world of live objects; after every operation the snapshots of all objects, of all '
        'arrays and lists the caller supplied and of process-wide state are compared again, writes into every array '
        'handed out are attempted, and derived values are finally compared with fresh copies; concurrent readers run '
        'under a scheduler that switches threads at random lines of the library; non-trivial: at least 8 operations')
ASSUMPTIONS = ['assigning to private attributes or re-enabling the writeable flag is not a public operation',
               'thread switches are explored at line granularity inside skcurve']


# -- operations ------------------------------------------------------------------------------------------------------
def take_idx(w, m):
    rng = w.rng
    k = rng.randint(0, 4)
    if k == 0:
        return rng.randrange(m)
    if k == 1:
        return w.give('index list', [rng.randrange(-m, m) for _ in range(rng.randint(1, 4))])
    if k == 2:
        return w.give('index array', np.array([rng.randrange(m) for _ in range(rng.randint(1, 4))]))
    if k == 3:
        return w.give('boolean mask', np.array([rng.random() < 0.5 for _ in range(m)]))
    a, b = sorted(rng.randint(-m, m) for _ in range(2))
    return slice(a, b, rng.choice([None, 1, 2, -1]))


def op_new(w):
    w.new_curve()


def op_point(w):
    p = w.point()
    w.keep('copy of a point', rngpick(w, [lambda: Point(p), lambda: copy.copy(p), lambda: copy.deepcopy(p), lambda: pickle.loads(pickle.dumps(p, 4)), lambda: p[:], lambda: p[0]])())


def rngpick(w, fs):
    return fs[w.rng.randrange(len(fs))]


def op_arith(w):
    p, q, rng = w.point(), w.point(), w.rng
    k = rng.choice([2, 3, 0.5, -1])
    fs = [lambda: p + q, lambda: p - q, lambda: p * q, lambda: p + k, lambda: k - p, lambda: k * p, lambda: p / 2, lambda: p // 2,
          lambda: 3 + p, lambda: p @ q, lambda: p.norm(), lambda: p.distance(q), lambda: p == q, lambda: -1 * p,
          lambda: p.distance(q, metric=rng.choice(['cityblock', 'chebyshev', 'sqeuclidean', 'euclidean']))]
    w.keep('arithmetic result', rngpick(w, fs)())


def op_inplace(w):
    """Augmented assignment must rebind, never modify the aliased object."""
    p = a = w.point()
    k = w.rng.randint(0, 4)
    if k == 0:
        a += w.point()
    elif k == 1:
        a *= 2
    elif k == 2:
        a -= 1
    elif k == 3:
        a /= 2
    else:
        c = b = w.curve()
        b += w.curve()
        w.case.check(b is not c, 'augmented + rebinds the curve')
        w.keep('c += d', b)
    if k < 4:
        w.case.check(a is not p, 'augmented assignment rebinds the point')
        w.keep('augmented point', a)


def op_metric(w):
    p, q, n = w.point(), w.point(), w.n
    rng = w.rng
    k = rng.randint(0, 3)
    if k == 0:
        r = p.distance(q, metric='minkowski', p=3)
    elif k == 1:
        r = p.distance(q, metric='seuclidean', V=w.give('V', np.array([1.0 + i for i in range(n)])))
    elif k == 2:
        r = p.distance(q, metric='mahalanobis', VI=w.give('VI', np.eye(n)))
    else:
        def metric(u, v):
            for x in (u, v):
                try:
                    x[0] = 77
                except ValueError:
                    continue
                w.case.fail('a metric could write into the point data it was given')
            return float(np.abs(u - v).sum())
        r = p.distance(q, metric=metric)
    w.case.check(isinstance(float(r), float), '')


def op_getitem(w):
    c = w.curve(1)
    w.keep('c[i]', c[take_idx(w, c.size)])


def op_points(w):
    c = w.curve(1)
    pts = [c[i] for i in range(c.size)] if w.rng.random() < 0.5 else list(c)
    p = w.rng.choice(pts)
    w.keep('curve point', p)
    for a in w.rng.sample(POINT_PROPS, 3):
        w.keep('point.' + a, getattr(p, a))
    q = w.rng.choice(pts)
    w.keep('subcurve', p.subcurve(q, endpoint=w.rng.random() < 0.5))


def op_segments(w):
    c = w.curve(2)
    w.keep('segments', c.segments)
    s = w.rng.choice(c.segments.tolist())
    w.keep('curve segment', s)
    w.keep('chordlen', s.chordlen)


def op_read(w):
    c = w.curve()
    for a in w.rng.sample(CURVE_PROPS, 4):
        w.keep('curve.' + a, getattr(c, a))


def op_scalars(w):
    c = w.curve()
    r = [len(c), c.size, c.ndim, c.is2d, c.is3d, c.isspatial, c.isparametric, bool(c), repr(c), str(c), c.dtype.str]
    if c.size:
        r += [repr(c[0]), c[0] in c, c in c, c.count(c[0]), c.index(c[0])]
    w.case.check(c == c and len(r) > 9, 'a curve equals itself')


def op_write(w):
    """Write attempts into handed-out arrays."""
    rng, case = w.rng, w.case
    c = w.curve(1)
    p = w.point()
    name = rng.choice(['data', 't', 'values', 'valuesiter', 'point.data', 'cpoint.data'])
    arr = {'data': lambda: c.data, 't': lambda: c.t, 'values': lambda: c.values(rng.randrange(c.ndim)),
           'valuesiter': lambda: list(c.values())[-1], 'point.data': lambda: p.data, 'cpoint.data': lambda: c[-1].data}[name]()
    case.ev('write attempts')
    for f in (lambda: arr.__setitem__(0, 99), lambda: arr.__setitem__(Ellipsis, 7), lambda: arr.fill(3), lambda: arr.__iadd__(1),
              lambda: arr.sort(axis=0), lambda: np.add(arr, 1, out=arr, casting='unsafe'), lambda: arr.flat.__setitem__(0, 4)):
        case.raises(ValueError, f, 'in-place write into %s' % name)


def op_writederived(w):
    """Whatever else is handed out: a write is refused or does not show up anywhere."""
    rng, case = w.rng, w.case
    c = w.curve(2)
    s = w.seg()
    name = rng.choice(CURVE_PROPS + ['segments', 'segment.data', 'p.firstderiv', 'p.frenet1', 'p.normal', 'values'])
    f = {'segments': lambda: c.segments, 'segment.data': lambda: s.data, 'p.firstderiv': lambda: c[1].firstderiv,
         'p.frenet1': lambda: c[1].frenet1, 'p.normal': lambda: c[0].normal}.get(name) or (
        (lambda: c.values(0)) if name == 'values' else (lambda: getattr(c, name)))
    arr = f()
    if not isinstance(arr, np.ndarray) or not arr.size:
        return
    before = snap(arr)
    for g in (lambda: arr.__setitem__(0, arr[-1] if arr.dtype == object else 55), lambda: arr.__setitem__(Ellipsis, None if arr.dtype == object else 7)):
        try:
            g()
            case.ev('writes into copies')
        except ValueError:
            case.ev('writes refused')
    case.check(snap(f()) == before, 'a write into %s is visible in the object' % name, c)


def op_assign(w):
    rng, case = w.rng, w.case
    c, p, s = w.curve(2), w.point(), w.seg()
    cp, cs = c[0], c.segments[0]
    o, a = rng.choice([(c, 'data'), (c, 'size'), (c, 'ndim'), (c, 'dtype'), (c, 'isparametric'), (c, 'is2d'), (p, 'data'), (p, 'dtype'), (p, 'ndim'),
                       (s, 'p1'), (s, 'p2'), (s, 'data'), (s, 'ndim'), (cp, 'curve'), (cp, 'idx'), (cp, 'data'),
                       (cs, 'curve'), (cs, 'idx'), (cs, 'p1'), (cs, 'chordlen')])
    case.raises((AttributeError, TypeError), lambda: setattr(o, a, 1), 'assignment to %s.%s' % (type(o).__name__, a))
    case.raises((AttributeError, TypeError), lambda: c.__setitem__(0, p), 'item assignment to a curve')
    case.raises((AttributeError, TypeError), lambda: p.__setitem__(0, 1), 'item assignment to a point')
    case.raises((AttributeError, TypeError), lambda: c.__delitem__(0), 'item deletion from a curve')


def op_edit(w):
    rng = w.rng
    c, d = w.curve(1), w.curve()
    m, n = c.size, c.ndim
    p = w.point()
    k = rng.randint(0, 13)
    if k == 0:
        r = c + d
    elif k == 1:
        r = c.reverse()
    elif k == 2:
        r = c.insert(rng.randint(-m, m), rng.choice([p, d]))
    elif k == 3:
        r = c.insert(w.give('positions', np.array([0, m, 0])), p)
    elif k == 4:
        r = c.append(rng.choice([p, d]))
    elif k == 5:
        i = take_idx(w, m)
        r = c.delete(i if not (isinstance(i, np.ndarray) and i.dtype == bool) else 0)
    elif k == 6:
        r = c.unique()
    elif k == 7:
        r = c.nonsingular()
    elif k == 8:
        r = c.coorientplane(*rng.sample(range(n), 2))
    elif k == 9:
        r = c.insertdim(rng.randint(-n, n), w.give('values', np.arange(m, dtype=float)))
    elif k == 10:
        r = c.appenddim(rng.choice([None, w.give('value list', [float(i) for i in range(m)])]))
    elif k == 11:
        if n < 3:
            return
        r = c.deletedim(rng.randrange(n))
    elif k == 12:
        r = Curve(c, ndmin=n + rng.randint(0, 2), dtype=rng.choice([None, 'float64', 'float32']))
    else:
        r = rng.choice([copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x, 4))])(c)
    w.keep('edit %d' % k, r)
    if k in (0, 2, 3) and not isinstance(r, Curve):
        w.case.fail('edit did not return a curve')


def op_drop(w):
    rng, case = w.rng, w.case
    c = w.curve(1)
    shape = c.data.shape
    ret = w.give('callable result', rng.choice([np.zeros(shape, bool), np.arange(shape[0]) % 2 == 0, np.array([0]), [0]]))

    def isa(data):
        try:
            data[...] = 13
        except ValueError:
            return ret
        case.fail('the callable of drop could write into the curve data')
    w.keep('drop', c.drop(isa))


def op_geometry(w):
    rng = w.rng
    s, o, p = w.seg(), w.seg(), w.point()
    fs = [lambda: s.point(w.give('t array', np.array([0.0, 0.25, 1.0]))), lambda: s.point(w.give('t list', [0.5, 2])), lambda: s.point(0.5),
          lambda: s.t(p), lambda: s.t(w.give('point list', [p, s.p1, s.p2])), lambda: s.angle(o), lambda: s.parallel(o), lambda: s.collinear(o),
          lambda: s.collinear(p), lambda: s.coplanar(o), lambda: s.coplanar(p), lambda: s.overlap(o), lambda: s.overlap(o, check_collinear=True),
          lambda: s.intersect(o), lambda: s.intersect(o, method='almost', correct_overlap=True), lambda: s.distance(o), lambda: s.distance(p),
          lambda: s.shortest_segment(o), lambda: s.shortest_segment(p), lambda: s.to_curve(), lambda: s.reverse(), lambda: s.direction,
          lambda: s.data, lambda: s.seglen, lambda: s.singular, lambda: repr(s), lambda: s == o]
    w.keep('geometry result', rngpick(w, fs)())


def op_interp(w):
    rng = w.rng
    c = w.curve(5)
    if not np.all(np.diff(c.t) > 1e-3):
        c = w.keep('Curve', Curve(w.give('array', np.array(w.rows(6))), tdata=w.give('t', np.arange(6.0))))
    method = rng.choice(['linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps'])
    kw = {}
    if method in ('spline', 'csaps') and rng.random() < 0.5:
        kw['weights'] = w.give('weights', np.linspace(1, 2, c.size))
    t = c.t
    k = rng.randint(0, 5)
    g = (rng.randint(2, 9) if k == 0 else w.give('grid', np.linspace(t[0], t[-1], 7)) if k == 1 else
         w.give('grid list', np.linspace(t[0], t[-1], 4).tolist()) if k == 2 else t if k == 3 else
         w.give('grid object', rng.choice([UniformInterpolationGrid(5), UniformExtrapolationGrid(UniformInterpolationGrid(4), 2, 1),
                                           PreservedSpeedInterpolationGrid(6)])))
    r = w.keep('interpolated', c.interpolate(g, method, **kw))
    w.case.check(not r.size or not np.shares_memory(r.data, c.data), 'interpolation returns its own data')
    if k > 3:
        x = w.keep('grid values', g(c))
        if x.flags.writeable:
            y = snap(c)
            z = x.copy()
            x[...] = 5
            w.kept.pop()
            w.case.check(snap(c) == y, 'a write into the grid values changes the curve')
            w.keep('grid values', g(c))
            w.case.check(np.array_equal(z, g(c)), 'the grid is recomputed from the curve')


WINDOWS = {}


def op_smooth(w):
    rng = w.rng
    c = w.curve(5)
    if rng.random() < 0.4:
        r = c.smooth('savgol', window_length=5, polyorder=2)
    elif rng.random() < 0.5:
        r = c.smooth('window', window_size=rng.choice([3, 4, 5]), window_type=rng.choice(['hann', 'hamming', 'boxcar']), mode=rng.choice(['reflect', 'nearest', 'wrap']))
    else:
        arr = w.give('window', np.array([1.0, 2.0, 5.0]))
        r = c.smooth('window', window_size=3, window_type=lambda n: arr)
    w.keep('smoothed', r)
    w.case.check(not np.shares_memory(r.data, c.data), 'smoothing returns its own data')


def op_intersect(w):
    rng = w.rng
    c, d = w.curve(), rng.choice([w.curve(), w.seg(), None])
    kw = rng.choice([{}, {'method': 'exact'}, {'method': 'almost', 'dist_tol': 0.5}, {'method': 'almost', 'dist_tol': 1.0, 'remove_extra': True, 'extra_tol': 0.5, 'correct_overlap': True}])
    if rng.random() < 0.2:
        kw = {'method': w.give('method', sk.get_intersect_method('almost', dist_tol=0.3))}
    if not c.size and d is None:
        return
    r = c.intersect(d, **kw) if rng.random() < 0.7 or not isinstance(d, Segment) else d.to_curve().intersect(c, **kw)
    w.kept.append(('intersections', r, snap(r)))


def op_bad(w):
    """Rejected requests leave no trace either."""
    rng = w.rng
    c, p, s = w.curve(2), w.point(), w.seg()
    f = rng.choice([lambda: c[c.size], lambda: c.insert(c.size + 1, p), lambda: c.delete(c.size), lambda: c.insertdim(c.ndim + 5),
                    lambda: c.interpolate(5, 'nope'), lambda: c.interpolate(1, 'linear'), lambda: c.interpolate([1, 0], 'linear'),
                    lambda: c.smooth('nope'), lambda: c.smooth('savgol', window_length=2, polyorder=9),
                    lambda: c.smooth('window', window_size=3, window_type=lambda n: 1 / 0),
                    lambda: c.intersect(method='nope'), lambda: c.intersect(Curve([(0, 1)] * (w.n + 1))), lambda: p + 'a', lambda: p.distance(p, metric='nope'),
                    lambda: s.collinear(3), lambda: s.angle(p), lambda: sk.set_default_intersect_method('nope'), lambda: Curve([1, 2]),
                    lambda: c.intersect(method='exact', nope=1), lambda: sk.register_interpolator('linear')(sk.InterpolatorBase), lambda: Segment(p, 3)])
    try:
        f()
    except Exception:
        w.case.ev('rejected requests')


def op_gc(w):
    """Forget some objects, so that their identities are used again."""
    rng = w.rng
    if len(w.kept) > 12:
        for _ in range(4):
            w.kept.pop(rng.randrange(len(w.kept)))
        w.curves = [c for c in w.curves if rng.random() < 0.7]
        w.points = [p for p in w.points if rng.random() < 0.6]
        w.segs = [p for p in w.segs if rng.random() < 0.6]
        if rng.random() < 0.3:
            gc.collect()


OPS = [op_new, op_point, op_arith, op_inplace, op_metric, op_getitem, op_points, op_segments, op_read, op_read, op_scalars, op_write, op_writederived,
       op_writederived, op_assign, op_edit, op_edit, op_edit, op_edit, op_drop, op_geometry, op_geometry, op_geometry, op_interp, op_interp,
       op_smooth, op_intersect, op_intersect, op_bad, op_bad]


def read(c, a):
    try:
        return getattr(c, a)
    except np.linalg.LinAlgError:       # e.g. rank of non-finite coordinates (extrapolated by Akima)
        return float('nan')


def fresh_values(c):
    f = Curve(np.array(c.data), tdata=np.array(c.t) if c.isparametric else None)
    return {a: read(f, a) for a in CURVE_PROPS}, f


def reread(case, c, what):
    """Derived values read now equal those of a fresh copy, and reading again equals reading once."""
    want, f = fresh_values(c)
    for a in case.rng.sample(CURVE_PROPS, len(CURVE_PROPS)):
        x, y = read(c, a), read(c, a)
        case.check(snap(x) == snap(y), 'reading %s twice gives the same' % a, what)
        case.check(np.shape(x) == np.shape(want[a]) and gen.close(x, want[a], 1e-12, 1e-300), '%s equals that of a fresh copy' % a, what, x, want[a], c)
        case.ev('fresh-copy comparisons')


def history(case):
    w = World(case)
    for _ in range(2):
        w.new_curve(case.rng.randint(3, 9))
    n = case.rng.randint(8, 26)
    for _ in range(n):
        op = case.rng.choice(OPS)
        name = op.__name__[3:]
        case.rec(name)
        case.ev('op ' + name)
        op(w)
        w.verify('operation ' + name)
        if case.rng.random() < 0.12:
            w.scribble()
        if case.rng.random() < 0.08:
            op_gc(w)
            w.verify('forgetting objects')
    w.scribble()
    for c in w.curves[:6]:
        if c.size:
            reread(case, c, [e[0] for e in case.log])
    w.verify('reading derived values')
    case.sig(case.log, w.n)
    case.sample([e[0] for e in case.log])


def each(case):
    """Every operation in turn on a fresh world, with the caller's arrays overwritten afterwards."""
    w = World(case)
    w.new_curve(case.rng.randint(4, 8), par=case.rng.random() < 0.5)
    op = OPS[case.index % len(OPS)]
    case.rec(op.__name__)
    for _ in range(3):
        op(w)
        w.verify('operation ' + op.__name__[3:])
    w.scribble()
    for c in w.curves[:2]:
        if c.size:
            reread(case, c, op.__name__)
    case.check(True, '')
    case.sig(op.__name__, case.index)


def reuse(case):
    """Many short-lived curves: derived values belong to the object, not to its identity, size or look."""
    rng = case.rng
    n = gen.ndim(rng, 2, 4)
    m = rng.randint(3, 8)
    base = np.array(gen.rows(rng, m, n, 'lattice'))
    live = []
    for k in range(rng.randint(10, 25)):
        how = rng.randint(0, 5)
        a = base.copy()
        if how == 0:
            a = np.array(gen.rows(rng, m, n, 'walk'))
        elif how == 1:
            a = a[::-1].copy()
        elif how == 2:
            a = a + 1e-9 * rng.randint(1, 9)          # equal to the base for ==
        elif how == 3:
            a = np.array(gen.rows(rng, m, n, 'lattice')).astype('int64')
        elif how == 4:
            a = a * 2
        t = gen.tdata(rng, m, 'nonuni') if rng.random() < 0.5 else None
        c = Curve(a, tdata=t)
        a = a.astype(float)
        ch = [math.sqrt(sum((x - y) ** 2 for x, y in zip(p, q))) for p, q in zip(a.tolist(), a.tolist()[1:])]
        live.append((c, a, t, ch))
        if rng.random() < 0.5:
            live.pop(rng.randrange(len(live)))
            gc.collect() if rng.random() < 0.1 else None
        for c, a, t, ch in live[-3:]:
            k = rng.randint(0, 4)
            if k == 0:
                case.check(gen.close(c.chordlen, ch, 1e-9, 1e-13), 'chordlen of one of many curves', a, t)
            elif k == 1:
                case.check(gen.close(c.firstderiv, diff(a), 1e-9, 1e-13), 'firstderiv of one of many curves', a, t)
            elif k == 2:
                case.check(gen.close(c.t, t if t is not None else np.hstack([0, np.cumsum(ch)]), 1e-9, 1e-12), 't of one of many curves', a, t)
            elif k == 3:
                s = c.segments[rng.randrange(m - 1)]
                case.check(s.curve is c and gen.close(s.data, a[s.idx:s.idx + 2], 0, 0), 'segment of one of many curves', a, t)
            else:
                i = rng.randrange(m)
                case.check(gen.close(c[i].secondderiv, diff(diff(a))[i], 1e-9, 1e-12), 'secondderiv of a point of one of many curves', a, t)
            case.ev('values of short-lived curves')
    for c, a, t, ch in rng.sample(live, min(3, len(live))):
        reread(case, c, 'many curves')
    case.sig(base.tolist(), case.index)


class Scheduler:
    """Runs threads one at a time and switches between them at random traced lines of skcurve."""

    def __init__(self, rng, n, p):
        self.rng, self.n, self.p = rng, n, p
        self.cv = threading.Condition()
        self.turn = 0
        self.done = set()
        self.switches = []

    def wait_turn(self, me):
        with self.cv:
            end = time.time() + 0.5
            while self.turn != me:
                if not self.cv.wait(0.05) and time.time() > end:
                    break               # the running thread is blocked on something we hold: go on

    def switch(self, me):
        with self.cv:
            others = [i for i in range(self.n) if i not in self.done and i != me]
            if not others:
                return
            self.turn = self.rng.choice(others)
            self.switches.append((me, self.turn))
            self.cv.notify_all()
        self.wait_turn(me)

    def finish(self, me):
        with self.cv:
            self.done.add(me)
            others = [i for i in range(self.n) if i not in self.done]
            if others:
                self.turn = self.rng.choice(others)
            self.cv.notify_all()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == 'line' and self.rng.random() < self.p:
                self.lines.append((me, frame.f_code.co_name, frame.f_lineno))
                self.switch(me)
            return local

        def glob(frame, event, arg):
            return local if '/skcurve/' in frame.f_code.co_filename else None
        return glob

    lines = None


def threads(case):
    import sys
    rng = case.rng
    n, m = gen.ndim(rng, 2, 4), rng.randint(4, 10)
    rows = gen.rows(rng, m, n, rng.choice(['walk', 'lattice', 'float', 'closed']))
    t = gen.tdata(rng, m, 'nonuni') if rng.random() < 0.5 else None

    def make():
        return Curve(np.array(rows), tdata=t)
    jobs = {a: (lambda c, a=a: getattr(c, a)) for a in CURVE_PROPS}
    jobs.update({
        'segments': lambda c: [(s.idx, s.data.tolist()) for s in c.segments],
        'points': lambda c: [(p.idx, p.data.tolist(), float(p.t)) for p in c],
        'p.frenet2': lambda c: c[m // 2].frenet2, 'p.speed': lambda c: c[1].speed, 'p.curvature': lambda c: c[-1].curvature,
        'intersect': lambda c: [(i.segment1.idx, i.segment2.idx, i.intersect_type.name, i.intersect_point.data.tolist()) for i in c.intersect()],
        'almost': lambda c: [(i.segment1.idx, i.segment2.idx) for i in c.intersect(method='almost', dist_tol=0.5)],
        'cut': lambda c: c[1:-1].data, 'reverse': lambda c: c.reverse().data, 'slice t': lambda c: c[1:].t, 'smooth': lambda c: c.smooth('window', window_size=3).data,
        'count': lambda c: [c.count(p) for p in c], 'nonsingular': lambda c: c.nonsingular().data, 'unique': lambda c: c.unique().data,
        'interp': lambda c: c[:3].interpolate(4, 'linear').data if np.all(np.diff(c.t) > 1e-3) else None,
    })
    nt = rng.randint(2, 4)
    plans = [[rng.choice(sorted(jobs)) for _ in range(rng.randint(2, 6))] for _ in range(nt)]
    if rng.random() < 0.5:                       # everybody starts with the same quantity
        for p in plans:
            p[0] = plans[0][0]
    ref = make()
    want = {a: jobs[a](make()) for p in plans for a in p}
    shared = make()
    s0 = snap(shared)
    state = process_state()
    sch = Scheduler(rng, nt, rng.choice([0.02, 0.1, 0.3, 0.7]))
    sch.lines = []
    got = [[] for _ in range(nt)]
    errors = []

    def body(me):
        sch.wait_turn(me)
        sys.settrace(sch.tracer(me))
        try:
            for a in plans[me]:
                got[me].append((a, jobs[a](shared)))
        except Exception as e:
            errors.append('%s in thread %d: %r' % (plans[me], me, e))
        finally:
            sys.settrace(None)
            sch.finish(me)
    ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(nt)]
    for th in ths:
        th.start()
    for th in ths:
        th.join(60)
    if any(th.is_alive() for th in ths):
        raise RuntimeError('reader threads did not finish')
    how = (rows, t, plans)
    case.rec('plans', plans)
    case.rec('switches', sch.lines[:100])
    case.check(not errors, 'concurrent reading raised', errors, how)
    for me in range(nt):
        for a, v in got[me]:
            if isinstance(v, np.ndarray) or isinstance(v, float):
                case.check(gen.close(v, want[a], 1e-12, 1e-300), '%s read concurrently' % a, v, want[a], how)
            else:
                case.check(snap(v) == snap(want[a]), '%s read concurrently' % a, v, want[a], how)
            case.ev('concurrent reads')
    case.check(snap(shared) == s0, 'concurrent reading changed the curve', how)
    case.check(process_state() == state, 'concurrent reading changed process-wide state', how)
    for a in sorted(want):
        v = jobs[a](shared)
        case.check(snap(v) == snap(want[a]) or gen.close(v, want[a], 1e-12, 1e-300), '%s after concurrent reading' % a, how)
    case.ev('thread switches', len(sch.switches))
    case.sig(tuple(sch.lines), plans)
    case.sample({'plans': plans, 'switches': len(sch.switches)})


FAMILIES = [
    ('history', 700, 11000, history),
    ('each', 450, 6000, each),
    ('reuse', 500, 6000, reuse),
    ('threads', 500, 8000, threads),
]
