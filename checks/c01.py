"""C01 construction fidelity: reads of a constructed object against the given coordinates."""
import copy
import pickle
import itertools

import numpy as np

from skcurve import Axis, Curve, CurvePoint, Point, Segment
from vlib import gen

RULE = ('random rows x representation (list/tuple/array layouts/Point list/Curve/axis/higher-dim array) x ndmin x dtype '
        'x tdata; non-trivial: at least one coordinate, or an empty/invalid input whose outcome is specified')
ASSUMPTIONS = ['numpy astype is the meaning of a dtype conversion']


def verify_curve(case, c, exp, dtype, n, t, how):
    """Every way of reading curve c back must give the rows exp."""
    m = len(exp)
    want = np.array(exp, dtype=dtype).reshape(m, n)
    case.check(isinstance(c, Curve), 'not a Curve', how)
    d = c.data
    case.check(isinstance(d, np.ndarray) and d.shape == (m, n), 'data shape', how, d.shape, (m, n))
    case.check(d.dtype == np.dtype(dtype) and c.dtype == np.dtype(dtype), 'dtype', how, d.dtype, c.dtype, dtype)
    case.check(d.tolist() == want.tolist(), 'coordinates differ', how, d.tolist()[:20], want.tolist()[:20])
    case.check(len(c) == m and c.size == m, 'size', how, len(c), c.size)
    case.check(c.ndim == n, 'ndim', how, c.ndim, n)
    case.check(c.is2d == (n == 2) and c.is3d == (n == 3) and c.isspatial == (n >= 3), 'dimension predicates', how)
    case.check(bool(c) == (m > 0), 'truth value', how)
    wl = want.tolist()
    vals = [v.tolist() for v in c.values()]
    case.check(vals == [list(x) for x in zip(*wl)] if m else [len(v) for v in vals] == [0] * n, 'values()', how, vals)
    j = case.rng.randrange(n)
    case.check(c.values(j).tolist() == [r[j] for r in wl], 'values(axis)', how, j)
    if n == 3:
        for a in (Axis.X, Axis.Y, Axis.Z):
            case.check(c.values(a).tolist() == [r[int(a)] for r in wl], 'values(Axis)', how, a)
    if m <= 40:
        pts = list(c)
        case.check(len(pts) == m and all(isinstance(p, CurvePoint) for p in pts), 'iteration', how)
        for i, p in enumerate(pts):
            case.check(p.data.tolist() == [float(x) for x in wl[i]] if not np.issubdtype(np.dtype(dtype), np.complexfloating)
                       else True, 'point coordinates', how, i, p.data.tolist(), wl[i])
            case.check(p.idx == i and p.curve is c, 'point index', how, i, p.idx)
        if m:
            case.check([p.idx for p in reversed(c)] == list(range(m))[::-1], 'reversed iteration', how)
    if m:
        i = case.rng.randrange(-m, m)
        if not np.issubdtype(np.dtype(dtype), np.complexfloating):
            case.check([float(x) for x in c[i].data] == [float(x) for x in wl[i]], 'indexing', how, i)
    case.raises(IndexError, lambda: c[m], 'index past the end', how)
    case.check(c.isparametric == (t is not None), 'isparametric', how)
    if t is not None:
        case.check(c.t.tolist() == [float(x) for x in t], 't', how, c.t.tolist()[:20], t[:20])
    repr(c)


def convert(rows, dtype):
    """The rows in the dtype: integers exactly, everything else rounded once."""
    if not dtype.startswith('float') and all(type(x) is int for r in rows for x in r):
        return [tuple(r) for r in rows]
    return np.array(rows, dtype='float64').astype(dtype).tolist()


def construct(case):
    rng = case.rng
    src_dtype = rng.choice(gen.ALL_DTYPES)
    n, m = gen.ndim(rng), gen.size(rng, 1, 12, huge=1500)
    rows = gen.rows(rng, m, n, 'hugeint' if src_dtype == 'int64' and rng.random() < 0.3 else None, src_dtype)
    form = rng.choice(['lists', 'tuples', 'arrays', 'ranges', 'array', 'array', 'array1', 'arrayneg', 'rowsaxis0', 'points', 'nested'])
    req = rng.choice([None, None, None, src_dtype, 'float64', 'float32', 'int64'])
    if req and not req.startswith('float') and not all(float(x).is_integer() for r in rows for x in r):
        req = None
    asclass = {'float64': float, 'float32': np.float32, 'int64': int}.get(req, req)
    kw = {}
    if req:
        kw['dtype'] = rng.choice([req, np.dtype(req), asclass])
    cols = [list(x) for x in zip(*rows)]
    isarr = False
    if form == 'lists':
        data = cols
    elif form == 'tuples':
        data = tuple(tuple(x) for x in cols)
    elif form == 'arrays':
        data = [np.array(x, dtype=src_dtype) for x in cols]
    elif form == 'ranges':
        data = [range(i, i + m) for i in range(n)]
        rows = [tuple(float(i + j) for i in range(n)) for j in range(m)]
        if req in ('int8', 'uint8', 'float16') or src_dtype in ('int8', 'uint8', 'float16'):
            kw.pop('dtype', None)
            req = None
    elif form == 'array':
        data, isarr = gen.array(rows, n, src_dtype, rng), True
    elif form in ('array1', 'arrayneg'):
        data, isarr = gen.array(rows, n, src_dtype, rng).T, True
        kw['axis'] = 1 if form == 'array1' else -1
    elif form == 'rowsaxis0':
        data = [list(r) for r in rows]
        kw['axis'] = rng.choice([0, -2])
    elif form == 'points':
        data = [Point(r, dtype=src_dtype if src_dtype == 'int64' else None) for r in rows]
        kw['axis'] = 0
    else:
        # nested sequences with a trailing axis of one element
        data = [[[x] for x in col] for col in cols]
    exp_dtype = req or (src_dtype if isarr else 'float64')
    dtype_ok = True
    if exp_dtype.startswith(('int', 'uint')):
        info = np.iinfo(exp_dtype)
        dtype_ok = all(info.min <= x <= info.max for r in rows for x in r)
    if not dtype_ok:
        kw.pop('dtype')
        exp_dtype = src_dtype if isarr else 'float64'
    ndmin = rng.choice([None, None, None, 2, n, n + 1, n + 2, max(2, n - 1)])
    exp = [tuple(r) for r in rows]
    nn = n
    if ndmin is not None:
        kw['ndmin'] = ndmin
        if ndmin > n:
            nn = ndmin
            exp = [r + (0,) * (ndmin - n) for r in exp]
    t = gen.tdata(rng, m) if rng.random() < 0.4 else None
    targ = None
    if t is not None:
        targ = rng.choice([lambda: list(t), lambda: tuple(t), lambda: np.array(t)])()
        kw['tdata'] = targ
    before = [np.array(x).tolist() for x in data] if form != 'points' else None
    how = (form, src_dtype, kw.get('dtype'), kw.get('axis'), ndmin, m, n)
    case.rec('Curve', how)
    c = Curve(data, **kw)
    verify_curve(case, c, convert(exp, exp_dtype),
                 exp_dtype, nn, t, how)
    if before is not None:
        case.check([np.array(x).tolist() for x in data] == before, 'the given data changed', how)
    # later changes of the caller's array must not reach the curve
    if isinstance(data, np.ndarray) and data.flags.writeable:
        snap = c.data.tolist()
        data[...] = 77
        case.check(c.data.tolist() == snap, 'curve shares memory with the given array', how)
    if isinstance(targ, np.ndarray):
        targ += 13.5
        case.check(c.t.tolist() == [float(x) for x in t], 'curve shares memory with the given tdata', how)
    case.sig(how, tuple(rows[:3]))
    case.sample({'form': form, 'dtype': str(exp_dtype), 'm': m, 'n': n, 'ndmin': ndmin, 'first': rows[:2]})


def ndarray_axis(case):
    """Arrays of three and more dimensions: the points lie along the axis, the rest is flattened in order."""
    rng = case.rng
    k = rng.randint(2, 4)
    shape = tuple(rng.randint(1, 4) for _ in range(k))
    axis = rng.randrange(-k, k)
    ax = axis % k
    m = shape[ax]
    rest = [s for i, s in enumerate(shape) if i != ax]
    n = 1
    for s in rest:
        n *= s
    flat = list(range(int(np.prod(shape))))
    rng.shuffle(flat)
    dt = rng.choice(['float64', 'int32', 'float32'])
    a = np.array(flat, dtype=dt).reshape(shape)
    if rng.random() < 0.3:
        a = np.asfortranarray(a)
    aslist = rng.random() < 0.3
    default = rng.random() < 0.3
    if default:
        ax = 1 if aslist else 0
        m = shape[ax]
        rest = [s for i, s in enumerate(shape) if i != ax]
        n = int(np.prod(rest))

    def get(idx):
        pos = 0
        for s, i in zip(shape, idx):
            pos = pos * s + i
        return float(flat[pos])

    exp = []
    for i in range(m):
        exp.append(tuple(get(r[:ax] + (i,) + r[ax:]) for r in itertools.product(*[range(s) for s in rest])))
    kw = {} if default else {'axis': axis}
    how = (shape, axis, aslist, default)
    data = a.tolist() if aslist else a
    case.sig(how)
    if n < 2:
        case.raises(ValueError, lambda: Curve(data, **kw), 'one-dimensional data', how)
        return
    verify_curve(case, Curve(data, **kw), exp, 'float64' if aslist else dt, n, None, how)
    case.raises(ValueError, lambda: Curve(data, axis=k + rng.randint(0, 3)), 'axis out of range', how)
    case.sample({'shape': shape, 'axis': axis})


def repickle(rng, x):
    return pickle.loads(pickle.dumps(x, rng.choice([0, 1, 2, 3, 4]) if not isinstance(x, Segment) else rng.choice([2, 3, 4])))


def copies(case):
    rng = case.rng
    dt = rng.choice(gen.ALL_DTYPES)
    n, m = gen.ndim(rng), gen.size(rng, 0, 10)
    rows = gen.rows(rng, m, n, 'hugeint' if dt == 'int64' and rng.random() < 0.3 else None, dt)
    t = gen.tdata(rng, m) if rng.random() < 0.5 else None
    c = Curve(gen.array(rows, n, dt), tdata=t)
    exp = [tuple(r) for r in rows]
    verify_curve(case, c, exp, dt, n, t, ('source', m, n, dt))
    for name, d in (('Curve(c)', Curve(c)), ('copy', copy.copy(c)), ('deepcopy', copy.deepcopy(c)), ('unpickled', repickle(rng, c)),
                    ('full slice', c[:]), ('Curve(c, tdata)', Curve(c, tdata=[1.0] * (m + 1)))):
        verify_curve(case, d, exp, dt, n, t, (name, m, n, dt))
    if m > 1 and rng.random() < 0.3:
        i = rng.randrange(m - 1)
        p, g = repickle(rng, c[i]), repickle(rng, c.segments[i])
        case.check(type(p) is CurvePoint and p.idx == i and p.data.tolist() == c[i].data.tolist(), 'unpickled curve point', i, dt, p)
        case.check(g.idx == i and g.p1.data.tolist() == c[i].data.tolist() and g.p2.data.tolist() == c[i + 1].data.tolist(), 'unpickled curve segment', i, dt, g)
        for o, d in ((p, p.curve), (g, g.curve)):
            verify_curve(case, d, exp, dt, n, t, ('curve of an unpickled part', m, n, dt))
            case.check(o.data is not None and not d.data.flags.writeable, 'unpickled curve refuses writes', dt)
    a, b = sorted((rng.randint(0, m), rng.randint(0, m)))
    verify_curve(case, c[a:b], exp[a:b], dt, n, None if t is None else t[a:b], ('slice', a, b, m, n, dt))
    verify_curve(case, c[b:a], exp[b:a], dt, n, None if t is None else t[b:a], ('slice', b, a, m, n, dt))
    nm = n + rng.randint(-1, 3)
    if nm >= 2:
        e2 = [r + (0,) * max(0, nm - n) for r in exp]
        verify_curve(case, Curve(c, ndmin=nm), e2, dt, max(n, nm), t, ('ndmin', nm, m, n, dt))
    if dt in ('float64', 'int16', 'uint8') and all(float(x).is_integer() for r in rows for x in r):
        verify_curve(case, Curve(c, dtype='float32'), np.array(exp).astype('float32').tolist() if m else [],
                     'float32', n, t, ('dtype', m, n, dt))
    case.sig(m, n, dt, tuple(rows[:3]), t is None)
    case.sample({'m': m, 'n': n, 'dtype': dt, 'parametric': t is not None})


def empties(case):
    rng = case.rng
    nd = rng.choice([None, 2, 3, 5])
    kw = {} if nd is None else {'ndmin': nd}
    dt = rng.choice([None, 'int32', 'float32'])
    if dt:
        kw['dtype'] = dt
    data = rng.choice([[], (), [[], []], np.array([]), np.empty((0, 2)), np.array([], ndmin=2)])
    c = Curve(data, **kw)
    verify_curve(case, c, [], dt or 'float64', nd or 2, None, ('empty', nd, repr(data)))
    case.check(len(c.segments) == 0 and list(c) == [], 'empty curve has no segments and points', nd)
    m, n = rng.randint(0, 4), gen.ndim(rng)
    d = Curve(gen.array(gen.rows(rng, m, n, 'lattice'), n, 'int32'), tdata=rng.choice([None, list(range(m))]))
    e = d[m:]
    verify_curve(case, e, [], 'int32', n, [] if d.isparametric else None, ('empty sub-curve', m, n))
    for f in (copy.copy(e), Curve(e), e[:], e.reverse(), copy.deepcopy(e), repickle(rng, e)):
        verify_curve(case, f, [], 'int32', n, [] if d.isparametric else None, ('empty copy', m, n))
    verify_curve(case, Curve(e, ndmin=n + 1), [], 'int32', n + 1, [] if d.isparametric else None, ('empty copy ndmin', m, n))
    case.sig(nd, dt, repr(data), m, n)
    case.sample({'ndmin': nd, 'dtype': dt, 'm': m, 'n': n})


def points(case):
    rng = case.rng
    dt = rng.choice(gen.ALL_DTYPES)
    n = rng.choice([1, 2, 3, 4, 7])
    row = gen.rows(rng, 1, n, 'hugeint' if dt == 'int64' and rng.random() < 0.3 else None, dt)[0]
    src = rng.choice([list(row), tuple(row), np.array(row, dtype=dt), gen.array([row], n, dt, rng)[0] if n > 1 else list(row),
                      Point(row, dtype=dt)])
    use = rng.random() < 0.6
    p = Point(src, dtype=dt) if use else Point(src)
    want_dt = np.dtype(dt if use else 'float64')
    how = (dt, use, row, type(src).__name__)
    case.check(p.dtype == want_dt and p.data.dtype == want_dt, 'point dtype', how, p.dtype)
    case.check(p.data.tolist() == np.array(row).astype(want_dt).tolist(), 'point coordinates', how, p.data.tolist())
    case.check(len(p) == n and p.ndim == n and bool(p), 'point size', how)
    lst = p.data.tolist()
    case.check([float(x) for x in p] == [float(x) for x in lst], 'point iteration', how)
    for i in range(-n, n):
        case.check(float(p[i]) == float(lst[i]), 'point indexing', how, i)
    case.raises(IndexError, lambda: p[n], 'point index out of range', how)
    case.raises(IndexError, lambda: p[-n - 1], 'point index out of range', how)
    sl = slice(rng.randint(-n, n), rng.randint(-n, n), rng.choice([None, 1, 2, -1]))
    sub = p[sl]
    case.check([float(x) for x in np.ravel(np.asarray(sub))] == [float(x) for x in lst[sl]], 'point slice', how, sl)
    if len(lst[sl]) > 1:
        case.check(isinstance(sub, Point), 'slice of several coordinates is a Point', how, sl)
    if isinstance(src, np.ndarray) and src.flags.writeable:
        src[...] = 99
        case.check(p.data.tolist() == lst, 'point shares memory with the given array', how)
    for name, q in (('copy', copy.copy(p)), ('deepcopy', copy.deepcopy(p)), ('unpickled', repickle(rng, p))):
        case.check(type(q) is Point and q.dtype == p.dtype and q.data.tolist() == lst, 'point ' + name, how, q.dtype)
    e = Point([])
    case.check(not e and len(e) == 0 and e.ndim == 0, 'empty point')
    s = None
    if n >= 1:
        q = Point([x + 1 for x in lst]) if not dt.startswith(('int8', 'uint8')) else Point([0] * n)
        s = Segment(p, q)
        case.check(s.p1.data.tolist() == lst and s.p2 is not None and s.ndim == n, 'segment end points', how)
        case.check(s.data.tolist() == [[float(x) for x in lst], [float(x) for x in q.data]], 'segment data', how)
        u = repickle(rng, s)
        case.check(type(u) is Segment and u.p1.data.tolist() == lst and u.p2.data.tolist() == s.p2.data.tolist() and u.p1.dtype == s.p1.dtype, 'unpickled segment', how, u)
    repr(p), repr(s)
    case.sig(how[:2], row)
    case.sample({'row': row, 'dtype': dt})


def rejects(case):
    rng = case.rng
    n, m = gen.ndim(rng), rng.randint(1, 6)
    rows = gen.rows(rng, m, n, 'lattice')
    cols = [list(x) for x in zip(*rows)]
    a = np.array(rows)
    src = rng.choice([cols, a, Curve(a)])
    k = rng.choice(['dtype', 'onedim', 'ndmin', 'tshape', 'tsize', 'axis', 'pdtype', 'p2d', 'values', 'seg', 'strings'])
    how = (k, m, n, type(src).__name__)
    if k == 'dtype':
        bad = rng.choice([str, bool, object, np.bool_, 'U5', 'datetime64[s]', np.dtype('S3')])
        case.raises(ValueError, lambda: Curve(src, dtype=bad), 'non-numeric dtype', how, bad)
    elif k == 'pdtype':
        bad = rng.choice([str, bool, object, np.bool_, 'U5', np.dtype('S3')])
        case.raises(ValueError, lambda: Point(rows[0], dtype=bad), 'non-numeric dtype', how, bad)
    elif k == 'onedim':
        bad = rng.choice([[1, 2, 3], np.array([1.0, 2.0]), [[1, 2, 3]], np.zeros((m, 1)), np.arange(3)])
        ax = {} if not (isinstance(bad, list) and not isinstance(bad[0], list)) else {'axis': 0}
        case.raises(ValueError, lambda: Curve(bad, **ax), 'data of fewer than two dimensions', how, bad)
        case.raises(ValueError, lambda: Curve(bad), 'data of fewer than two dimensions', how, bad)
    elif k == 'ndmin':
        bad = rng.choice([1, 0, -1, -5])
        case.raises(ValueError, lambda: Curve(src, ndmin=bad), 'ndmin below two', how, bad)
        case.raises(ValueError, lambda: Curve([], ndmin=bad), 'ndmin below two', how, bad)
    elif k == 'tshape':
        s = cols if isinstance(src, Curve) else src
        bad = rng.choice([np.zeros((m, 1)), np.zeros((1, m)), np.zeros((m, m))])
        case.raises(ValueError, lambda: Curve(s, tdata=bad), 'tdata is not one-dimensional', how, bad.shape)
    elif k == 'tsize':
        s = cols if isinstance(src, Curve) else src
        bad = list(range(rng.choice([x for x in (0, 1, m - 1, m + 1, 2 * m, m * n) if x != m])))
        case.raises(ValueError, lambda: Curve(s, tdata=bad), 'tdata size', how, len(bad))
        case.raises(ValueError, lambda: Curve([], tdata=[1.0]), 'tdata of an empty curve', how)
    elif k == 'axis':
        s = cols if isinstance(src, Curve) else src
        case.raises(ValueError, lambda: Curve(s, axis=2 + rng.randint(0, 3)), 'axis out of range', how)
    elif k == 'p2d':
        case.raises(ValueError, lambda: Point(a), 'two-dimensional point data', how)
        case.raises(ValueError, lambda: Point([rows[0], rows[0]]), 'two-dimensional point data', how)
    elif k == 'values':
        c = Curve(a)
        case.raises(ValueError, lambda: c.values(n), 'values axis out of range', how)
        case.raises(ValueError, lambda: c.values(n + 3), 'values axis out of range', how)
        case.raises(ValueError, lambda: c.values('x'), 'values axis type', how)
        case.raises(ValueError, lambda: c.values(1.0), 'values axis type', how)
    elif k == 'seg':
        case.raises(ValueError, lambda: Segment(Point(rows[0]), Point(list(rows[0]) + [1])), 'segment of mixed dimension', how)
        case.raises(TypeError, lambda: Segment(rows[0], Point(rows[0])), 'segment of a tuple', how)
        case.raises(TypeError, lambda: Segment(Point(rows[0]), rows[0]), 'segment of a tuple', how)
        case.raises(ValueError, lambda: Segment(Point([]), Point([])), 'segment of empty points', how)
    else:
        case.raises(ValueError, lambda: Curve([['a', 'b'], ['c', 'd']]), 'strings', how)
        case.raises(ValueError, lambda: Point(['a', 'b']), 'strings', how)
    case.sig(how, tuple(rows[:1]))
    case.sample({'kind': k})


def bigcurves(case):
    rng = case.rng
    m, n = rng.randint(300, 5000), rng.choice([2, 3])
    rows = gen.rows(rng, m, n, 'float')
    cols = [list(x) for x in zip(*rows)]
    t = gen.tdata(rng, m, rng.choice(['nonuni', 'rand']))
    c = Curve(rng.choice([cols, np.array(rows), [np.array(x) for x in cols]]), tdata=t)
    verify_curve(case, c, rows, 'float64', n, t, ('big', m, n))
    case.sig(m, n, rows[0])
    case.sample({'m': m, 'n': n})


FAMILIES = [
    ('construct', 6000, 100000, construct),
    ('ndarray_axis', 2500, 40000, ndarray_axis),
    ('copies', 1500, 24000, copies),
    ('empties', 1000, 10000, empties),
    ('points', 3000, 40000, points),
    ('rejects', 2000, 30000, rejects),
    ('bigcurves', 80, 800, bigcurves),
]
