"""C08: finite-difference derivatives and Frenet frames."""
import warnings

import numpy as np

from skcurve import Curve, DifferentialGeometryWarning
from vlib import gen

RULE = ('random curves (1..60 points, some of several hundred; dims 2..6; float and integer dtypes; walks, smooth samples, '
        'straight, planar, closed and stationary curves) against second-order difference formulas and Gram-Schmidt; '
        'non-trivial: at least two distinct points')
ASSUMPTIONS = ['coordinates at most 1e4, so that rounding stays far below the thresholds of "not defined"',
               'points where a normal is within rounding of the threshold are not compared']

NAMES = ['firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed', 'normal', 'binormal', 'frenet1', 'frenet2', 'frenet3']


def diff(a):
    a = np.asarray(a, dtype=np.float64)
    m = len(a)
    r = np.zeros_like(a)
    if m == 1:
        return r
    if m == 2:
        r[0] = r[1] = a[1] - a[0]
        return r
    r[1:-1] = (a[2:] - a[:-2]) / 2
    r[0] = (-3 * a[0] + 4 * a[1] - a[2]) / 2
    r[-1] = (3 * a[-1] - 4 * a[-2] + a[-3]) / 2
    return r


def shape_rows(rng, m, n, dt):
    k = rng.choice(['walk', 'walk', 'float', 'smooth', 'smooth', 'line', 'nonuniline', 'plane', 'lattice', 'dup', 'const', 'closed', 'poly'])
    isint = not dt.startswith('float')
    if isint and k not in ('walk', 'line', 'lattice', 'dup', 'const', 'closed'):
        k = 'walk'
    if k in ('walk', 'float', 'lattice', 'dup', 'closed', 'line'):
        return k, gen.rows(rng, m, n, k, dt)
    if k == 'const':
        return k, gen.rows(rng, 1, n, 'lattice', dt) * m
    ts = [i * rng.uniform(0.05, 0.4) if False else i * 0.2 for i in range(m)]
    if k == 'smooth':
        A = [[rng.uniform(-3, 3) for _ in range(3)] for _ in range(n)]
        w = rng.uniform(0.3, 1.5)
        return k, [tuple(a[0] * np.sin(w * t + j) + a[1] * np.cos(2 * w * t) + a[2] * t for j, a in enumerate(A)) for t in ts]
    d = np.array([rng.uniform(-2, 2) for _ in range(n)])
    o = np.array([rng.uniform(-5, 5) for _ in range(n)])
    if k == 'nonuniline':
        s = np.cumsum([rng.choice([0.5, 1.0, 2.5, rng.uniform(0.1, 2)]) for _ in range(m)])
        return k, [tuple(r) for r in (o + s[:, None] * d).tolist()]
    if k == 'poly':
        c = np.array([[rng.randint(-4, 4) / 4 for _ in range(n)] for _ in range(3)])
        x = np.arange(m)[:, None]
        return k, [tuple(r) for r in (c[0] + c[1] * x + c[2] * x * x / 8).tolist()]
    e = np.array([rng.uniform(-2, 2) for _ in range(n)])
    u = np.array([[np.sin(t), np.cos(1.3 * t)] for t in ts])
    return k, [tuple(r) for r in (o + u[:, :1] * d + u[:, 1:] * e).tolist()]


def gram(a, tan, sd, td):
    """Reference frames with a per-point status: 1 defined, 0 undefined, -1 too close to say."""
    noise = 20 * 2.3e-16 * float(np.max(np.abs(a), initial=0.0))

    def unit(v, scale, low=noise):
        nv = np.linalg.norm(v, axis=1)
        st = np.where(nv > 1e-4 * np.maximum(1.0, scale), 1, np.where(nv <= low, 0, -1))
        e = np.where(st[:, None] == 1, v / np.where(nv == 0, 1, nv)[:, None], 0.0)
        return e, st
    e1, s1 = unit(tan, np.zeros(len(tan)), 3e-10)
    nrm = sd - np.sum(sd * e1, axis=1)[:, None] * e1
    e2, s2 = unit(nrm, np.linalg.norm(sd, axis=1))
    s2 = np.where(s1 == -1, -1, s2)
    bin_ = td - np.sum(td * e1, axis=1)[:, None] * e1 - np.sum(td * e2, axis=1)[:, None] * e2
    e3, s3 = unit(bin_, np.linalg.norm(td, axis=1))
    s3 = np.where((s1 == -1) | (s2 == -1), -1, s3)
    return nrm, bin_, (e1, s1), (e2, s2), (e3, s3)


def get(case, c, name):
    """Value of the quantity and whether a DifferentialGeometryWarning was issued meanwhile."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        v = getattr(c, name)
    return v, any(issubclass(w.category, DifferentialGeometryWarning) for w in rec)


def definition(case):
    rng = case.rng
    dt = rng.choice(['float64'] * 5 + ['float32', 'int64', 'int32', 'uint8', 'int8'])
    n = gen.ndim(rng)
    m = rng.choice([1, 2, 3, 4, 5]) if rng.random() < 0.35 else gen.size(rng, 3, 24, big=0.05)
    if rng.random() < 0.006:
        m = rng.randint(300, 3000)
    if rng.random() < 0.01:
        n = rng.randint(7, 20)
    kind, rows = shape_rows(rng, m, n, dt)
    c = gen.curve(rng, gen.array(rows, n, dt, rng), gen.tdata(rng, m) if rng.random() < 0.3 else None)
    a = c.data.astype(np.float64)
    how = (kind, dt, m, n, rows[:6])
    case.rec(how)
    tol = 2e-5 if dt == 'float32' else 1e-10
    sc = float(np.abs(a).max()) + 1
    d1, d2, d3 = diff(a), diff(diff(a)), diff(diff(diff(a)))
    vals, warned = {}, {}
    for name in rng.sample(NAMES, len(NAMES)):
        vals[name], warned[name] = get(case, c, name)
        case.check(vals[name].shape == ((m,) if name == 'speed' else (m, n)), 'shape of ' + name, how, vals[name].shape)
        case.check(bool(np.all(np.isfinite(vals[name]))), name + ' is finite', how, vals[name].tolist()[:10])
    for name, want in (('firstderiv', d1), ('secondderiv', d2), ('thirdderiv', d3), ('tangent', d1)):
        case.check(gen.close(vals[name], want, tol, tol * sc), name, how, vals[name].tolist()[:8], want.tolist()[:8])
    case.check(gen.close(vals['speed'], np.linalg.norm(d1, axis=1), tol, tol * sc), 'speed', how)
    if dt == 'float32':
        case.sig(how)
        return
    nrm, bin_, *frames = gram(a, d1, d2, d3)
    ok2 = frames[0][1] >= 0
    case.check(gen.close(vals['normal'][ok2], nrm[ok2], 1e-8, 1e-10 * sc), 'normal', how, vals['normal'].tolist()[:8], nrm.tolist()[:8])
    ok3 = ok2 & (frames[1][1] >= 0)
    case.check(gen.close(vals['binormal'][ok3], bin_[ok3], 1e-7, 1e-9 * sc), 'binormal', how, vals['binormal'].tolist()[:8], bin_.tolist()[:8])
    fresh = Curve(a)
    for name, (e, st) in zip(('frenet1', 'frenet2', 'frenet3'), frames):
        v = vals[name]
        d = st == 1
        case.ev(name + ' defined', int(d.sum()))
        case.ev(name + ' undefined', int((st == 0).sum()))
        case.check(gen.close(v[d], e[d], 1e-6, 1e-6), name, how, v.tolist()[:8], e.tolist()[:8])
        case.check(gen.close(np.linalg.norm(v[d], axis=1), np.ones(int(d.sum())), 1e-9), name + ' has unit length', how)
        case.check(bool(np.all(np.abs(v[st == 0]) < 1e-6)), name + ' is zero where it is not defined', how, v[st == 0].tolist()[:4])
        if np.any(st == 0):
            w = get(case, fresh, name)[1]
            case.check(w, 'a warning where %s is not defined' % name, how)
    e1, e2, e3 = (vals[x] for x in ('frenet1', 'frenet2', 'frenet3'))
    s12 = (frames[0][1] == 1) & (frames[1][1] == 1)
    s123 = s12 & (frames[2][1] == 1)
    dot = lambda x, y: np.abs(np.sum(x * y, axis=1))
    case.check(bool(np.all(dot(e1, e2)[s12] < 1e-7)), 'frenet1 and frenet2 are orthogonal', how)
    case.check(bool(np.all(dot(e1, e3)[s123] < 1e-6) and np.all(dot(e2, e3)[s123] < 1e-6)), 'frenet3 is orthogonal to both', how)
    case.check(bool(np.all(np.sum(e2 * d2, axis=1)[s12] >= -1e-9)), 'the normal points along the second derivative', how)
    if m > 1 and len(set(rows)) > 1:
        case.sig(how)
    case.sample({'kind': kind, 'dtype': dt, 'rows': rows[:4]})


def invariance(case):
    rng = case.rng
    n, m = gen.ndim(rng, 2, 5), rng.randint(3, 20)
    kind, rows = shape_rows(rng, m, n, 'float64')
    a = np.array(rows)
    c = gen.curve(rng, a)
    q = gen.rotation(rng, n)
    v = np.array([rng.uniform(-3, 3) for _ in range(n)])
    how = (kind, m, n, rows[:5])
    sc = float(np.abs(a).max()) + 1

    def eq(x, y, law, tol=1e-10):
        case.check(gen.close(x, y, tol, tol * sc), law, how, np.asarray(x).tolist()[:6], np.asarray(y).tolist()[:6])
    r, t, s, k = c.reverse(), Curve(a + v), Curve(a @ q.T), Curve(a * 4.0)
    for name, sign in (('firstderiv', -1), ('secondderiv', 1), ('thirdderiv', -1)):
        x = getattr(c, name)
        eq(getattr(r, name), sign * x[::-1], name + ' of the reversed curve')
        eq(getattr(t, name), x, name + ' of the translated curve')
        eq(getattr(s, name), x @ q.T, name + ' of the rotated curve')
        eq(getattr(k, name), 4 * x, name + ' of the scaled curve')
    # curves that share values keep their own derivatives
    j = rng.randrange(m)
    b = a.copy()
    b[j] += 1.0
    eq(Curve(b).firstderiv, diff(b), 'derivative of a changed copy')
    eq(c.firstderiv, diff(a), 'derivative of the original')
    _, _, (e1, s1), (e2, s2), _ = gram(a, diff(a), diff(diff(a)), diff(diff(diff(a))))
    d1, d2 = s1 == 1, (s1 == 1) & (s2 == 1)
    eq(s.frenet1[d1], (e1 @ q.T)[d1], 'frenet1 of the rotated curve', 1e-6)
    eq(s.frenet2[d2], (e2 @ q.T)[d2], 'frenet2 of the rotated curve', 1e-6)
    eq(r.frenet1[::-1][d1], -e1[d1], 'frenet1 of the reversed curve', 1e-6)
    eq(r.frenet2[::-1][d2], e2[d2], 'frenet2 of the reversed curve', 1e-6)
    eq(k.frenet2[d2], e2[d2], 'frenet2 of the scaled curve', 1e-6)
    case.sig(how)
    case.sample({'kind': kind, 'rows': rows[:4]})


def analytic(case):
    """Frames of sampled analytic curves approach the analytic frames."""
    rng = case.rng
    R, b, ph = rng.uniform(0.5, 4), rng.choice([0.0, rng.uniform(0.2, 2)]), rng.uniform(0, 6)
    h = rng.uniform(0.01, 0.04)
    m = rng.randint(20, 160)
    t = ph + h * np.arange(m) * rng.choice([1, -1])
    n = rng.choice([2, 3]) if b == 0 else 3
    sg = np.sign(t[1] - t[0])
    x = np.stack([R * np.cos(t), R * np.sin(t), b * t], axis=1)[:, :n]
    c = Curve(x)
    T = sg * np.stack([-R * np.sin(t), R * np.cos(t), b + 0 * t], axis=1)[:, :n] / np.hypot(R, b)
    N = np.stack([-np.cos(t), -np.sin(t), 0 * t], axis=1)[:, :n]
    how = (R, b, h, m, n)
    err = 5 * h
    mid = slice(4, -4)
    case.check(gen.close(c.frenet1[mid], T[mid], 0, err), 'frenet1 of a helix/circle', how)
    case.check(gen.close(c.frenet2[mid], N[mid], 0, err), 'frenet2 of a helix/circle', how)
    case.check(gen.close(c.speed[mid], np.full(m, h * np.hypot(R, b))[mid], 1e-2, 0), 'speed of a helix/circle', how)
    if n == 3 and b:
        B = np.cross(T, N) * sg
        d = np.sum(c.frenet3[mid] * B[mid], axis=1)
        case.check(bool(np.all(np.abs(np.abs(d) - 1) < 0.1)), 'frenet3 of a helix', how)
    case.sig(how)
    case.sample({'R': R, 'b': b, 'h': h})


def empty(case):
    """An empty curve has no rows but all columns, one point has one row of zeros."""
    rng = case.rng
    n, m = rng.randint(2, 6), rng.choice([0, 1])
    dt = rng.choice(gen.ALL_DTYPES)
    if m or rng.random() < 0.5:
        c = Curve(gen.array(gen.rows(rng, m, n, 'lattice', dt), n, dt))
    else:
        c = Curve([], ndmin=n, dtype=dt)
    order = rng.sample(NAMES, len(NAMES))
    for name in order:
        v = getattr(c, name)
        case.check(v.shape == ((m,) if name == 'speed' else (m, n)), 'shape of ' + name, (m, n, dt), v.shape)
        case.check(not np.any(v), name + ' of a lone point is zero', (m, n, dt), v)
    case.sig(m, n, dt, order)
    case.sample({'m': m, 'n': n})


FAMILIES = [
    ('empty', 300, 3000, empty),
    ('definition', 5000, 80000, definition),
    ('invariance', 1500, 20000, invariance),
    ('analytic', 800, 8000, analytic),
]
