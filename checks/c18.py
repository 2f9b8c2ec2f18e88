"""C18: interpolation grids: count, range, spacing, rejection."""
import math
import warnings

import numpy as np
import scipy.interpolate as si

import skcurve as sk
from skcurve import Curve, Point
from checks.c17 import Fixed
from vlib import gen

RULE = ('random curves (2..40 points, dims 2..5, float and integer dtypes, parametric with non-uniform, negative and large '
        'parameters, or not) with every kind of uniform, extrapolation and speed-preserving grid, nested grids included, called '
        'directly and through interpolate; non-trivial: the curve has at least three points')
ASSUMPTIONS = ["for kind 'length' the requested length is at most the curve length"]


def make(case, lo=2, hi=14):
    rng = case.rng
    n = rng.choice([2, 2, 3, 3, 4, 5])
    m = rng.randint(lo, hi) if rng.random() > 0.05 else rng.randint(15, 40) if rng.random() < 0.9 else rng.randint(260, 1500)
    dt = rng.choice(['float64', 'float64', 'float64', 'float32', 'int32', 'uint8'])
    rows = [list(r) for r in gen.rows(rng, m, n, rng.choice(['walk', 'lattice', 'range', 'line']), dt)]
    for i in range(1, m):
        while rows[i] == rows[i - 1]:
            rows[i] = [x + rng.choice([1, 2]) for x in rows[i]]
    t = None
    if rng.random() < 0.5:
        t, x = [], rng.choice([0.0, -3.5, 10.0, 1000.0])
        for _ in range(m):
            t.append(x)
            x += rng.choice([0.25, 0.5, 1.0, 3.0, rng.uniform(0.1, 2)])
    c = gen.curve(rng, gen.array(rows, n, dt, rng), t)
    acc = [0.0]
    for a, b in zip(rows, rows[1:]):
        acc.append(acc[-1] + math.sqrt(math.fsum((float(y) - float(x)) ** 2 for x, y in zip(a, b))))
    if m > 2:
        case.sig(n, m, dt, t, rows[:3])
    return c, (t or acc), acc, dt, (dt, n, m, t, rows[:8])


def near(a, b, scale, dt):
    return abs(a - b) <= (1e-5 if dt == 'float32' else 1e-9) * max(1e-3, scale)


def before(case, grid, c):
    """A grid object may have served other curves before."""
    rng = case.rng
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            f = rng.choice([0.5, 2.0, 3.0, 1.0])
            d = c.data.astype('float64') * f
            t = c.t * f if c.isparametric else None
            if rng.random() < 0.3:
                d = d[[0, -1]]
                t = None if t is None else t[[0, -1]]
            o = Curve(d, tdata=t)
            try:
                grid(o) if rng.random() < 0.5 else o.interpolate(grid, 'linear')
            except Exception:       # such as a closed curve cut to its ends
                pass
        case.ev('grids used before')
    return grid


def uniformity(case, g, first, last, dt, what, how):
    """g is an equally spaced array from first to last."""
    case.check(isinstance(g, np.ndarray) and g.ndim == 1 and g.dtype == np.float64, 'a one-dimensional float array', how, g)
    S = abs(first) + abs(last)
    case.check(near(g[0], first, S, dt) and near(g[-1], last, S, dt), what + ': range', how, g[[0, -1]], first, last)
    k = len(g) - 1
    if k:
        want = [first + (last - first) * i / k for i in range(k + 1)]
        case.check(gen.close(g, want, 0, (1e-5 if dt == 'float32' else 1e-9) * S + 1e-12), what + ': equally spaced', how, g.tolist()[:20], want[:20])


def uniform(case):
    rng = case.rng
    c, t, acc, dt, how = make(case)
    if rng.random() < 0.5:
        n = rng.choice([2, 2, 3, 4, 7, 20, rng.randint(2, 500), rng.randint(2, 5000) if rng.random() < 0.1 else 5])
        grid = sk.UniformInterpolationGrid(n) if rng.random() < 0.5 else sk.UniformInterpolationGrid(fill=n, kind='point')
        g = before(case, grid, c)(c)
        case.check(len(g) == n, 'requested count', how, len(g), n)
    else:
        L = acc[-1]
        fill = rng.choice([L / rng.randint(1, 50), L * rng.uniform(0.02, 1), L / (rng.randint(1, 30) + rng.choice([0.49, 0.51, 0.2, 0.9])), L])
        if rng.random() < 0.3 and L >= 2:
            fill = rng.randint(1, int(L))
        grid = sk.UniformInterpolationGrid(fill, kind='length')
        g = before(case, grid, c)(c)
        want = L / fill
        # the nearest whole number of steps
        case.check(abs(len(g) - 1 - want) <= 0.5 + 1e-4 * want, 'steps of about the requested length', how, fill, len(g), want)
        case.ev('length-ties', abs(want % 1 - 0.5) < 1e-9)
    uniformity(case, g, t[0], t[-1], dt, 'uniform grid', how)
    case.check(bool(np.all(grid(c) == g)), 'the same grid again', how)
    # one grid object serves several curves
    c2, t2, _, dt2, how2 = make(case)
    if grid.kind == 'point':
        g2 = grid(c2)
        case.check(len(g2) == len(g), 'same count on another curve', how2)
        uniformity(case, g2, t2[0], t2[-1], dt2, 'uniform grid of another curve', how2)
    case.sample(how)


def extrapolation(case):
    rng = case.rng
    c, t, acc, dt, how = make(case)
    inner_kind = rng.choice(['point', 'point', 'length', 'speed', 'nested', 'fixed'])
    if inner_kind == 'point':
        inner = sk.UniformInterpolationGrid(rng.choice([2, 3, 5, 20]))
    elif inner_kind == 'length':
        inner = sk.UniformInterpolationGrid(acc[-1] / rng.uniform(1, 20), kind='length')
    elif inner_kind == 'speed':
        inner = sk.PreservedSpeedInterpolationGrid(rng.choice([2, 3, 5, 20]))
    elif inner_kind == 'nested':
        inner = sk.UniformExtrapolationGrid(sk.UniformInterpolationGrid(rng.randint(2, 9)), rng.randint(0, 3), rng.randint(0, 3))
    else:
        w = rng.choice([9, 9, 100, 400])
        inner = Fixed(sorted({rng.randint(-40 * w, 40 * w) / 8 for _ in range(w)}))
    base = inner(c)
    k = len(base)
    step = (base[-1] - base[0]) / (k - 1)
    how = (inner_kind,) + how
    S = max(abs(base[0]), abs(base[-1]))
    if rng.random() < 0.5:
        b, a = rng.choice([0, 0, 1, 2, 7]), rng.choice([0, 0, 1, 3, 9])
        if rng.random() < 0.3:
            # what is left out is zero
            kw = {k_: v_ for k_, v_ in (('before', b), ('after', a), ('kind', 'point')) if rng.random() < 0.6}
            b, a = kw.get('before', 0), kw.get('after', 0)
            grid = sk.UniformExtrapolationGrid(inner, **kw)
        else:
            grid = sk.UniformExtrapolationGrid(inner, b, a)
        g = before(case, grid, c)(c)
        nb, na = b, a
        case.check(len(g) == k + nb + na, 'exactly the requested number of extra points', how, b, a, len(g), k)
    else:
        b, a = (rng.choice([0, 0.0, step * rng.uniform(0.1, 9), step * rng.randint(1, 6), step * 0.2, rng.randint(0, 8)]) for _ in range(2))
        if max(a, b) > 300 * step:
            return case.check(True, 'skipped')
        grid = sk.UniformExtrapolationGrid(inner, b, a, kind='length')
        g = before(case, grid, c)(c)
        nb = next((i for i in range(len(g)) if g[i] == base[0]), -1)
        case.check(nb >= 0, 'the inner grid is contained', how, g, base)
        na = len(g) - k - nb
        for n_, want in ((nb, b), (na, a)):
            case.check(abs(n_ * step - want) <= step * (0.5 + 1e-6), 'about the requested length', how, n_, step, want)
    case.check(len(g) == nb + k + na and g[nb:nb + k].tolist() == base.tolist(), 'the inner grid unchanged in the middle', how, g, base)
    for i in range(nb):
        case.check(near(g[i], base[0] - step * (nb - i), S + nb * step, dt), 'same spacing before', how, g.tolist(), base.tolist())
    for i in range(na):
        case.check(near(g[nb + k + i], base[-1] + step * (i + 1), S + na * step, dt), 'same spacing after', how, g.tolist(), base.tolist())
    case.check(bool(np.all(np.diff(g) > 0)), 'increasing', how, g)
    case.ev('inner:' + inner_kind)
    case.ev('points-before', nb)
    case.ev('points-after', na)


def speed(case):
    rng = case.rng
    c, t, acc, dt, how = make(case)
    m = len(acc)
    n = rng.choice([2, 3, m, m, 2 * m - 1, rng.randint(2, 60)])
    n = max(2, n)
    grid = sk.PreservedSpeedInterpolationGrid(n) if rng.random() < 0.6 else sk.PreservedSpeedInterpolationGrid(pcount=n, interp_kind='linear')
    g = before(case, grid, c)(c)
    case.check(g.shape == (n,), 'requested count', how, n, g.shape)
    if c.isparametric:
        uniformity(case, g, t[0], t[-1], dt, 'speed-preserving grid of a parametric curve', how)
        return
    L = acc[-1]
    case.check(g[0] == 0 and near(g[-1], L, L, dt), 'from 0 to the arc length', how, g[[0, -1]], L)
    case.check(bool(np.all(np.diff(g) > 0)), 'increasing', how, g.tolist())
    if n == m:
        case.check(gen.close(g, acc, 0, (1e-5 if dt == 'float32' else 1e-9) * L), 'the own parameters for the own count', how, g.tolist(), acc)
    want = []
    for i in range(n):
        x = i * (m - 1) / (n - 1)
        j = min(int(x), m - 2)
        want.append(acc[j] + (acc[j + 1] - acc[j]) * (x - j))
    case.check(gen.close(g, want, 0, (1e-5 if dt == 'float32' else 1e-9) * L), 'the speed along the curve is preserved', how, g.tolist(), want)
    if m >= 4 and rng.random() < 0.5:
        kind = rng.choice(['quadratic', 'cubic'])
        ref = si.interp1d(np.linspace(0, 1, m), acc, kind=kind)(np.linspace(0, 1, n))
        if np.all(np.diff(ref) > 1e-3) and abs(ref.min()) < 1e-9 * L:
            q = sk.PreservedSpeedInterpolationGrid(n, interp_kind=kind)(c)
            case.check(gen.close(q, ref, 0, (1e-4 if dt == 'float32' else 1e-7) * L), 'another interpolation of the speed', how, kind, q.tolist(), ref.tolist())
            case.ev('kind:' + kind)


def through(case):
    """interpolate uses exactly the grid of the grid object."""
    rng = case.rng
    c, t, acc, dt, how = make(case, 3)
    c = Curve(c.data.astype('float64'), tdata=t if c.isparametric else None)
    n = rng.randint(2, 12)
    grid = rng.choice([sk.UniformInterpolationGrid(n), sk.UniformInterpolationGrid(acc[-1] / rng.uniform(1, 9), 'length'),
                       sk.UniformExtrapolationGrid(sk.UniformInterpolationGrid(n), rng.randint(0, 3), rng.randint(0, 3)),
                       sk.PreservedSpeedInterpolationGrid(n),
                       sk.UniformExtrapolationGrid(sk.PreservedSpeedInterpolationGrid(n), rng.randint(0, 3), rng.randint(0, 3))])
    g = grid(c)
    if np.min(np.diff(g)) < 1e-3:
        return case.check(True, 'skipped')
    r = c.interpolate(grid, 'linear')
    q = c.interpolate(g.tolist(), 'linear')
    case.check(len(r) == len(g), 'one point per grid value', how, len(r), len(g))
    case.check(r == q and r.dtype == q.dtype, 'interpolate uses the grid of the object', how, r.data.tolist(), q.data.tolist())
    if c.isparametric:
        case.check(r.t.tolist() == g.tolist() == q.t.tolist(), 'parameters are the grid', how)
    else:
        case.check(not r.isparametric, 'not parametric', how)


def errors(case):
    rng = case.rng
    c, t, acc, dt, how = make(case)
    U, X, P = sk.UniformInterpolationGrid, sk.UniformExtrapolationGrid, sk.PreservedSpeedInterpolationGrid
    u = U(5)
    for k in ('points', '', 'Point', None, 3, 'len'):
        case.raises(ValueError, lambda: U(5, k), 'unknown kind', k)
        case.raises(ValueError, lambda: X(u, 1, 1, k), 'unknown kind', k)
    for n in (1, 0, -1, -100):
        case.raises(ValueError, lambda: U(n), 'count below two', n)
        case.raises(ValueError, lambda: U(n, kind='point'), 'count below two', n)
        case.raises(ValueError, lambda: P(n)(c), 'count below two', n)
        case.raises(ValueError, lambda: c.astype('float64').interpolate(n, 'linear') if hasattr(c, 'astype') else Curve(c.data.astype('float64')).interpolate(n, 'linear'), 'count below two', n)
    for x in (2.0, 5.5, '5', None, [5], (5,), np.array([3]), float('nan')):
        case.raises(TypeError, lambda: U(x), 'count of a wrong type', x)
        if not isinstance(x, float):
            case.raises(TypeError, lambda: U(x, kind='length'), 'length of a wrong type', x)
            case.raises(TypeError, lambda: X(u, before=x, kind='length'), 'length of a wrong type', x)
            case.raises(TypeError, lambda: X(u, after=x, kind='length'), 'length of a wrong type', x)
        case.raises(TypeError, lambda: X(u, before=x), 'count of a wrong type', x)
        case.raises(TypeError, lambda: X(u, after=x), 'count of a wrong type', x)
    p = [float(rng.randint(0, 9)) for _ in range(rng.choice([2, 3, 4]))]
    for one in (Curve([[x] for x in p]), Curve([[x] for x in p], tdata=[rng.uniform(0, 3)])):
        for grid in [u, U(1.5, 'length'), X(u, 1, 1), X(u)] + [P(5)] * one.isparametric:
            case.raises(ValueError, lambda: grid(one), 'single-point curve', grid, one)
    # not one-dimensional, not strictly increasing
    f = Curve(c.data.astype('float64'), tdata=t)
    n = len(t)
    i = rng.randrange(n - 1)
    rep, swp = list(t), list(t)
    rep[i] = rep[i + 1]
    swp[i], swp[i + 1] = swp[i + 1], swp[i]
    hole = list(t)
    hole[i + rng.randint(0, 1)] = math.nan
    for g in (hole, np.array(hole), Fixed(hole), rep, swp, t[::-1], [t], np.array(t)[:, None], np.array(t[0]), [], Fixed(rep), Fixed(swp), Fixed([t]), 2.5, None, {1: 2}):
        if isinstance(g, Fixed) or g is hole or rng.random() < 0.7:
            case.raises(ValueError, lambda: f.interpolate(g, 'linear'), 'grid that is not one-dimensional and strictly increasing', g)
    case.raises(NotImplementedError, lambda: sk.InterpolationGrid()(c), 'the interface')


FAMILIES = [
    ('uniform', 3000, 80000, uniform),
    ('extrapolation', 3000, 80000, extrapolation),
    ('speed', 2500, 60000, speed),
    ('through', 1200, 25000, through),
    ('errors', 300, 8000, errors),
]
