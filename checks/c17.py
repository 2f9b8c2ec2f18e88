"""C17: interpolation against independent references of each named method."""
import math
import warnings

import numpy as np
import scipy.interpolate as si
import csaps

import skcurve as sk
from skcurve import Curve, InterpolationError, InterpolationWarning
from checks.c08 import diff
from vlib import gen

RULE = ('random regular curves (2..14 points and some of 60, dims 2..5, float64/float32, parametric with non-uniform and '
        'negative parameters or not) with every method, option and kind of grid (count, list, tuple, array, grid object; inside, '
        'covering and beyond the range) against own linear, cubic (dense solve) and Hermite formulas and one-coordinate-at-a-time '
        'reference interpolants for the others; non-trivial: three points or more, not on a straight uniform line')
ASSUMPTIONS = ['parameters at least 0.05 apart', 'references for Akima, PCHIP, degree-k and csaps splines are those of scipy and csaps applied to single coordinates',
               'float64 compared to 1e-8 of the largest reference value, float32 to 1e-4']

METHODS = ['linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps']


def make(case, lo=2, hi=14, dtypes=('float64', 'float64', 'float64', 'float32')):
    """(curve, rows as float64 array, t as float64 array, dtype)"""
    rng = case.rng
    n = rng.choice([2, 2, 3, 3, 4, 5])
    m = rng.randint(lo, hi) if rng.random() > 0.03 else rng.choice([60, 60, 60, 60, 300])
    dt = rng.choice(dtypes)
    kind = rng.choice(['walk', 'smooth', 'smooth', 'lattice', 'float', 'uniline', 'closed'])
    if kind == 'smooth':
        A = [[rng.uniform(-3, 3) for _ in range(3)] for _ in range(n)]
        rows = [[a[0] * math.sin(0.7 * i + j) + a[1] * math.cos(0.4 * i) + a[2] * i * 0.5 for j, a in enumerate(A)] for i in range(m)]
    elif kind == 'uniline':
        a = [rng.randint(-4, 4) for _ in range(n)]
        b = [rng.choice([-2, -1, 1, 3]) for _ in range(n)]
        rows = [[x + y * i for x, y in zip(a, b)] for i in range(m)]
    else:
        rows = [list(r) for r in gen.rows(rng, m, n, 'walk' if kind == 'walk' else 'float' if kind == 'float' else kind, 'float64')]
    # no coincident neighbours
    for i in range(1, m):
        while sum((x - y) ** 2 for x, y in zip(rows[i], rows[i - 1])) < 0.04:
            rows[i] = [x + rng.choice([-1.0, 0.5, 2.0]) for x in rows[i]]
    a = np.array(rows, dtype=dt)
    t = None
    if rng.random() < 0.6:
        t, x = [], rng.choice([0.0, 0.0, -3.5, 10.0, -100.0])
        step = rng.random() < 0.3
        for _ in range(m):
            t.append(x)
            x += 0.5 if step else rng.choice([0.125, 0.5, 1.0, 3.0, rng.uniform(0.05, 2)])
    c = gen.curve(rng, a, t)
    a64 = a.astype(np.float64)
    if t is None:
        d = np.sqrt(np.sum(np.diff(a64, axis=0) ** 2, axis=1))
        tt = np.hstack([0.0, np.cumsum(d)])
        # nodes of the library's own (dtype dependent) rounding, checked elsewhere (C07)
        case.check(gen.close(c.t, tt, 1e-6 + 1.2e-7 * m if dt == 'float32' else 1e-12, 1e-6 if dt == 'float32' else 1e-12), 'the parameter of a non-parametric curve is the arc length', c.t, tt)
        tt = np.array(c.t, dtype=np.float64)
    else:
        tt = np.array(t)
    case.sig(n, m, dt, kind, t is not None, rows[0][0]) if m > 2 and kind != 'uniline' else None
    return c, a64, tt, dt


def make_grid(rng, tt, where=None):
    """(values, kind): strictly increasing with steps of at least 1e-3."""
    a, b = float(tt[0]), float(tt[-1])
    L = b - a
    where = where or rng.choice(['inside', 'nodes', 'cover', 'beyond', 'dense', 'one', 'left', 'right', 'outside', 'mid'])
    k = rng.randint(2, 12)
    if where == 'nodes':
        g = list(tt)
    elif where == 'inside':
        g = [a + L * rng.uniform(0.01, 0.99) for _ in range(k)]
    elif where == 'cover':
        g = [a, b] + [a + L * rng.uniform(0.01, 0.99) for _ in range(k)]
    elif where == 'dense':
        g = list(tt) + [(x + y) / 2 for x, y in zip(tt, tt[1:])] + [x + (y - x) / 3 for x, y in zip(tt, tt[1:])]
    elif where == 'mid':
        g = [(x + y) / 2 for x, y in zip(tt, tt[1:])]
    elif where == 'one':
        g = [a + L * rng.random()]
    elif where == 'left':
        g = [a - L * rng.uniform(0.01, 0.6), a] + [a + L * rng.uniform(0.01, 0.9) for _ in range(k)]
    elif where == 'right':
        g = [b + L * rng.uniform(0.01, 0.6), b] + [a + L * rng.uniform(0.1, 0.99) for _ in range(k)]
    elif where == 'outside':
        g = [b + L * rng.uniform(0.1, 0.6) for _ in range(k)]
    else:
        g = [a - L * rng.uniform(0.01, 0.5) for _ in range(k)] + list(tt) + [b + L * rng.uniform(0.01, 0.5) for _ in range(k)]
    g.sort()
    r = [g[0]]
    for x in g[1:]:
        if x - r[-1] > 1e-3:
            r.append(x)
    return [float(x) for x in r], where


def run(case, c, g, method, how, via=None, **kw):
    """Interpolate, monitoring the warning and the shape of the result."""
    rng = case.rng
    via = via or rng.choice(['method', 'object', 'function'])
    # the grid is given as list, tuple, array or grid object
    spec = rng.choice([list, tuple, np.array, lambda x: Fixed(x)])(g)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if via == 'method':
            r = c.interpolate(spec, method, **kw)
        elif via == 'function':
            r = sk.get_interpolator(method, c, **kw)(spec)
        else:
            ip = sk.get_interpolator(method, c, **kw)
            case.check(ip.curve is c, 'the interpolator knows its curve', how)
            other, _ = make_grid(rng, np.array(c.t, dtype=np.float64), 'inside')
            for _ in range(rng.randint(1, 2)):
                ip(rng.choice([other, Fixed(other), len(g) + 3, sk.UniformInterpolationGrid(rng.randint(2, 9))]))
            w.clear()
            r = ip(spec)
    t = np.array(c.t, dtype=np.float64)
    warned = any(issubclass(x.category, InterpolationWarning) for x in w)
    # one part in 1e12 beyond the end is neither
    if abs(g[0] - t[0]) > 1e-9 or g[0] == t[0]:
        if abs(g[-1] - t[-1]) > 1e-9 or g[-1] == t[-1]:
            case.check(warned == (g[0] > t[0] or g[-1] < t[-1]), 'a warning exactly for a grid that does not cover the curve', how, warned, g, t)
    case.check(type(r) is Curve and len(r) == len(g) and r.ndim == c.ndim, 'one point per grid value', how, len(r), len(g), r.ndim)
    case.check(r.dtype == c.dtype, 'dtype is kept', how, r.dtype, c.dtype)
    case.check(r.isparametric == c.isparametric, 'parametric exactly when the curve is', how)
    if c.isparametric:
        case.check(r.t.tolist() == [float(x) for x in g], 'the parameter of the result is the grid', how, r.t.tolist(), g)
    return r


class Fixed(sk.InterpolationGrid):
    def __init__(self, g):
        self.g = g

    def __call__(self, curve):
        return np.array(self.g, dtype=np.float64)


def same(case, r, want, a, dt, message, how, tol=1e-8):
    if dt == 'float32':
        tol = max(tol, 2e-4)
    w = np.asarray(want, dtype=np.float64)
    scale = max(float(np.max(np.abs(w[np.isfinite(w)]), initial=0.0)), float(np.max(np.abs(a))))
    ok = gen.close(r.data, w, 0, tol * scale)
    if not ok:
        case.fail(message, how, 'got', r.data.tolist(), 'want', w.tolist())
    case.ev('values', w.size)
    case.check(True, message)


# -- references ------------------------------------------------------------

def interval(tt, x):
    i = int(np.searchsorted(tt, x, side='right')) - 1
    return min(max(i, 0), len(tt) - 2)


def ref_linear(tt, a, g):
    out = []
    for x in g:
        i = interval(tt, x)
        u = (x - tt[i]) / (tt[i + 1] - tt[i])
        out.append(a[i] + (a[i + 1] - a[i]) * u)
    return np.array(out)


def hermite_eval(tt, a, d, g, period=None):
    out = []
    for x in g:
        i = interval(tt, x)
        h = tt[i + 1] - tt[i]
        u = (x - tt[i]) / h
        out.append((1 + 2 * u) * (1 - u) ** 2 * a[i] + u * (1 - u) ** 2 * h * d[i]
                   + u * u * (3 - 2 * u) * a[i + 1] + u * u * (u - 1) * h * d[i + 1])
    return np.array(out)


def ref_cubic(tt, a, bc):
    """Slopes of the C2 cubic spline by a dense solve."""
    m = len(tt)
    h = np.diff(tt)
    s = np.diff(a, axis=0) / h[:, None]
    A = np.zeros((m, m))
    b = np.zeros((m, a.shape[1]))
    for i in range(1, m - 1):
        A[i, i - 1], A[i, i], A[i, i + 1] = h[i], 2 * (h[i - 1] + h[i]), h[i - 1]
        b[i] = 3 * (h[i] * s[i - 1] + h[i - 1] * s[i])
    bc = bc if isinstance(bc, tuple) else (bc, bc)
    for row, kind, near, k in ((0, bc[0], 1, 0), (m - 1, bc[1], m - 2, m - 2)):
        if kind == 'natural':
            A[row, row], A[row, near], b[row] = 2, 1, 3 * s[k]
        elif kind == 'clamped':
            A[row, row], b[row] = 1, 0
        elif kind == 'not-a-knot':
            # third derivative continuous at the neighbouring node
            i, j = (0, 1) if row == 0 else (m - 3, m - 2)
            # c3 of interval i: (d_i + d_{i+1} - 2 s_i) / h_i^2
            A[row, i] += 1 / h[i] ** 2
            A[row, i + 1] += 1 / h[i] ** 2 - 1 / h[j] ** 2
            A[row, j + 1] -= 1 / h[j] ** 2
            b[row] = 2 * (s[i] / h[i] ** 2 - s[j] / h[j] ** 2)
        else:                                   # (1, value)
            A[row, row], b[row] = 1, kind[1]
    return np.linalg.solve(A, b)


# -- families ----------------------------------------------------------------

def linear(case):
    c, a, tt, dt = make(case)
    g, where = make_grid(case.rng, tt)
    how = ('linear', where, dt, tt.tolist(), a.tolist(), g)
    out = g[0] < tt[0] or g[-1] > tt[-1]
    if case.rng.random() < 0.3:
        if out:
            case.raises(InterpolationError, lambda: run(case, c, g, 'linear', how, extrapolate=False), 'no extrapolation: outside the range', how)
            return
        r = run(case, c, g, 'linear', how, extrapolate=False)
    else:
        r = run(case, c, g, 'linear', how, **({'extrapolate': True} if case.rng.random() < 0.3 else {}))
    same(case, r, ref_linear(tt, a, g), a, dt, 'piecewise linear values', how, 1e-10)
    case.ev('grid:' + where)
    case.sample({'t': tt.tolist(), 'rows': a.tolist(), 'grid': g})


def nanout(want, g, tt):
    w = np.array(want)
    w[(np.array(g) < tt[0]) | (np.array(g) > tt[-1])] = np.nan
    return w


def cubic(case):
    rng = case.rng
    c, a, tt, dt = make(case)
    m = len(tt)
    g, where = make_grid(rng, tt)
    bcs = [None, None, 'natural', 'clamped']
    if m >= 4:
        bcs += ['not-a-knot', ('natural', 'clamped'), ('not-a-knot', 'natural'), ('clamped', 'not-a-knot')]
    if m >= 3:
        bcs.append('deriv')
    bc = rng.choice(bcs)
    kw = {} if bc is None else {'bc_type': bc}
    bc = bc or 'natural'
    if bc == 'deriv':
        d0 = np.array([rng.uniform(-2, 2) for _ in range(a.shape[1])])
        kw, bc = {'bc_type': ((1, d0), 'natural')}, ((1, d0), 'natural')
    how = ('cubic', bc, where, dt, tt.tolist(), a.tolist(), g)
    d = ref_cubic(tt, a, bc)
    want = hermite_eval(tt, a, d, g)
    k = rng.random()
    if k < 0.25:
        kw['extrapolate'] = False
        want = nanout(want, g, tt)
    elif k < 0.35:
        kw['extrapolate'] = True
    elif k < 0.5 and where != 'nodes':
        kw['extrapolate'] = 'periodic'
        P = tt[-1] - tt[0]
        gp = [tt[0] + math.fmod(math.fmod(x - tt[0], P) + P, P) for x in g]
        if min(min(x - tt[0], tt[-1] - x) for x in gp) < 1e-6:
            del kw['extrapolate']
        else:
            want = hermite_eval(tt, a, d, gp)
    r = run(case, c, g, 'cubic', how, **kw)
    same(case, r, want, a, dt, 'cubic spline values', (kw,) + how, 1e-7)
    case.ev('bc:%s' % (bc if isinstance(bc, str) else 'pair'))


def periodic(case):
    """bc_type='periodic' on a closed curve."""
    rng = case.rng
    c, a, tt, dt = make(case, 4, 12, ('float64',))
    a[-1] = a[0]
    if np.min(np.sum(np.diff(a, axis=0) ** 2, axis=1)) < 0.01:
        a[-2] += 1.5
    if np.min(np.sum(np.diff(a, axis=0) ** 2, axis=1)) < 0.01:
        return case.check(True, 'skipped')
    c = gen.curve(rng, a, tt)
    P = tt[-1] - tt[0]
    g = sorted(tt[0] + P * rng.uniform(-0.9, 1.9) for _ in range(8))
    if min(y - x for x, y in zip(g, g[1:])) < 1e-3:
        return case.check(True, 'skipped')
    how = ('periodic', tt.tolist(), a.tolist(), g)
    r = run(case, c, g, 'cubic', how, bc_type='periodic')
    want = np.stack([si.CubicSpline(tt, a[:, j], bc_type='periodic')(g) for j in range(a.shape[1])], axis=1)
    same(case, r, want, a, dt, 'periodic spline values', how, 1e-8)
    r2 = run(case, c, [x + P for x in g], 'cubic', how, bc_type='periodic')
    same(case, r2, r.data, a, dt, 'periodic in the parameter', how, 1e-7)


def hermite(case):
    rng = case.rng
    c, a, tt, dt = make(case)
    d = diff(a)
    nd = np.linalg.norm(d, axis=1)
    if nd.min() < 1e-3:
        # no tangent direction there
        return case.check(True, 'skipped')
    g, where = make_grid(rng, tt)
    how = ('hermite', where, dt, tt.tolist(), a.tolist(), g)
    want = hermite_eval(tt, a, d / nd[:, None], g)
    kw = {}
    if rng.random() < 0.3:
        kw['extrapolate'] = False
        want = nanout(want, g, tt)
    elif rng.random() < 0.3:
        kw['extrapolate'] = rng.choice([True, None])
    elif rng.random() < 0.3:
        L = float(tt[-1] - tt[0])
        x = [float(tt[0]) + (v - float(tt[0])) % L for v in g]
        if all(tt[0] <= v <= tt[-1] and min(abs(v - tt[0]), abs(v - tt[-1])) > 1e-6 * L for v, w in zip(x, g) if not tt[0] <= w <= tt[-1]):
            kw['extrapolate'] = 'periodic'
            # the last parameter itself is the first one of the next period
            x = [float(tt[0]) if w == tt[-1] else v for v, w in zip(x, g)]
            want = hermite_eval(tt, a, d / nd[:, None], x)
            case.ev('periodic extrapolation')
    if rng.random() < 0.5:
        c.frenet1
    r = run(case, c, g, 'hermite', how, **kw)
    # far outside the range the rounding of float32 tangents grows with the cube of the distance
    u = max([0.0] + [abs((x - tt[interval(tt, x)]) / (tt[interval(tt, x) + 1] - tt[interval(tt, x)])) for x in g])
    same(case, r, want, a, dt, 'Hermite values', (kw,) + how, 1e-8 if dt != 'float32' else min(1.0, 2e-6 * (1 + u) ** 3))


def scipy1d(case):
    rng = case.rng
    method = rng.choice(['akima', 'pchip'])
    c, a, tt, dt = make(case, 3)
    g, where = make_grid(rng, tt)
    kw = {}
    cls = si.Akima1DInterpolator if method == 'akima' else si.PchipInterpolator
    src = c.data
    want = np.stack([cls(tt, np.array(src[:, j], dtype=np.float64))(g) for j in range(a.shape[1])], axis=1)
    if method == 'akima':
        want = nanout(want, g, tt)
    elif rng.random() < 0.4:
        kw['extrapolate'] = rng.choice([False, True])
        if not kw['extrapolate']:
            want = nanout(want, g, tt)
    how = (method, kw, where, dt, tt.tolist(), a.tolist(), g)
    r = run(case, c, g, method, how, **kw)
    same(case, r, want, a, dt, method + ' values', how, 1e-8)
    if method == 'pchip':
        # monotone data stay monotone
        gd = np.linspace(tt[0], tt[-1], 60)
        rd = c.interpolate(gd, 'pchip').data
        for j in range(a.shape[1]):
            for s in (1, -1):
                if np.all(s * np.diff(a[:, j]) >= 0):
                    case.check(bool(np.all(s * np.diff(rd[:, j].astype(float)) >= -1e-5 * (1 + np.max(np.abs(a))))), 'monotone coordinates stay monotone', how, j)
    case.ev('method:' + method)


def spline(case):
    rng = case.rng
    k = rng.choice([1, 2, 3, 3, 4, 5])
    c, a, tt, dt = make(case, k + 1, 16)
    m = len(tt)
    g, where = make_grid(rng, tt)
    kw = {}
    if k != 3 or rng.random() < 0.3:
        kw['k'] = k
    s = 0.0
    if rng.random() < 0.4:
        s = kw['smooth'] = rng.choice([0.1, 1.0, 50.0, float(m)])
    w = None
    if rng.random() < 0.4:
        w = np.array([rng.uniform(0.2, 3) for _ in range(m)])
        kw['weights'] = w if rng.random() < 0.7 else list(w)
        w = np.array(w)
    ext = 0
    if rng.random() < 0.6:
        ext = rng.choice([0, 1, 2, 3])
        kw['extrapolate'] = rng.choice([ext, ['extrapolate', 'zeros', 'raise', 'const'][ext]])
    how = ('spline', kw, where, dt, tt.tolist(), a.tolist(), g)
    out = g[0] < tt[0] or g[-1] > tt[-1]
    if ext == 2 and out:
        return case.raises(InterpolationError, lambda: run(case, c, g, 'spline', how, **kw), "extrapolation 'raise'", how)
    cols = []
    for j in range(a.shape[1]):
        gg = np.array(g)
        if ext == 3:
            gg = np.clip(gg, tt[0], tt[-1])
        if s == 0:
            v = si.splev(gg, si.splrep(tt, a[:, j], w=w, k=k, s=s))
        else:                   # another knot search than splrep
            v = si.UnivariateSpline(tt, a[:, j], w=w, k=k, s=s)(gg)
        if ext == 1:
            v = np.where((gg < tt[0]) | (gg > tt[-1]), 0.0, v)
        cols.append(v)
    r = run(case, c, g, 'spline', how, **kw)
    same(case, r, np.stack(cols, axis=1), a, dt, 'degree-k spline values', how, 1e-6)
    case.ev('k:%d' % k)


def csaps_(case):
    rng = case.rng
    c, a, tt, dt = make(case, 2, 14)
    m = len(tt)
    g, where = make_grid(rng, tt)
    kw = {}
    s = 1.0
    if rng.random() < 0.7:
        s = kw['smooth'] = rng.choice([1.0, 0.0, 0.5, 0.9, None])
    w = None
    if rng.random() < 0.4:
        w = [rng.uniform(0.2, 3) for _ in range(m)]
        kw['weights'] = w
    how = ('csaps', kw, where, dt, tt.tolist(), a.tolist(), g)
    r = run(case, c, g, 'csaps', how, **kw)
    cols = [csaps.CubicSmoothingSpline(tt, a[:, j], weights=w, smooth=s)(np.array(g)) for j in range(a.shape[1])]
    if len(g) == 1:
        cols = [np.reshape(x, (1,)) for x in cols]
    want = np.stack(cols, axis=1)
    same(case, r, want, a, dt, 'csaps values', how, 1e-7)
    if s == 1.0 and m >= 3:
        same(case, r, hermite_eval(tt, a, ref_cubic(tt, a, 'natural'), g), a, dt, 'unit smoothing is the natural cubic spline', how, 1e-6)
    if s == 0.0 and w is None:
        # least-squares straight line
        P = np.stack([np.ones(m), tt], axis=1)
        co = np.linalg.lstsq(P, a, rcond=None)[0]
        same(case, r, np.stack([np.ones(len(g)), np.array(g)], axis=1) @ co, a, dt, 'zero smoothing parameter is the least-squares line', how, 1e-5)


def nodes(case):
    """Every method returns the curve's own points at its own parameters."""
    rng = case.rng
    c, a, tt, dt = make(case, 6)
    if np.linalg.norm(diff(a), axis=1).min() < 1e-3:
        return case.check(True, 'skipped')
    for method in METHODS:
        how = (method, dt, tt.tolist(), a.tolist())
        r = run(case, c, [float(x) for x in tt], method, how)
        same(case, r, a, a, dt, 'the own points at the own parameters', how, 1e-9)
        # an edited copy of the parameters does not disturb the rows
        k = rng.randrange(len(tt) - 1)
        g = [float(x) for x in tt]
        g.insert(k + 1, float(tt[k] + tt[k + 1]) / 2)
        r = run(case, c, g, method, how)
        keep = [i for i in range(len(g)) if i != k + 1]
        case.check(gen.close(r.data[keep], a, 0, (1e-9 if dt == 'float64' else 2e-4) * np.max(np.abs(a))), 'own points beside a new one', how, k)
        case.ev('method:' + method)


def axes(case):
    """Coordinates are interpolated independently: permuting or adding axes permutes or adds results."""
    rng = case.rng
    c, a, tt, dt = make(case, 6, 12, ('float64',))
    n = a.shape[1]
    perm = list(range(n))
    rng.shuffle(perm)
    c1 = gen.curve(rng, a, tt)
    c2 = Curve(a[:, perm], tdata=tt)
    sc = [rng.choice([-2.0, 0.5, 3.0]) for _ in range(n)]
    off = [rng.uniform(-5, 5) for _ in range(n)]
    c3 = Curve(a * sc[0] + off, tdata=tt)
    g, where = make_grid(rng, tt, rng.choice(['inside', 'dense', 'cover']))
    for method in METHODS:
        if method == 'hermite':
            continue
        r1 = run(case, c1, g, method, method)
        r2 = run(case, c2, g, method, method)
        same(case, r2, r1.data[:, perm], a, dt, 'axes are independent', (method, perm, tt.tolist(), a.tolist(), g))
        r3 = run(case, c3, g, method, method)
        same(case, r3, r1.data * sc[0] + off, np.abs(a) * abs(sc[0]) + 5, dt, 'affine in the coordinates', (method, sc[0], off, tt.tolist(), a.tolist(), g), 1e-6)


def counts(case):
    """An integer is that many uniform points over the whole range."""
    rng = case.rng
    c, a, tt, dt = make(case, 4)
    if np.linalg.norm(diff(a), axis=1).min() < 1e-3:
        return case.check(True, 'skipped')
    method = rng.choice(METHODS)
    n = rng.choice([2, 2, 3, 5, 10, 31])
    if (tt[-1] - tt[0]) / n < 1e-3:
        return case.check(True, 'skipped')
    how = (method, n, dt, tt.tolist(), a.tolist())
    want = np.array([tt[0] + (tt[-1] - tt[0]) * i / (n - 1) for i in range(n - 1)] + [tt[-1]])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = c.interpolate(n, method)
        q = sk.get_interpolator(method, c)(n)
    case.check(not any(issubclass(x.category, InterpolationWarning) for x in w), 'a uniform grid covers the curve', how)
    case.check(len(r) == n and len(q) == n and r.dtype == c.dtype, 'n points', how, len(r))
    case.check(gen.close(r.data[[0, -1]], a[[0, -1]], 0, (1e-8 if dt == 'float64' else 2e-4) * np.max(np.abs(a))), 'from the first to the last point', how, r.data.tolist())
    ref = c.interpolate(want, method)
    same(case, r, ref.data, a, dt, 'n means n uniform points', how)
    case.check(r == q, 'the interpolator object gives the same', how)
    if c.isparametric:
        case.check(gen.close(r.t, want, 1e-12, 1e-12), 'uniform parameters', how, r.t.tolist(), want.tolist())
        case.check(r.isparametric, 'parametric', how)
    else:
        case.check(not r.isparametric, 'not parametric', how)


def errors(case):
    rng = case.rng
    c, a, tt, dt = make(case, 6)
    if np.linalg.norm(diff(a), axis=1).min() < 1e-3:
        return case.check(True, 'skipped')
    method = rng.choice(METHODS)
    how = (method, tt.tolist(), a.tolist())
    t = [float(x) for x in tt]
    for bad in ('Linear', '', 'spline ', 'savgol', 'exact', 'nope', None, 3):
        case.raises(NameError, lambda: c.interpolate(5, bad), 'unknown method', bad)
        case.raises(NameError, lambda: sk.get_interpolator(bad, c), 'unknown method', bad)
    i = rng.randrange(1, len(t))
    swapped, repeated = list(t), list(t)
    swapped[i], swapped[i - 1] = swapped[i - 1], swapped[i]
    repeated[i] = repeated[i - 1]
    bads = [swapped, repeated, t[::-1], [t], np.array([t]), np.array(t)[:, None], np.array(t[0]), 1, 0, -3, None, 2.5, {1: 2}, {1.0, 2.0},
            Fixed(swapped), Fixed(repeated), Fixed([t]), np.zeros((0, 2)), [[]], t + [t[-1]], [t[0]] + t]
    for g in bads:
        for via in (lambda: c.interpolate(g, method), lambda: sk.get_interpolator(method, c)(g)):
            case.raises(ValueError, via, 'invalid grid', method, g)
    g, where = make_grid(rng, tt, 'inside')
    # the failed calls left nothing behind
    r = run(case, c, t, method, how)
    same(case, r, a, a, dt, 'still works', how)
    for kw in ({'nope': 1}, {'bc_type': 'nope'} if method == 'cubic' else {'extra': 2}, {'k': 9} if method == 'spline' else {'zz': 0}):
        case.raises(InterpolationError, lambda: c.interpolate(t, method, **kw), 'invalid option', method, kw)
        case.raises(InterpolationError, lambda: sk.get_interpolator(method, c, **kw), 'invalid option', method, kw)
    if method == 'cubic' and np.max(np.abs(a[0] - a[-1])) > 0.1:
        case.raises(InterpolationError, lambda: c.interpolate(t, method, bc_type='periodic'), 'periodic spline of an open curve', how)
    if method == 'spline':
        case.raises(InterpolationError, lambda: c[:3].interpolate(t, method), 'too few points for the degree', how)
    if method == 'csaps':
        case.raises(InterpolationError, lambda: c.interpolate(t, method, weights=[1.0]), 'wrong number of weights', how)
    case.ev('method:' + method)


def large(case):
    """Curves of hundreds of points and grids of thousands: the own points at the own parameters, the same values as on parts of the grid."""
    rng = case.rng
    n = rng.choice([2, 3])
    m = rng.choice([rng.randint(200, 700), rng.randint(200, 3000), rng.randint(6, 20)])
    ph = [rng.uniform(0, 6) for _ in range(n)]
    a = np.array([[3 * math.sin(0.3 * i + p) + 0.2 * i for p in ph] for i in range(m)])
    t = None
    if rng.random() < 0.7:
        t, x = [], rng.choice([0.0, -40.0, 100.0])
        for _ in range(m):
            t.append(x)
            x += rng.choice([0.125, 0.5, 1.0, rng.uniform(0.1, 1)])
    c = gen.curve(rng, a, t)
    tt = np.array(c.t, dtype=np.float64)
    k = rng.randint(600, 5000)
    if rng.random() < 0.5:
        g = [float(x) for x in tt[:-1]]
        while len(g) < k:
            g += [float(tt[i] + (tt[i + 1] - tt[i]) * rng.uniform(0.05, 0.95)) for i in rng.choices(range(m - 1), k=max(1, k - len(g)))]
        g = sorted(set(g)) + [float(tt[-1])]
    else:
        lo, hi = rng.choice([0, 1]), rng.choice([0, 1])
        L = tt[-1] - tt[0]
        g = [float(tt[0] - lo * L * 0.01 + (1 + 0.01 * (lo + hi)) * L * i / (k - 1)) for i in range(k)]
    g = [y for x, y in zip([g[0] - 1] + g, g) if y - x > 1e-6]
    method = rng.choice(METHODS)
    how = (method, m, len(g), t is not None, g[:3], ph)
    if method == 'akima':
        g = [x for x in g if tt[0] <= x <= tt[-1]]
    r = run(case, c, g, method, how)
    if method == 'linear':
        i = np.clip(np.searchsorted(tt, g, side='right') - 1, 0, m - 2)
        w = ((np.array(g) - tt[i]) / (tt[i + 1] - tt[i]))[:, None]
        same(case, r, a[i] * (1 - w) + a[i + 1] * w, a, 'float64', 'piecewise linear', how)
    own = {x: i for i, x in enumerate(tt.tolist())}
    pos = [(j, own[x]) for j, x in enumerate(g) if x in own]
    if pos:
        j, i = map(list, zip(*pos))
        case.check(gen.close(r.data[j], a[i], 0, 1e-8 * np.max(np.abs(a))), 'the own points at the own parameters', how)
        case.ev('own parameters in a large grid', len(pos))
    for _ in range(3):
        j = sorted(rng.sample(range(len(g)), rng.randint(2, 12)))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            q = c.interpolate([g[x] for x in j], method)
        case.check(gen.close(q.data, r.data[j], 0, 1e-9 * np.max(np.abs(r.data))), 'the same values on a part of the grid', how, j)
    case.ev('method:' + method)
    case.sig(how)


FAMILIES = [
    ('linear', 2500, 60000, linear),
    ('cubic', 2500, 60000, cubic),
    ('periodic', 300, 6000, periodic),
    ('hermite', 1500, 30000, hermite),
    ('akima_pchip', 1200, 25000, scipy1d),
    ('spline', 1500, 30000, spline),
    ('csaps', 1000, 15000, csaps_),
    ('nodes', 300, 6000, nodes),
    ('axes', 300, 6000, axes),
    ('counts', 800, 16000, counts),
    ('large', 120, 2500, large),
    ('errors', 200, 4000, errors),
]
