"""C19: smoothing against explicit filters of every coordinate."""
import math

import numpy as np
import scipy.signal.windows as win

import skcurve as sk
from skcurve import Curve
from vlib import gen

RULE = ('random curves (0..40 points, dims 2..5, every integer and float dtype, in any memory layout) with all window kinds (names, '
        'tuples, callables), sizes (odd, even, longer than the curve), boundary modes, and Savitzky-Golay orders, derivatives and '
        'modes against explicit sums and least-squares fits; non-trivial: at least three points and a window of at least two')
ASSUMPTIONS = ['window shapes other than boxcar, hann, hamming, blackman, bartlett and triang are taken from scipy.signal.windows',
               'compared to 1e-9 of the largest coordinate']

DTYPES = ['float64', 'float64', 'float32', 'float16', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'bool_']


def make(case, lo=0, hi=16, n=None):
    rng = case.rng
    n = n or rng.choice([2, 2, 3, 3, 4, 5])
    m = rng.randint(lo, hi) if rng.random() > 0.05 else rng.randint(20, 60) if rng.random() < 0.9 else rng.randint(257, 600)
    dt = rng.choice(DTYPES[:-1])
    rows = gen.rows(rng, m, n, None, 'int64' if dt == 'uint64' else dt) if not dt.startswith('uint64') else gen.rows(rng, m, n, 'walk', 'uint32')
    t = gen.tdata(rng, m) if rng.random() < 0.3 else None
    c = gen.curve(rng, gen.array(rows, n, dt, rng), t)
    return c, c.data.astype(np.float64), dt, (dt, n, m, rows[:8])


def pick(a, i, mode, cval):
    """Value of the rows a at position i, extended beyond the ends."""
    m = len(a)
    if 0 <= i < m:
        return a[i]
    if mode == 'constant':
        return np.full(a.shape[1], float(cval))
    if mode == 'nearest':
        return a[0] if i < 0 else a[-1]
    if mode == 'wrap':
        return a[i % m]
    if mode == 'reflect':              # d c b a | a b c d | d c b a
        i %= 2 * m
        return a[i if i < m else 2 * m - 1 - i]
    if m == 1:
        return a[0]
    i %= 2 * m - 2                     # mirror: d c b | a b c d | c b a
    return a[i if i < m else 2 * m - 2 - i]


def correlate(a, w, mode, cval, centre):
    return np.array([sum(w[k] * pick(a, i + k - centre, mode, cval) for k in range(len(w))) for i in range(len(a))]).reshape(a.shape)


def cos_window(n, coef):
    if n == 1:
        return [1.0]
    return [sum((-1) ** j * c * math.cos(2 * math.pi * j * k / (n - 1)) for j, c in enumerate(coef)) for k in range(n)]


def window(rng, size):
    """(window_type, values)"""
    k = rng.choice(['hann', 'default', 'boxcar', 'hamming', 'blackman', 'bartlett', 'triang', 'kaiser', 'gaussian', 'tukey', 'float', 'call', 'asym', 'lib', 'object'])
    if k in ('hann', 'default', 'blackman', 'bartlett') and size < 3:
        k = 'boxcar'
    if k in ('hann', 'default'):
        return (None if k == 'default' else k), cos_window(size, [0.5, 0.5])
    if k == 'boxcar':
        return k, [1.0] * size
    if k == 'hamming':
        return k, cos_window(size, [0.54, 0.46])
    if k == 'blackman':
        return k, cos_window(size, [0.42, 0.5, 0.08])
    if k == 'bartlett':
        h = (size - 1) / 2
        return k, [1 - abs(i - h) / h for i in range(size)]
    if k == 'triang':
        h, d = (size - 1) / 2, (size + 1) / 2 if size % 2 else size / 2
        return k, [1 - abs(i - h) / d for i in range(size)]
    if k == 'kaiser':
        b = rng.choice([1.0, 4.0, 8.6])
        return ('kaiser', b), win.kaiser(size, b).tolist()
    if k == 'float':
        b = rng.choice([1.0, 4.0, 8.6])
        return b, win.kaiser(size, b).tolist()
    if k == 'gaussian':
        s = rng.choice([0.7, 2.0, 5.0])
        return ('gaussian', s), [math.exp(-0.5 * ((i - (size - 1) / 2) / s) ** 2) for i in range(size)]
    if k == 'tukey':
        if size < 3:
            return 'boxcar', [1.0] * size
        return ('tukey', 0.4), win.tukey(size, 0.4).tolist()
    if k == 'lib':
        return win.parzen, win.parzen(size).tolist()
    if k == 'object':
        v = [2.0 + (i % 2) for i in range(size)]
        keep = np.array(v)
        return (lambda n, keep=keep: keep), v
    v = [rng.randint(1, 9) for i in range(size)]
    if k == 'call':
        v = [v[min(i, size - 1 - i)] for i in range(size)]
    dt = rng.choice(['float64', 'int64', 'int32'])
    if rng.random() < 0.2:
        # only the proportions of the window matter
        dt = 'float64'
        f = rng.choice([2.0 ** -80, 1e-12, 1e-9, 1e9, -1.0])
        v = [x * f for x in v]
    return (lambda n, v=v, dt=dt: np.array(v, dtype=dt)), [float(x) for x in v]


def result(case, c, r, how):
    case.check(type(r) is Curve and r.dtype == np.float64, 'a float64 curve', how, type(r), r.dtype)
    case.check(len(r) == len(c) and r.ndim == c.ndim and r.data.shape == c.data.shape, 'same number of points and dimension', how, r.data.shape, c.data.shape)
    case.check(not r.isparametric, 'smoothing gives a non-parametric curve', how)


def values(case, r, want, a, message, how, tol=1e-9):
    S = max(float(np.max(np.abs(a), initial=0.0)), float(np.max(np.abs(want), initial=0.0)), 1e-300)
    if not gen.close(r.data, want, 0, tol * S):
        case.fail(message, how, 'got', r.data.tolist(), 'want', np.asarray(want).tolist())
    case.check(True, message)
    case.ev('values', r.data.size)


def moving(case):
    rng = case.rng
    c, a, dt, how = make(case)
    m = len(a)
    size = rng.choice([1, 2, 3, 3, 4, 5, 6, 7, 9, 12, max(1, m), m + 1, 2 * m + 3])
    size = min(size, 33)
    wt, v = window(rng, size)
    kw = {'window_size': size}
    if wt is not None:
        kw['window_type'] = wt
    mode, cval = 'reflect', 0.0
    if rng.random() < 0.6:
        mode = kw['mode'] = rng.choice(['reflect', 'constant', 'nearest', 'mirror', 'wrap'])
        if mode == 'mirror' and m == 1:
            return case.check(True, 'skipped')
        if rng.random() < 0.5:
            cval = kw['cval'] = rng.choice([0.0, 3.5, -2, 100.0])
    how = (kw, v) + how
    w = [x / math.fsum(v) for x in v]
    r = c.smooth('window', **kw)
    result(case, c, r, how)
    # convolution: the window reversed, centred at size // 2 from its start
    want = correlate(a, w[::-1], mode, cval, (size - 1) // 2)
    values(case, r, want, np.append(a, cval), 'moving average with the normalized window', how)
    if rng.random() < 0.3:
        q = sk.get_smooth_method('window')(c, **kw)
        case.check(isinstance(q, np.ndarray) and gen.close(q, r.data, 0, 0), 'the method itself gives the same data', how)
    if m >= 3 and size >= 2:
        case.sig(how[2:], size, mode)
    case.ev('mode:' + mode)
    case.ev('window:' + (wt if isinstance(wt, str) else type(wt).__name__))
    case.sample(how[2:])


def sg_coeffs(L, p, deriv, delta, pos):
    """Weights of the least-squares polynomial over L points, its derivative at pos."""
    x = np.arange(L, dtype=np.float64) - pos
    A = x[:, None] ** np.arange(p + 1)
    if deriv > p:
        return np.zeros(L)
    return np.linalg.pinv(A)[deriv] * math.factorial(deriv) / delta ** deriv


def savgol(case):
    rng = case.rng
    c, a, dt, how = make(case, 1)
    m = len(a)
    L = rng.choice([1, 3, 3, 5, 5, 7, 9])
    p = rng.randint(0, min(L - 1, 4))
    kw = {'window_length': L, 'polyorder': p}
    mode, cval, deriv, delta = 'interp', 0.0, 0, 1.0
    if rng.random() < 0.6 or L > m:
        mode = kw['mode'] = rng.choice(['interp', 'mirror', 'constant', 'nearest', 'wrap'])
        if rng.random() < 0.5:
            cval = kw['cval'] = rng.choice([0.0, 3.5, -2])
    if mode == 'mirror' and m == 1:
        return case.check(True, 'skipped')
    if rng.random() < 0.35:
        deriv = kw['deriv'] = rng.choice([0, 1, 1, 2, 3])
        if rng.random() < 0.7:
            delta = kw['delta'] = rng.choice([0.5, 2.0, 0.1])
    how = (kw,) + how
    if mode == 'interp' and L > m:
        case.raises((ValueError, TypeError), lambda: c.smooth('savgol', **kw), 'window longer than the curve', how)
        return
    if rng.random() < 0.5:
        kw2 = dict(kw)
        r = c.smooth('savgol', **kw2)
    else:
        r = c.smooth(method='savgol', **kw)
    result(case, c, r, how)
    h = L // 2
    want = correlate(a, sg_coeffs(L, p, deriv, delta, h), mode if mode != 'interp' else 'nearest', cval, h)
    if mode == 'interp':
        for i in list(range(h)) + list(range(m - h, m)):
            s, pos = (0, i) if i < h else (m - L, i - m + L)
            if not (h <= i < m - h):
                want[i] = sg_coeffs(L, p, deriv, delta, pos) @ a[s:s + L]
    S = np.append(a, cval) / delta ** deriv
    values(case, r, want, S, 'Savitzky-Golay filter', how, 1e-8)
    if m >= 3 and L >= 3:
        case.sig(how[1:], L, p, mode, deriv)
    case.ev('mode:' + mode)
    case.ev('deriv:%d' % deriv)


def consequences(case):
    """Constants fixed, translations commute, symmetric windows commute with reversal, polynomials reproduced, axes independent."""
    rng = case.rng
    n = rng.choice([2, 3, 4])
    m = rng.randint(3, 14)
    rows = np.array(gen.rows(rng, m, n, rng.choice(['walk', 'dyadic', 'lattice']), 'float64'))
    off = np.array([rng.randint(-9, 9) / 2 for _ in range(n)])
    k = rng.choice([3, 5, 7])
    if rng.random() < 0.6:
        method = 'window'
        kw = {'window_size': rng.choice([k, k - 1 if k > 3 else 3]), 'window_type': rng.choice(['hann', 'boxcar', 'hamming', 'triang', ('kaiser', 3.0)]),
              'mode': rng.choice(['reflect', 'nearest', 'mirror', 'wrap'])}
        odd = kw['window_size'] % 2 == 1
    else:
        method, odd = 'savgol', True
        k = min(k, m if m % 2 else m - 1)
        kw = {'window_length': k, 'polyorder': rng.randint(0, k - 1), 'mode': rng.choice(['interp', 'nearest', 'mirror', 'wrap'])}
    how = (method, kw, rows.tolist())
    f = lambda x: Curve(x).smooth(method, **kw).data
    r = f(rows)
    S = float(np.max(np.abs(rows))) + 20
    case.check(gen.close(f(np.tile(off, (m, 1))), np.tile(off, (m, 1)), 0, 1e-9 * S), 'constant curves are fixed', how, off)
    case.check(gen.close(f(rows + off), r + off, 0, 1e-9 * S), 'translations commute with smoothing', how, off)
    if odd:
        case.check(gen.close(f(rows[::-1]), r[::-1], 0, 1e-9 * S), 'symmetric windows commute with reversal', how)
    perm = rng.sample(range(n), n)
    case.check(gen.close(f(rows[:, perm]), r[:, perm], 0, 1e-12 * S), 'coordinates are smoothed independently', how, perm)
    case.check(gen.close(f(rows * 2), r * 2, 0, 1e-9 * S), 'homogeneous', how)
    # interior values of the same data do not depend on the dtype
    ints = np.round(rows)
    for dt in ('int64', 'int16', 'float32', 'int8'):
        case.check(gen.close(Curve(ints.astype(dt)).smooth(method, **kw).data, f(ints), 0, 1e-12 * S), 'whatever the dtype', how, dt)
    if method == 'savgol' and kw['mode'] == 'interp':
        p = kw['polyorder']
        x = np.arange(m)[:, None] / 4.0
        co = [np.array([rng.randint(-4, 4) / 4 for _ in range(n)]) for _ in range(min(p, 4) + 1)]
        poly = sum(c_ * x ** j for j, c_ in enumerate(co))
        case.check(gen.close(f(poly), poly, 0, 1e-7 * (1 + np.max(np.abs(poly)))), 'polynomials of the order are reproduced', how, poly.tolist())
    case.sig(how)
    # repeating gives the same
    c = Curve(rows)
    case.check(c.smooth(method, **kw) == c.smooth(method, **kw) and gen.close(c.data, rows, 0, 0), 'smoothing leaves the curve alone', how)


def errors(case):
    rng = case.rng
    c, a, dt, how = make(case, 5, 9)
    V = (ValueError, TypeError)
    for name in ('Window', '', 'linear', 'nope', None, 3, 'savgol '):
        case.raises(NameError, lambda: c.smooth(name, window_size=3), 'unknown method', name)
        case.raises(NameError, lambda: sk.get_smooth_method(name), 'unknown method', name)
    bad = [('window', {}), ('window', {'window_size': -1}), ('window', {'window_size': 'a'}), ('window', {'window_size': 3, 'window_type': 'nope'}),
           ('window', {'window_size': 3, 'window_type': None}), ('window', {'window_size': 3, 'nope': 1}), ('window', {'window_size': 2}),
           ('window', {'window_size': 0}), ('window', {'window_size': 3, 'window_type': 'kaiser'}),
           ('window', {'window_size': 3, 'window_type': lambda n: 1 / 0}), ('window', {'window_size': 3, 'window_type': lambda n: {}[n]}),
           ('window', {'window_size': 3, 'window_type': lambda: np.ones(3)}), ('window', {'window_size': 3, 'window_type': np.zeros}),
           ('savgol', {}), ('savgol', {'window_length': 3}), ('savgol', {'polyorder': 1}), ('savgol', {'window_length': 4, 'polyorder': 1}),
           ('savgol', {'window_length': 3, 'polyorder': 3}), ('savgol', {'window_length': 3, 'polyorder': 5}), ('savgol', {'window_length': 0, 'polyorder': 0}),
           ('savgol', {'window_length': 3, 'polyorder': 1, 'mode': 'reflect'}), ('savgol', {'window_length': 3, 'polyorder': 'a'}),
           ('savgol', {'window_length': 'a', 'polyorder': 1}), ('savgol', {'window_length': 10001, 'polyorder': 1}), ('savgol', {'window_length': 3, 'polyorder': 1, 'window_size': 3}),
           ('savgol', {'window_length': 3, 'polyorder': -1})]
    for m, kw in bad:
        case.raises(V, lambda: c.smooth(m, **kw), 'invalid parameters', m, kw)
    case.raises((ValueError, TypeError, sk.SmoothingError), lambda: c.smooth('window', window_size=3, mode='nope'), 'unknown mode', how)
    case.raises((ValueError, TypeError, sk.SmoothingError), lambda: c.smooth('window', window_size=3, window_type=lambda n: np.ones((n, n))), 'window of a wrong shape', how)
    r = c.smooth('window', window_size=3, window_type='boxcar')
    result(case, c, r, how)


FAMILIES = [
    ('moving', 4000, 100000, moving),
    ('savgol', 3000, 80000, savgol),
    ('consequences', 800, 16000, consequences),
    ('errors', 200, 4000, errors),
]
