"""C22: the generators of well-known curves against their equations."""
import inspect
import math

import numpy as np

import skcurve.curves as wk
from skcurve import Curve
from vlib import gen

RULE = ('all seven generators with random ranges (also decreasing, negative and long), counts 1..300 and coefficients (zero, negative and '
        'large included), given positionally, by keyword or left at their defaults, against the equations evaluated point by point '
        'and against implicit equations of the figures; non-trivial: at least two points')
ASSUMPTIONS = ['coordinates compared to 1e-9 relative to the size of the figure', 'Fresnel integrals by composite Gauss-Legendre quadrature']

PI = math.pi


def arc(t, k):
    return k['r'] * math.cos(t) + k['c'], k['r'] * math.sin(t) + k['c']


def lemniscate(t, k):
    d = 1 + math.sin(t) ** 2
    a = k['c'] * math.sqrt(2)
    return a * math.cos(t) / d, a * math.sin(t) * math.cos(t) / d


def archimedean(t, k):
    r = k['a'] + k['b'] * t
    return r * math.cos(t), r * math.sin(t)


GX, GW = np.polynomial.legendre.leggauss(12)


def euler(t, k):
    n = max(4, int(abs(t) ** 2 * 2) + 1)
    h = t / n
    u = (np.arange(n)[:, None] + (GX + 1) / 2) * h
    return (float(np.sum(np.cos(PI / 2 * u * u) * GW) * h / 2), float(np.sum(np.sin(PI / 2 * u * u) * GW) * h / 2))


def lissajous(t, k):
    return k['a_ampl'] * math.sin(k['a'] * t + k['d']), k['b_ampl'] * math.sin(k['b'] * t)


def helix(t, k):
    return k['a'] * math.sin(t), k['a'] * math.cos(t), k['b'] * t


def irregular(t, k, i, m):
    z = k['z_start'] + (k['z_stop'] - k['z_start']) * (i / (m - 1) if m > 1 else 0.0)
    r = z * z + 1
    return r * math.sin(t), r * math.cos(t), z


# name: (equation, documented parameters in order with their defaults)
CURVES = {
    'arc': (arc, dict(t_start=0.0, t_stop=2 * PI, p_count=49, r=1.0, c=0.0)),
    'lemniscate_of_bernoulli': (lemniscate, dict(t_start=0.0, t_stop=2 * PI, p_count=101, c=1.0)),
    'archimedean_spiral': (archimedean, dict(t_start=0.0, t_stop=5 * PI, p_count=200, a=1.5, b=-2.4)),
    'euler_spiral': (euler, dict(t_start=-3 * PI / 2, t_stop=3 * PI / 2, p_count=1000)),
    'lissajous': (lissajous, dict(t_start=0.0, t_stop=2 * PI, p_count=101, a_ampl=1.0, b_ampl=1.0, a=3.0, b=2.0, d=0.0)),
    'helix': (helix, dict(t_start=-3 * PI, t_stop=3 * PI, p_count=100, a=1.0, b=1.0)),
    'irregular_helix': (irregular, dict(t_start=-4 * PI, t_stop=4 * PI, z_start=-2.0, z_stop=2.0, p_count=100)),
}


def verify(case, name, c, k, how):
    eq = CURVES[name][0]
    m = k['p_count']
    case.check(type(c) is Curve and len(c) == m and c.isparametric, 'a parametric curve of p_count points', how, type(c), len(c), c.isparametric)
    t = [k['t_start'] + (k['t_stop'] - k['t_start']) * (i / (m - 1) if m > 1 else 0.0) for i in range(m)]
    T = abs(k['t_start']) + abs(k['t_stop'])
    case.check(c.t.shape == (m,) and gen.close(c.t, t, 0, 1e-12 * T + 1e-300), 't is uniform from t_start to t_stop', how, c.t.tolist()[:8], t[:8])
    case.check(c.t[0] == k['t_start'] and (m == 1 or abs(c.t[-1] - k['t_stop']) <= 1e-15 * T), 'end parameters included', how, c.t[[0, -1]].tolist())
    tt = c.t.tolist()
    want = np.array([eq(x, k, i, m) if name == 'irregular_helix' else eq(x, k) for i, x in enumerate(tt)])
    case.check(c.ndim == want.shape[1], 'dimension', how, c.ndim)
    S = float(np.max(np.abs(want))) + max([abs(v) for n, v in k.items() if n not in ('p_count', 't_start', 't_stop', 'z_start', 'z_stop')] + [1.0])
    if not gen.close(c.data, want, 0, 1e-9 * S):
        case.fail('the points satisfy the parametric equations', how, 'got', c.data.tolist()[:6], 'want', want.tolist()[:6])
    case.check(True, 'equations')
    case.ev('points', m)
    x, y = c.data[:, 0], c.data[:, 1]
    # implicit equations of the figures
    if name == 'arc':
        case.check(gen.close((x - k['c']) ** 2 + (y - k['c']) ** 2, [k['r'] ** 2] * m, 0, 1e-9 * S * S), 'points lie on the circle', how)
    elif name == 'lemniscate_of_bernoulli':
        case.check(gen.close((x * x + y * y) ** 2, 2 * k['c'] ** 2 * (x * x - y * y), 0, 1e-9 * S ** 4), 'points lie on the lemniscate', how)
    elif name == 'archimedean_spiral':
        case.check(gen.close(x * x + y * y, (k['a'] + k['b'] * np.array(tt)) ** 2, 0, 1e-9 * S * S), 'distance from the origin grows with the angle', how)
    elif name == 'helix':
        case.check(gen.close(x * x + y * y, [k['a'] ** 2] * m, 0, 1e-9 * S * S), 'points lie on the cylinder', how)


def defaults(case):
    for name, (eq, k) in CURVES.items():
        f = getattr(wk, name)
        c = f()
        verify(case, name, c, k, (name, 'defaults'))
        p = [x for x in inspect.signature(f).parameters if x in k]
        case.check(p == list(k), 'documented parameters', name, p)
        # closed figures close
        if name in ('arc', 'lemniscate_of_bernoulli', 'lissajous'):
            case.check(gen.close(c.data[0], c.data[-1], 0, 1e-9), 'the full curve is closed', name)
        case.sig(name)


def coef(rng):
    return rng.choice([0.0, 1.0, -1.0, 2.5, -0.5, 10, 100.0, -30.0, rng.uniform(-5, 5), rng.uniform(-5, 5), rng.randint(-9, 9)])


def general(case):
    rng = case.rng
    name = rng.choice(list(CURVES))
    eq, dk = CURVES[name]
    k = dict(dk)
    names = list(k)
    give = [n for n in names if rng.random() < 0.6] if rng.random() < 0.8 else names
    span = 4.0 if name == 'euler_spiral' else rng.choice([1.0, 4.0, 10.0, 40.0])
    for n in give:
        if n == 'p_count':
            k[n] = rng.choice([1, 2, 2, 3, 10, rng.randint(1, 60), rng.randint(1, 300), rng.randint(1, 5000) if rng.random() < 0.1 else 50])
        elif n.startswith('t_'):
            k[n] = rng.choice([0.0, PI, -PI / 2, rng.uniform(-span, span), rng.uniform(-span, span), rng.randint(-4, 4)])
        else:
            k[n] = coef(rng)
    if name == 'euler_spiral' and k['p_count'] > 100:
        k['p_count'] = rng.randint(2, 100)
        if 'p_count' not in give:
            give.append('p_count')
    f = getattr(wk, name)
    # leading parameters positionally, the others by keyword
    lead = 0
    if rng.random() < 0.5:
        lead = rng.randint(0, len(names))
    args = [k[n] for n in names[:lead]]
    kw = {n: k[n] for n in give if n not in names[:lead]}
    keys = list(kw)
    rng.shuffle(keys)
    c = f(*args, **{n: kw[n] for n in keys})
    how = (name, k, lead)
    verify(case, name, c, k, how)
    if k['p_count'] > 1:
        case.sig(name, sorted(k.items()))
    case.ev('curve:' + name)
    case.sample(how)
    # a second call does not disturb the first
    d = c.data.copy()
    f()
    case.check(np.array_equal(d, c.data) and f(*args, **kw) == c, 'calls are independent', how)


FAMILIES = [
    ('defaults', 8, 8, defaults),
    ('general', 3000, 60000, general),
]
