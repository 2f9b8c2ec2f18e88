"""C09: curvature and torsion."""
import math

import numpy as np

from skcurve import Curve
from vlib import gen
from checks.c08 import diff, gram, shape_rows

RULE = ('random regular curves against the defining formulas built from independent finite differences; circles, '
        'ellipses and helices of random size, orientation and sampling against analytic values; transformed copies; '
        'non-trivial: a regular curve with non-zero curvature somewhere')
ASSUMPTIONS = ['points whose speed or normal is within rounding of zero are not compared']


def smooth_rows(rng, m, n):
    A = [[rng.uniform(-3, 3) for _ in range(4)] for _ in range(n)]
    w, h = rng.uniform(0.3, 1.5), rng.uniform(0.05, 0.4)
    return [tuple(a[0] * math.sin(w * h * i + j) + a[1] * math.cos(2 * w * h * i) + a[2] * h * i + a[3] * math.sin(h * i * (1 + j / 3))
                  for j, a in enumerate(A)) for i in range(m)]


def definition(case):
    rng = case.rng
    n = gen.ndim(rng, 2, 5)
    m = rng.choice([2, 3, 4]) if rng.random() < 0.2 else gen.size(rng, 3, 24, big=0.05)
    if rng.random() < 0.006:
        m = rng.randint(300, 3000)
    dt = rng.choice(['float64'] * 4 + ['int64', 'int16', 'uint8', 'float32'])
    if dt in ('float64', 'float32') and rng.random() < 0.5:
        kind, rows = 'smooth', smooth_rows(rng, m, n)
    else:
        kind, rows = shape_rows(rng, m, n, dt)
    c = gen.curve(rng, gen.array(rows, n, dt, rng), gen.tdata(rng, m) if rng.random() < 0.3 else None)
    a = c.data.astype(np.float64)
    how = (kind, dt, m, n, rows[:6])
    case.rec(how)
    d1, d2, d3 = diff(a), diff(diff(a)), diff(diff(diff(a)))
    sp = np.linalg.norm(d1, axis=1)
    _, _, (e1, s1), (e2, s2), (e3, s3) = gram(a, d1, d2, d3)
    order = rng.sample(['curvature', 'torsion', 'frenet3', 'normal', 'arclen'], 5)
    got = {x: getattr(c, x) for x in order}
    k, tau = got['curvature'], got['torsion']
    case.check(k.shape == (m,) and tau.shape == (m,), 'one value per point', how, k.shape, tau.shape)
    f32 = dt == 'float32'
    if n == 2:
        ok = sp > (1e-2 if f32 else 1e-4)
        x1, y1, x2, y2 = d1[ok, 0], d1[ok, 1], d2[ok, 0], d2[ok, 1]
        want = (y2 * x1 - x2 * y1) / (x1 * x1 + y1 * y1) ** 1.5
        sc = float(np.max(np.linalg.norm(d2[ok], axis=1) / sp[ok] ** 2, initial=1.0))
        case.check(gen.close(k[ok], want, 1e-9 if not f32 else 1e-3, (1e-9 if not f32 else 1e-3) * sc), '2-d curvature', how,
                   k[ok].tolist()[:8], want.tolist()[:8])
        if not f32:
            ok2 = ok & (s1 == 1) & (s2 == 1)
            case.check(bool(np.all(np.abs(tau[(s2 >= 0) & ok & (s3 == 0)]) < 1e-5)), 'torsion of a plane 2-d curve', how, tau.tolist()[:8])
        case.ev('curvature values', int(ok.sum()))
    elif not f32:
        if np.all(s1 == 1):
            g = diff(e1)
            want = np.linalg.norm(g, axis=1) / sp
            case.check(gen.close(k, want, 1e-7, 1e-7 * max(1.0, 1 / sp.min())), 'curvature', how, k.tolist()[:8], want.tolist()[:8])
            case.check(bool(np.all(k >= 0)), 'spatial curvature is not negative', how)
            case.ev('curvature values', m)
        if np.all(s1 == 1) and np.all(s2 >= 0) and np.all(s3 >= 0):
            want = np.sum(diff(e2) * e3, axis=1) / sp
            case.check(gen.close(tau, want, 1e-5, 1e-5 * max(1.0, 1 / sp.min())), 'torsion', how, tau.tolist()[:8], want.tolist()[:8])
            case.ev('torsion values', m)
    if np.all(s1 == 1) and np.any(s2 == 1):
        case.sig(how)
    case.check(True, '')
    case.sample({'kind': kind, 'dtype': dt, 'rows': rows[:3], 'curvature': k.tolist()[:4]})


def invariance(case):
    rng = case.rng
    n, m = gen.ndim(rng, 2, 5), rng.randint(4, 30)
    a = np.array(smooth_rows(rng, m, n))
    d1, d2, d3 = diff(a), diff(diff(a)), diff(diff(diff(a)))
    sp = np.linalg.norm(d1, axis=1)
    _, _, (e1, s1), (e2, s2), (e3, s3) = gram(a, d1, d2, d3)
    if not (np.all(s1 == 1) and np.all(s2 == 1)) or sp.min() < 1e-2 * sp.max():
        case.check(True, '')
        return
    t_ok = n > 2 and np.all(s3 == 1)
    c = gen.curve(rng, a)
    k, tau = c.curvature, c.torsion
    ks = float(np.abs(k).max()) + 1e-6
    ts = float(np.abs(tau).max()) + 1e-6
    how = (m, n, a[:4].tolist())

    def eq(x, y, law, scale, tol=1e-6):
        case.check(gen.close(x, y, tol, tol * scale), law, how, np.asarray(x).tolist()[:6], np.asarray(y).tolist()[:6])
    q = gen.rotation(rng, n)
    v = np.array([rng.uniform(-30, 30) for _ in range(n)])
    f = 2.0 ** rng.randint(-6, 6)
    r, t, s, g = Curve(a).reverse(), Curve(a + v), Curve(a @ q.T), Curve(a * f)
    mir = a.copy()
    mir[:, rng.randrange(n)] *= -1
    mi = Curve(mir)
    eq(t.curvature, k, 'curvature of the translated curve', ks)
    eq(s.curvature, k, 'curvature of the rotated curve', ks)
    eq(g.curvature * f, k, 'curvature of the scaled curve', ks)
    eq(r.curvature[::-1], -k if n == 2 else k, 'curvature of the reversed curve', ks)
    eq(mi.curvature, -k if n == 2 else k, 'curvature of the mirrored curve', ks)
    z = Curve(a, ndmin=n + rng.choice([1, 2]))
    if n > 2:
        eq(z.curvature, k, 'curvature with added zero dimensions', ks)
    else:
        # the spatial formula |e1'|/|v| on the same plane curve
        eq(z.curvature, np.linalg.norm(diff(e1), axis=1) / sp, 'curvature of the plane curve in space', ks)
    if t_ok:
        eq(t.torsion, tau, 'torsion of the translated curve', ts, 1e-4)
        eq(s.torsion, tau, 'torsion of the rotated curve', ts, 1e-4)
        eq(g.torsion * f, tau, 'torsion of the scaled curve', ts, 1e-4)
        eq(mi.torsion, tau, 'torsion of the mirrored curve', ts, 1e-4)
        eq(z.torsion, tau, 'torsion with added zero dimensions', ts, 1e-4)
        eq(r.torsion[::-1], tau, 'torsion of the reversed curve', ts, 1e-4)
    case.sig(how)
    case.sample({'m': m, 'n': n})


def analytic(case):
    """Convergence to the analytic value: the error drops when the sampling is refined."""
    rng = case.rng
    kind = rng.choice(['circle', 'circle', 'helix', 'ellipse', 'circle3'])
    R = 10.0 ** rng.uniform(-2, 3)
    a = R
    ph, span = rng.uniform(0, 6.28), rng.uniform(1.0, 9.0)
    sg = rng.choice([1, -1])
    b = R * rng.choice([-1, 1]) * rng.uniform(0.3, 2)
    cen = [rng.uniform(-2, 2) * R for _ in range(3)]
    q = gen.rotation(rng, 3)
    dist = rng.random() < 0.3
    errs = []
    for N in (rng.randint(150, 200), None):
        if N is None:
            N = n0 * 4
        n0 = N
        t = np.linspace(0, 1, N)
        if dist:
            t = t + 0.2 * np.sin(3 * t)      # non-uniform sampling of the same curve
        t = ph + sg * span * t
        if kind == 'circle':
            x = np.stack([R * np.cos(t) + cen[0], R * np.sin(t) + cen[1]], axis=1)
            kw, tw = np.full(N, sg / R), None
        elif kind == 'ellipse':
            bb = abs(b)
            x = np.stack([a * np.cos(t), bb * np.sin(t)], axis=1)
            kw, tw = sg * a * bb / (a * a * np.sin(t) ** 2 + bb * bb * np.cos(t) ** 2) ** 1.5, None
        else:
            z = b * t if kind == 'helix' else 0 * t
            x = np.stack([R * np.cos(t), R * np.sin(t), z], axis=1) @ q.T + cen
            if kind == 'helix':
                kw, tw = np.full(N, R / (R * R + b * b)), np.full(N, abs(b) / (R * R + b * b))
            else:
                kw, tw = np.full(N, 1 / R), None
        c = Curve(x)
        k = c.curvature
        e = [float(np.max(np.abs(k - kw)[6:-6]) / np.max(np.abs(kw)))]
        if tw is not None:
            e.append(float(np.max(np.abs(c.torsion - tw)[6:-6]) / np.max(np.abs(tw))))
        errs.append(e)
        case.check(k.shape == (N,), 'one value per point')
    how = (kind, R, b, ph, span, sg, dist, errs)
    lim = 0.12 if kind == 'ellipse' or dist else 0.03
    for j, nm in enumerate(('curvature', 'torsion')[:len(errs[0])]):
        case.check(errs[1][j] < lim, nm + ' close to the analytic value', how)
        case.check(errs[1][j] < 0.5 * errs[0][j] + 1e-6, nm + ' converges under refinement', how)
    case.sig(how)
    case.sample({'kind': kind, 'R': R, 'errors': errs})


def single(case):
    """Straight lines have zero curvature; lone points and pairs give one value per point."""
    rng = case.rng
    n, m = gen.ndim(rng, 2, 5), rng.randint(0, 12)
    d = [rng.randint(-3, 3) for _ in range(n)]
    d[rng.randrange(n)] = 2
    rows = [tuple(float(i * x) for x in d) for i in range(m)]
    c = Curve(np.array(rows).reshape(m, n), dtype=rng.choice(['float64', 'int64']))
    k, tau = c.curvature, c.torsion
    case.check(k.shape == (m,) and tau.shape == (m,), 'one value per point', rows)
    if m > 1:
        case.check(bool(np.all(np.abs(k) < 1e-9)), 'straight line has zero curvature', rows, k)
        case.check(bool(np.all(np.abs(tau) < 1e-9)), 'straight line has zero torsion', rows, tau)
    case.sig(rows)
    case.sample({'rows': rows[:3]})


FAMILIES = [
    ('definition', 4000, 60000, definition),
    ('invariance', 1500, 20000, invariance),
    ('analytic', 500, 6000, analytic),
    ('single', 600, 4000, single),
]
