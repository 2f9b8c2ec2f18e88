"""C04: parameter values through edit histories."""
import math

import numpy as np

from skcurve import Curve, Point, Segment
from skcurve import curves as gen_curves
from vlib import gen
from vlib.editmodel import History, Model, cumarc, verify

RULE = ('histories of edits over pools of mostly parametric curves with unique, repeated, decreasing and random '
        'parameter values, each t compared value by value with a list model; non-trivial: the history produced a '
        'parametric curve with at least one point')
ASSUMPTIONS = ['exactly representable coordinates', 'arc length of float32 data compared to 1e-4, of float16 data not compared']


def history(case):
    h = History(case, parametric=None if case.rng.random() < 0.3 else True)
    for _ in range(case.rng.randint(4, 12)):
        h.step()
    h.finish()
    if any(m.t for _, m in h.pool):
        case.sig(case.log)
    case.sample([str(e) for e in case.log[:8]])


def keepers(case):
    """Operations that must keep every surviving point's own value."""
    rng = case.rng
    n, m = gen.ndim(rng, 2, 4), gen.size(rng, 1, 14)
    rows = gen.rows(rng, m, n, rng.choice(['dup', 'lattice', 'walk', 'range', 'float']))
    op = rng.choice(['nonsingular', 'nonsingular', 'coorient', 'unique', 'drop', 'smooth', 'reverse2', 'dims', 'insert',
                     'ctor', 'generators', 'iter'])
    if op == 'nonsingular':
        bad = rng.choice([math.nan, math.inf, -math.inf])
        out = []
        for r in rows:
            r = list(r)
            if rng.random() < 0.2:
                r[rng.randrange(n)] = bad
            out.append(tuple(r))
            if rng.random() < 0.3:
                out.append(tuple(r))
        rows, m = out, len(out)
    t = gen.tdata(rng, m, rng.choice(['nonuni', 'rand', 'decr', 'rep', 'index', 'unit', 'neg']))
    c = Curve(np.array(rows, dtype='float64').reshape(m, n), tdata=t)
    mod = Model(rows, t, 'float64', n)
    how = (op, m, n)
    case.rec(op, rows[:10], t[:10])
    if op == 'nonsingular':
        keep, last = [], None
        for i, r in enumerate(rows):
            if not all(math.isfinite(x) for x in r):
                continue
            if last is not None:
                d = math.sqrt(sum((a - b) ** 2 for a, b in zip(r, last)))
                if d <= 1e-8:
                    continue
                if d < 1e-5:
                    return
            last = r
            keep.append(i)
        verify(case, c.nonsingular(), mod.pick(keep), how)
    elif op == 'coorient':
        a1, a2 = rng.sample(range(n), 2)
        r = c.coorientplane(a1, a2)
        fwd, rev = mod, mod.pick(range(m)[::-1])
        isfwd = [tuple(x) for x in r.data.tolist()] == fwd.rows
        if isfwd and fwd.rows == rev.rows:
            isfwd = r.t.tolist() == fwd.t
        verify(case, r, fwd if isfwd else rev, how)
    elif op == 'unique':
        seen, keep = set(), []
        for i, r in enumerate(rows):
            if r not in seen:
                seen.add(r)
                keep.append(i)
        verify(case, c.unique(), mod.pick(keep), how)
        verify(case, c.unique().reverse(), mod.pick(keep[::-1]), how)
    elif op == 'drop':
        keep = [i for i in range(m) if rng.random() < 0.6]
        k = np.array([i not in keep for i in range(m)])
        verify(case, c.drop(lambda d: k), mod.pick(keep), how)
        ii = [i for i in range(m) if i not in keep]
        if ii:
            verify(case, c.drop(lambda d: [i - m for i in ii]), mod.pick(keep), how)
            verify(case, c.delete(ii[::-1]), mod.pick(keep), how)
    elif op == 'smooth':
        for s in (c.smooth('window', window_size=3), c.smooth('savgol', window_length=3, polyorder=1, mode='nearest')):
            case.check(not s.isparametric, 'a smoothed curve is not parametric', how)
            case.check(len(s.t) == m and gen.close(s.t, cumarc(s.data.tolist()), 1e-9, 1e-9), 't of smoothed curve', how)
    elif op == 'reverse2':
        verify(case, c.reverse(), mod.pick(range(m)[::-1]), how)
        verify(case, c.reverse().reverse(), mod, how)
        verify(case, c[::-2], mod.pick(range(m)[::-2]), how)
    elif op == 'dims':
        for d in (c.insertdim(rng.randint(0, n)), c.appenddim()):
            case.check(not d.isparametric, 'dimension edit gives a non-parametric curve', how)
            case.check(len(d.t) == m, 'one t per point', how)
            case.check(not d.deletedim(0).isparametric, 'dimension edit gives a non-parametric curve', how)
    elif op == 'insert':
        p = Point([1.0] * n)
        for d in (c.insert(rng.randint(0, m), p), c.append(p), c.append(c), c.insert(0, c), c.append(c[m:]), c.insert(0, c[m:])):
            case.check(not d.isparametric, 'insert/append gives a non-parametric curve', how)
            case.check(len(d.t) == d.size and gen.close(d.t, cumarc(d.data.tolist()), 1e-9, 1e-9), 'one t per point', how)
    elif op == 'ctor':
        verify(case, Curve(c), mod, how)
        verify(case, Curve(c, tdata=range(m)), mod, how)
        verify(case, Curve(c, ndmin=n), mod, how)
        verify(case, Curve(c, dtype='float64', axis=0), mod, how)
        d = Curve(np.array(rows, dtype='float64').reshape(m, n))
        case.check(not d.isparametric, 'curve without tdata is not parametric', how)
        for e in (d + c, c + d):
            case.check(not e.isparametric and len(e.t) == 2 * m, 'mixed concatenation is not parametric', how)
        e = c + c.reverse() + c
        verify(case, e, Model(rows + rows[::-1] + rows, t + t[::-1] + t, 'float64', n), how)
        s = Segment(Point(rows[0]), Point(rows[-1])).to_curve()
        case.check(not s.isparametric, 'segment curve', how)
    elif op == 'generators':
        f = rng.choice([gen_curves.arc, gen_curves.helix, gen_curves.lissajous, gen_curves.irregular_helix,
                        gen_curves.archimedean_spiral])
        g = f(p_count=rng.randint(2, 40))
        gm = Model(g.data.tolist(), g.t.tolist(), 'float64', g.ndim)
        s = slice(*sorted((rng.randint(0, g.size), rng.randint(0, g.size))))
        verify(case, g[s], gm.pick(range(*s.indices(g.size))), how)
        verify(case, g.reverse()[s], gm.pick(range(g.size)[::-1][s]), how)
        verify(case, g[s] + g.reverse(), Model(gm.rows[s] + gm.rows[::-1], gm.t[s] + gm.t[::-1], 'float64', g.ndim), how)
    else:
        case.check([p.t for p in c] == t, 'curve points carry their own t', how)
        case.check([p.t for p in c.reverse()] == t[::-1], 'curve points carry their own t', how)
        case.check([s.p1.t for s in c.segments] == t[:-1] and [s.p2.t for s in c.segments] == t[1:], 'segment ends carry t', how)
    case.ev(op)
    case.sig(op, rows[:4], t[:4])
    case.sample({'op': op, 'rows': rows[:4], 't': t[:4]})


def large(case):
    h = History(case, parametric=True, maxsize=8)
    n = gen.ndim(case.rng, 2, 3)
    h.pool = [h.fresh(n=n, m=case.rng.randint(60, 380) if case.rng.random() < 0.95 else case.rng.randint(1000, 2500)), h.fresh(n=n, m=case.rng.randint(1, 40))]
    for _ in range(case.rng.randint(3, 8)):
        h.step()
    h.finish()
    case.sig(case.log)
    case.sample([str(e)[:200] for e in case.log[:5]])


FAMILIES = [
    ('history', 5000, 90000, history),
    ('keepers', 6000, 90000, keepers),
    ('large', 300, 4000, large),
]
