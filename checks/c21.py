"""C21: nonsingular, unique and coorientplane against list definitions."""
import math
from fractions import Fraction

import numpy as np

from skcurve import Axis, Curve
from vlib import gen

RULE = ('random curves (0..16 points and some of several hundred, dims 2..6, all dtypes, parametric or not) with runs of coincident '
        'points and NaN/Inf points at the start, end, in the middle and next to each other; all axis pairs; non-trivial: something was '
        'to be removed, or the orientation was negative')
ASSUMPTIONS = ['distinct neighbouring points are at least 1e-7 apart, coincident ones at most 1e-10', 'orientation compared when it is not zero in exact arithmetic']


def base(case, lo=0, hi=12, dtype=None):
    rng = case.rng
    n, m = gen.ndim(rng), gen.size(rng, lo, hi, huge=2600)
    dt = dtype or rng.choice(gen.ALL_DTYPES)
    rows = [list(r) for r in gen.rows(rng, m, n, rng.choice(['lattice', 'dup', 'walk', 'range', 'closed', 'line']), dt)]
    t = gen.tdata(rng, m) if m and rng.random() < 0.4 else None
    return n, m, dt, rows, t


def result(case, c, r, rows, t, n, dt, what, how):
    case.check(type(r) is Curve and r.ndim == n and r.dtype == np.dtype(dt), what + ': kind of the result', how, type(r), r.ndim, r.dtype)
    got = r.data.tolist()
    ok = len(got) == len(rows) and all(x == y or (x != x and y != y) for a, b in zip(got, rows) for x, y in zip(a, b))
    case.check(ok, what, how, 'got', got, 'want', rows)
    case.check(r.isparametric == (t is not None), what + ': parametric as the curve', how)
    if t is not None:
        case.check(r.t.tolist() == list(t), what + ': parameters of the points kept', how, r.t.tolist(), t)
    case.check(len(r) == len(rows), 'size', how)


def finite(r):
    return all(math.isfinite(x) for x in r)


def nonsingular(case):
    rng = case.rng
    n, m, dt, rows, t = base(case)
    isf = dt.startswith('float')
    if rows and dt == 'float64' and rng.random() < 0.35:
        # chords of very different lengths
        k = rng.choice([1e-3, 1e-3, 1e3, 1e6])
        rows = [[x * k for x in r] for r in rows]
        if rng.random() < 0.6:
            i = rng.randrange(len(rows))
            h = rng.choice([1e3, 1e5, 1e7])
            rows[i] = [x + h * rng.choice([-1, 1, 1]) for x in rows[i]]
    # runs of coincident points
    out, tt = [], []
    for i, r in enumerate(rows):
        k = rng.choice([1, 1, 1, 2, 3, 5]) if rng.random() < 0.5 else 1
        for j in range(k):
            q = list(r)
            if j and dt == 'float64' and rng.random() < 0.2:
                q = [x + rng.choice([0, 1e-11, -1e-11]) for x in q]
            out.append(q)
            tt.append((t[i] if t else 0.0) + j * 0.01)
        if isf and rng.random() < 0.3:
            for j in range(rng.choice([1, 1, 2, 3])):
                q = list(rng.choice(rows))
                bad = rng.choice([math.nan, math.nan, math.inf, -math.inf])
                for a in rng.sample(range(n), rng.choice([1, 1, n])):
                    q[a] = bad
                out.insert(rng.choice([len(out), len(out), 0]), q)
                tt.append(rng.uniform(-5, 5))
    if not out:
        case.ev('empty')
    tt = tt[:len(out)]
    c = gen.curve(rng, gen.array(out, n, dt, rng), tt if t else None)
    held = c.data.astype(np.float64).tolist() if isf else [list(r) for r in out]
    keep, prev = [], None
    for i, r in enumerate(held):
        if not finite(r):
            continue
        # a point is dropped when it coincides with its predecessor
        if prev is None or math.sqrt(math.fsum((x - y) ** 2 for x, y in zip(r, prev))) > 1e-7:
            keep.append(i)
        prev = r
    how = (dt, n, t is not None, out[:12])
    before = c.data.copy()
    r = c.nonsingular()
    result(case, c, r, [held[i] for i in keep], [float(tt[i]) for i in keep] if t else None, n, dt, 'finite points in order without coincident neighbours', how)
    if len(r) > 1:
        case.check(bool(np.all(r.chordlen > 1e-8)), 'no zero-length segments', how, r.chordlen.tolist())
    q = r.nonsingular()
    result(case, r, q, [held[i] for i in keep], [float(tt[i]) for i in keep] if t else None, n, dt, 'a clean curve does not change', how)
    case.check(np.array_equal(np.nan_to_num(before), np.nan_to_num(c.data)), 'the curve itself is left alone', how)
    if len(keep) < len(out):
        case.sig(how)
    case.ev('points dropped', len(out) - len(keep))
    case.ev('not finite dropped', sum(not finite(r) for r in held))
    case.sample(how)


def unique(case):
    rng = case.rng
    n, m, dt, rows, t = base(case, 0, 16)
    if rows and rng.random() < 0.7:
        for _ in range(rng.randint(1, 6)):
            i = rng.randint(0, len(rows))
            rows.insert(i, list(rng.choice(rows)))
            if t:
                t.insert(i, rng.uniform(-9, 9))
    if rows and dt == 'float64' and rng.random() < 0.2:
        # distinct points may be very close, or differ in one coordinate only
        i = rng.randrange(len(rows))
        q = list(rows[i])
        a = rng.randrange(n)
        q[a] = float(np.nextafter(q[a], 1e9))
        rows.append(q)
        if t:
            t.append(3.5)
    if rows and dt in ('int64', 'uint64') and rng.random() < 0.5:
        # neighbours that only integer arithmetic tells apart
        h = rng.choice([2 ** 24, 2 ** 53, 2 ** 60])
        rows = [[x + h for x in r] for r in rows]
        for _ in range(rng.randint(0, 3)):
            q = list(rng.choice(rows))
            q[rng.randrange(n)] += 1
            i = rng.randint(0, len(rows))
            rows.insert(i, q)
            if t:
                t.insert(i, rng.uniform(-9, 9))
    c = gen.curve(rng, gen.array(rows, n, dt, rng), t)
    held = c.data.tolist()
    seen, keep = set(), []
    for i, r in enumerate(held):
        k = tuple(x + 0 for x in r)
        if k not in seen:
            seen.add(k)
            keep.append(i)
    how = (dt, n, t, rows[:12])
    r = c.unique()
    result(case, c, r, [held[i] for i in keep], [float(t[i]) for i in keep] if t else None, n, dt, 'the first occurrence of each distinct point', how)
    result(case, r, r.unique(), [held[i] for i in keep], [float(t[i]) for i in keep] if t else None, n, dt, 'unique twice', how)
    if len(keep) < len(held):
        case.sig(how)
    case.ev('points dropped', len(held) - len(keep))


def coorient(case):
    rng = case.rng
    n, m, dt, rows, t = base(case)
    if rows and dt == 'float64' and rng.random() < 0.3:
        k = 2.0 ** rng.randint(-60, 60)
        rows = [[x * k for x in r] for r in rows]
    c = gen.curve(rng, gen.array(rows, n, dt, rng), t)
    held = c.data.tolist()
    how = (dt, n, t, rows[:6], rows[-2:])
    pairs = [(0, 1)] + [tuple(rng.sample(range(n), 2)) for _ in range(2)] + [(rng.randrange(-n, n), rng.randrange(-n, n))]
    for a1, a2 in pairs:
        det = 0
        if len(held) > 1:
            p, q = held[0], held[-1]
            det = Fraction(p[a1]) * Fraction(q[a2]) - Fraction(p[a2]) * Fraction(q[a1])
        if (a1, a2) == (0, 1) and rng.random() < 0.5:
            call = lambda x: x.coorientplane()
        elif rng.random() < 0.5:
            call = lambda x: x.coorientplane(a1, a2)
        elif min(a1, a2) >= 0 and max(a1, a2) < 3 and rng.random() < 0.5:
            call = lambda x: x.coorientplane(Axis(a1), axis2=Axis(a2))
        else:
            call = lambda x: x.coorientplane(axis1=a1, axis2=a2)
        r = call(c)
        fwd = r.data.tolist() == held
        bwd = r.data.tolist() == held[::-1]
        case.check(fwd or bwd, 'the curve or its reverse', how, a1, a2, r.data.tolist())
        if det != 0:
            case.check(fwd if det > 0 else bwd, 'the orientation of the end points is positive', how, a1, a2, float(det), r.data.tolist())
            want = held if det > 0 else held[::-1]
            tw = (t if det > 0 else t[::-1]) if t else None
            result(case, c, r, want, tw, n, dt, 'co-oriented curve', how)
            result(case, c, call(r), want, tw, n, dt, 'co-orienting twice', how)
            result(case, c, call(c.reverse()), want, tw, n, dt, 'a curve and its reverse give the same', how)
            case.ev('positive' if det > 0 else 'negative')
            if det < 0:
                case.sig(how, a1, a2)
        else:
            case.ev('zero')
            if t:
                case.check(r.isparametric and (r.t.tolist() == list(t) or r.t.tolist() == list(t)[::-1]), 'parameters of the points kept', how)
            else:
                case.check(not r.isparametric, 'not parametric', how)
        case.check(r.ndim == n and r.dtype == c.dtype, 'dimension and dtype', how)
    if len(held) > 1:
        for a1, a2 in ((n, 0), (0, n), (-n - 1, 0), (0, -n - 1), (n + 3, n + 3)):
            case.raises(IndexError, lambda: c.coorientplane(a1, a2), 'axis out of range', how, a1, a2)


FAMILIES = [
    ('nonsingular', 5000, 120000, nonsingular),
    ('unique', 4000, 100000, unique),
    ('coorient', 3000, 60000, coorient),
]
