"""C07: chord, arc and cumulative lengths."""
import math
import warnings

import numpy as np

from skcurve import Curve, Point
from vlib import gen

RULE = ('random curves (size 0..1500, dims 2..6, every integer and float dtype, magnitudes 2^-200..2^200) against the '
        'definition and under reversal, translation, rotation, axis permutation, added dimensions, scaling and cuts; '
        'non-trivial: the curve has at least two points')
ASSUMPTIONS = ['float64 lengths compared to 1e-12 relative, float32 to 1e-5']


def ref(rows):
    return [math.sqrt(math.fsum((float(y) - float(x)) ** 2 for x, y in zip(a, b))) for a, b in zip(rows, rows[1:])]


def lengths(case, c, rows, how, rtol):
    m = len(rows)
    want = ref(rows)
    big = max([1e-300] + want)
    cl = c.chordlen
    case.check(cl.shape == (max(0, m - 1),), 'one chord length per segment', how, cl.shape)
    case.check(gen.close(cl, want, rtol, 0 if rtol < 1e-9 else big * 1e-6), 'chord lengths', how, cl.tolist()[:10], want[:10])
    tot = math.fsum(want)
    al = c.arclen
    case.check(np.ndim(al) == 0 and abs(float(al) - tot) <= max(rtol, 1e-12) * tot, 'arclen', how, al, tot)
    cu = c.cumarclen
    case.check(cu.shape == (m,), 'cumarclen has one value per point', how, cu.shape)
    if m:
        case.check(cu[0] == 0, 'cumarclen starts at zero', how, cu[0])
        case.check(bool(np.all(np.diff(cu) >= 0)), 'cumarclen never decreases', how, cu.tolist()[:12])
        case.check(abs(float(cu[-1]) - tot) <= max(rtol * 10, 1e-12) * tot, 'cumarclen ends at arclen', how, cu[-1], tot)
        acc, s = [0.0], 0.0
        for x in want:
            s += x
            acc.append(s)
        case.check(gen.close(cu, acc, max(rtol * 10, 1e-12), tot * rtol * 10), 'cumarclen', how, cu.tolist()[:10], acc[:10])
        ends = math.sqrt(math.fsum((float(y) - float(x)) ** 2 for x, y in zip(rows[0], rows[-1])))
        case.check(float(al) >= ends * (1 - max(rtol, 1e-12)), 'arclen below the end-to-end distance', how, al, ends)
    else:
        case.check(al == 0, 'empty curve has length zero', how, al)


def definition(case):
    rng = case.rng
    dt = rng.choice(['float64', 'float64', 'float32'] + gen.INT_DTYPES)
    n, m = gen.ndim(rng), gen.size(rng, 0, 12, huge=1500)
    rows = gen.rows(rng, m, n, None, dt)
    if dt == 'float64' and rng.random() < 0.2:
        k = 2.0 ** rng.randint(-200, 200)
        rows = [tuple(x * k for x in r) for r in rows]
    elif dt == 'float64' and rng.random() < 0.15:
        # chords many orders of magnitude shorter than others
        rows = [tuple(x * 2.0 ** -rng.choice([0, 0, 20, 40, rng.randint(1, 70)]) for x in r) for r in rows]
    t = gen.tdata(rng, m) if rng.random() < 0.3 else None
    c = gen.curve(rng, gen.array(rows, n, dt, rng), t)
    how = (dt, n, m, rows[:6])
    rtol = 1e-12 if dt != 'float32' else 1e-5
    order = rng.sample(['t', 'cumarclen', 'arclen', 'chordlen'], 4)
    with warnings.catch_warnings():
        for name in order:
            getattr(c, name)
    lengths(case, c, rows, how, rtol)
    if t is None:
        case.check(gen.close(c.t, c.cumarclen, 0, 0), 't of a non-parametric curve', how)
    if 2 <= m <= 40:
        cl = c.chordlen.tolist()
        case.check([float(s.chordlen) for s in c.segments] == cl, 'segment chordlen', how)
        case.check(gen.close([float(s.seglen) for s in c.segments], cl, max(rtol, 1e-12), 1e-6 if rtol > 1e-9 else 0),
                   'segment seglen', how, cl)
        case.check([float(p.cumarclen) for p in c] == c.cumarclen.tolist(), 'cumarclen of curve points', how)
    if m >= 2:
        case.sig(how)
    case.sample({'dtype': dt, 'rows': rows[:4], 'arclen': c.arclen})


def laws(case):
    rng = case.rng
    n, m = gen.ndim(rng), gen.size(rng, 1, 14, huge=600)
    rows = gen.rows(rng, m, n, rng.choice(['float', 'dyadic', 'walk', 'dup', 'line', 'closed']))
    a = np.array(rows).reshape(m, n)
    c = gen.curve(rng, a)
    L, cl, cu = float(c.arclen), c.chordlen, c.cumarclen
    how = (n, m, rows[:6])
    tol = 1e-11 * (1 + L)

    def eq(x, y, law, *w):
        case.check(gen.close(x, y, 1e-11, tol), law, how, np.asarray(x).tolist() if np.ndim(x) else x, np.asarray(y).tolist() if np.ndim(y) else y, w)
    r = c.reverse()
    eq(r.arclen, L, 'reversal')
    eq(r.chordlen, cl[::-1], 'reversal of chords')
    eq(r.cumarclen, (L - cu)[::-1], 'reversal of cumulative length')
    v = np.array([rng.uniform(-20, 20) for _ in range(n)])
    eq(Curve(a + v).chordlen, cl, 'translation')
    eq(Curve(a @ gen.rotation(rng, n).T).chordlen, cl, 'rotation')
    perm = rng.sample(range(n), n)
    eq(Curve(a[:, perm]).chordlen, cl, 'axis permutation')
    eq(c.insertdim(rng.randint(0, n)).chordlen, cl, 'added zero dimension')
    eq(Curve(a, ndmin=n + 2).cumarclen, cu, 'added zero dimensions')
    k = 2.0 ** rng.randint(-60, 60)
    s = Curve(a * k)
    case.check(gen.close(s.chordlen, cl * k, 1e-12) and gen.close(s.arclen, L * k, 1e-12), 'scaling', how, k)
    eq(Curve(-a).arclen, L, 'point reflection')
    i = rng.randrange(m)
    eq(c[:i + 1].arclen + c[i:].arclen, L, 'additive when cut at a point', i)
    eq(c[:i + 1].arclen, cu[i], 'length up to a point', i)
    if m > 2:
        j = rng.randrange(1, m - 1)
        case.check(c.delete(j).arclen <= L + tol, 'removing a point cannot lengthen a curve', how, j)
    case.check((c + c).size == 2 * m and (c + c[:0]).arclen == c.arclen, 'concatenation with an empty curve', how)
    eq(Curve(np.repeat(a, 2, axis=0)).arclen, L, 'repeated points add no length')
    case.sig(how)
    case.sample({'rows': rows[:4], 'arclen': L})


def fine(case):
    """Many short chords, far from the origin as well."""
    rng = case.rng
    n, m = gen.ndim(rng), int(10 ** rng.uniform(0.5, 2.7))
    off = rng.choice([0, 1, 30, 1000, 10 ** 6, 10 ** 9])
    dt = rng.choice(['float64', 'float64', 'int64', 'int32'])
    k = 2.0 ** rng.randint(-20, 0) if dt == 'float64' else 1
    p = [rng.randint(-off, off) for _ in range(n)]
    rows = []
    for _ in range(m):
        rows.append(tuple(x * k if dt == 'float64' else x for x in p))
        p = [x + rng.randint(-3, 4) for x in p]
    c = gen.curve(rng, gen.array(rows, n, dt, rng))
    how = (dt, n, m, off, k, rows[:5])
    lengths(case, c, rows, how, 1e-12)
    case.ev('fine curves')
    case.sig(how)
    case.sample({'dtype': dt, 'size': m, 'rows': rows[:3], 'arclen': c.arclen})


def degenerate(case):
    rng = case.rng
    n = gen.ndim(rng)
    dt = rng.choice(['float64', 'int32', 'uint8', 'float32'])
    k = rng.choice(['empty', 'one', 'sub', 'const', 'two'])
    # hostile heap content: uninitialised memory must not show up in the result
    junk = [np.full(rng.randint(1, 64), 123.25) for _ in range(8)]
    del junk
    if k == 'empty':
        c, rows = Curve([], ndmin=n, dtype=dt), []
    elif k == 'sub':
        c, rows = Curve(gen.array(gen.rows(rng, 4, n, 'lattice', dt), n, dt))[4:], []
    elif k == 'one':
        rows = gen.rows(rng, 1, n, 'lattice', dt)
        c = Curve(gen.array(rows, n, dt))
    elif k == 'const':
        rows = gen.rows(rng, 1, n, 'lattice', dt) * rng.randint(2, 9)
        c = Curve(gen.array(rows, n, dt))
        case.check(float(c.arclen) == 0, 'constant curve has length zero', rows)
    else:
        rows = gen.rows(rng, 2, n, 'bigint', dt)
        c = Curve(gen.array(rows, n, dt))
    for _ in range(2):
        lengths(case, c, rows, (k, n, dt), 1e-5 if dt == 'float32' else 1e-12)
    case.check(c.reverse().arclen == c.arclen if len(rows) < 2 else True, 'reversal', k)
    case.sig(k, n, dt, rows)
    case.sample({'kind': k, 'dtype': dt, 'rows': rows[:2]})


FAMILIES = [
    ('definition', 6000, 90000, definition),
    ('laws', 2500, 40000, laws),
    ('fine', 700, 9000, fine),
    ('degenerate', 2500, 20000, degenerate),
]
