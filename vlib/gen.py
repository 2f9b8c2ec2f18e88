"""Workload generators (pure functions of a random.Random)."""
import math

import numpy as np

INT_DTYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32']
FLOAT_DTYPES = ['float64', 'float32']
ALL_DTYPES = ['float64'] * 4 + ['float32', 'float16'] + INT_DTYPES + ['int64', 'int32']


def size(rng, lo=0, hi=12, big=0.03, huge=None):
    r = rng.random()
    if huge and r < 0.005:
        return rng.randint(400, huge)
    if r < big:
        return rng.randint(max(lo, 30), 260)
    if r < 0.3:
        return rng.randint(lo, min(hi, lo + 4))
    return rng.randint(lo, hi)


def ndim(rng, lo=2, hi=6):
    return max(lo, rng.choice([2, 2, 2, 3, 3, 3, 4, 5, rng.randint(lo, hi)]))


def dyadic(rng, span=8, den=8):
    return rng.randint(-span * den, span * den) / den


def rows(rng, m, n, kind=None, dtype='float64'):
    """m coordinate tuples of dimension n, exactly representable in dtype."""
    isint = dtype.startswith(('int', 'uint'))
    unsigned = dtype.startswith('uint')
    if kind is None:
        kind = rng.choice(['lattice', 'lattice', 'dup', 'dyadic', 'walk', 'range', 'line', 'float', 'closed', 'bigint']
                          if not isint else ['lattice', 'dup', 'walk', 'range', 'bigint', 'line'])
    lo = 0 if unsigned else -5
    if kind == 'lattice':
        d = [tuple(rng.randint(lo, 5) for _ in range(n)) for _ in range(m)]
    elif kind == 'dup':
        base = [tuple(rng.randint(lo, 3) for _ in range(n)) for _ in range(max(1, m // 3))]
        d = [rng.choice(base) for _ in range(m)]
    elif kind == 'dyadic':
        d = [tuple(dyadic(rng) for _ in range(n)) for _ in range(m)]
    elif kind == 'walk':
        p = [rng.randint(20 if unsigned else -3, 40) for _ in range(n)]
        d = []
        for _ in range(m):
            d.append(tuple(p))
            p = [min(100, max(0 if unsigned else -100, x + rng.randint(-2, 2))) for x in p]
    elif kind == 'range':
        # every coordinate identifies its row and its column
        d = [tuple((i * n + j) % 120 for j in range(n)) for i in range(m)]
        if not unsigned and rng.random() < 0.3:
            d = [tuple(-x for x in r) for r in d]
    elif kind == 'line':
        a = [rng.randint(lo, 5) for _ in range(n)]
        b = [rng.randint(0 if unsigned else -2, 2) for _ in range(n)]
        k = min(m, 20)
        d = [tuple(x + y * (i % max(1, k)) for x, y in zip(a, b)) for i in range(m)]
    elif kind == 'closed':
        d = [tuple(rng.randint(lo, 9) for _ in range(n)) for _ in range(m)]
        if m > 1:
            d[-1] = d[0]
    elif kind == 'bigint':
        h = {'int8': 127, 'uint8': 255, 'int16': 32767, 'uint16': 65535, 'float16': 2048, 'float32': 2 ** 22}.get(dtype, 2 ** 30)
        l = 0 if unsigned else -h
        d = [tuple(rng.randint(l, h) for _ in range(n)) for _ in range(m)]
    elif kind == 'hugeint':          # neighbours that float64 does not tell apart
        b = rng.choice([2 ** 53, 2 ** 60, -2 ** 55, 2 ** 62])
        d = [tuple(b + rng.randint(-4, 4) for _ in range(n)) for _ in range(m)]
    else:
        d = [tuple(rng.uniform(-10, 10) for _ in range(n)) for _ in range(m)]
    if dtype in ('float32', 'float16') and kind == 'float':
        a = np.array(d, dtype=dtype).reshape(m, n)
        d = [tuple(r) for r in a.astype('float64').tolist()]
    if not isint:
        d = [tuple(float(x) for x in r) for r in d]
    return d


def tdata(rng, m, kind=None):
    """A parameter vector of m floats."""
    kind = kind or rng.choice(['unit', 'index', 'nonuni', 'decr', 'rep', 'rand', 'neg'])
    if kind == 'unit':
        return [i / max(1, m - 1) for i in range(m)]
    if kind == 'index':
        return [float(i) for i in range(m)]
    if kind in ('nonuni', 'neg', 'decr'):
        t, x = [], rng.uniform(-5, 5)
        for _ in range(m):
            t.append(x)
            x += rng.choice([0.125, 0.5, 1.0, 3.0, rng.uniform(0.01, 2)])
        return t[::-1] if kind == 'decr' else t
    if kind == 'rep':
        return [float(rng.randint(0, 2)) for _ in range(m)]
    return [rng.uniform(-100, 100) for _ in range(m)]


def array(rows_, n, dtype, rng=None):
    """An ndarray of the rows, in a random memory layout when rng is given."""
    a = np.array(rows_, dtype=dtype).reshape(len(rows_), n)
    if rng is None:
        return a
    k = rng.randint(0, 6)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:                      # strided view
        b = np.zeros((a.shape[0] * 2 + 1, n * 2), dtype=dtype)
        v = b[1:1 + 2 * a.shape[0]:2, ::2]
        v[...] = a
        return v
    if k == 3:                      # negative strides
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 4:                      # transposed view
        return np.ascontiguousarray(a.T).T
    if k == 5:
        a.flags.writeable = False
    return a


def close(a, b, rtol=1e-9, atol=1e-12):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))))


def isclose_np(a, b):
    """numpy.isclose defaults, scalar."""
    return a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-8 + 1e-5 * abs(b))


def rotation(rng, n):
    """A random orthogonal matrix with determinant +1 (float64)."""
    rs = np.random.RandomState(rng.getrandbits(32))
    q, r = np.linalg.qr(rs.standard_normal((n, n)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


# -- curves with a past --------------------------------------------------------
# A curve is the same curve however it came about and whatever was asked of it before.
PROPS = ['chordlen', 'arclen', 'cumarclen', 't', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal', 'binormal', 'speed',
         'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion', 'isplane', 'data', 'segments']
INTERP = [('linear', {}), ('cubic', {}), ('cubic', {'bc_type': 'clamped'}), ('hermite', {}), ('akima', {}), ('pchip', {}),
          ('spline', {}), ('spline', {'k': 1}), ('spline', {'k': 2, 'smooth': 1.5}), ('spline', {'extrapolate': 3}), ('spline', {'smooth': 30.0}),
          ('csaps', {}), ('csaps', {'smooth': 0.3}), ('csaps', {'smooth': 0.9}), ('csaps', {'smooth': None}),
          ('linear', {'extrapolate': False}), ('cubic', {'extrapolate': False}), ('pchip', {'extrapolate': False}), ('hermite', {'extrapolate': False})]
SMOOTH = [('window', {'window_size': 3}), ('window', {'window_size': 5, 'window_type': 'boxcar'}), ('savgol', {'window_length': 3, 'polyorder': 1}),
          ('savgol', {'window_length': 5, 'polyorder': 2}), ('window', {'window_size': 5, 'window_type': ('gaussian', 1.0), 'mode': 'nearest'})]


def _use(rng, c):
    m = c.size
    k = rng.randrange(12)
    if k < 6:
        getattr(c, rng.choice(PROPS[:-1] if m > 60 else PROPS))
    elif k == 6:
        m and getattr(c[rng.randrange(m)], rng.choice(PROPS[2:16]))
    elif k == 7 and 2 <= m <= 40:
        name, kw = rng.choice(INTERP)
        c.interpolate(rng.choice([2, 3, m, 2 * m]), name, **kw)
    elif k == 8 and m <= 60:
        name, kw = rng.choice(SMOOTH)
        c.smooth(name, **kw)
    elif k == 9 and m <= 9:
        c.intersect(method=rng.choice(['exact', 'almost']))
    elif k == 10 and m:
        i, j = rng.randrange(m), rng.randrange(m)
        c[i:j].arclen, c[j] in c, c.index(c[i]), c.reverse().t
    elif k == 11:
        c.nonsingular(), c.unique(), c.coorientplane(), repr(c)


def touch(rng, c, k=None):
    """Use a curve in random ways; what comes out is judged elsewhere."""
    for _ in range(rng.randint(0, 4) if k is None else k):
        try:
            _use(rng, c)
        except Exception:
            pass
    return c


def _past(rng, a, t):
    import copy
    import pickle
    from skcurve import Curve, Point
    m, n = a.shape
    plain = t is None
    T = None if plain else np.array(t, dtype=np.float64)

    def make(b, s):
        return touch(rng, Curve(b, tdata=s))
    how = rng.choice(['rev', 'slice', 'slice', 'pick', 'pick', 'cut', 'concat', 'copy', 'orient', 'used', 'used'] + (['insert', 'dims', 'dims'] if plain else []))
    if how == 'rev':
        return make(a[::-1], None if plain else T[::-1]).reverse()
    if how in ('slice', 'pick', 'cut'):
        if how == 'pick':
            L = m + rng.randint(0, 6)
            pos = sorted(rng.sample(range(L), m))
        else:
            s = 1 if how == 'cut' else rng.choice([1, 2, 3])
            i, j = rng.randint(0, 3), rng.randint(0, 3)
            L = i + (m - 1) * s + 1 + j
            pos = list(range(i, i + (m - 1) * s + 1, s))
        b = a[[rng.randrange(m) for _ in range(L)]]
        b[pos] = a
        u = None
        if not plain:
            u = np.array([float(T[rng.randrange(m)]) + rng.randint(-3, 3) for _ in range(L)])
            u[pos] = T
        back = how != 'cut' and rng.random() < 0.3
        if back:
            b, u = b[::-1], None if plain else u[::-1]
        q = make(b, u)
        if back:
            pos = [L - 1 - p for p in pos]
        if how == 'cut':
            return q[pos[0]].subcurve(q[pos[-1]]) if rng.random() < 0.7 else q[:pos[-1] + 1][pos[0]:]
        if how == 'slice':
            if back:
                stop = pos[-1] - 1
                return q[pos[0]:(stop if stop >= 0 else None):-s]
            return q[pos[0]:pos[-1] + 1:s]
        k = rng.randrange(4)
        if k == 0 or back:
            return q[rng.choice([pos, np.array(pos), tuple(pos)])]
        mask = np.zeros(L, dtype=bool)
        mask[pos] = True
        if k == 1:
            return q[mask]
        if k == 2:
            return q.delete([x for x in range(L) if not mask[x]])
        return q.drop(lambda d: ~mask)
    if how == 'concat':
        k = rng.randint(0, m)
        return make(a[:k], None if plain else T[:k]) + make(a[k:], None if plain else T[k:])
    if how == 'copy':
        q = make(a, T)
        return rng.choice([copy.copy, copy.deepcopy, Curve, lambda x: x[:], lambda x: x.reverse().reverse(), lambda x: pickle.loads(pickle.dumps(x))])(q)
    if how == 'orient':
        r = make(a, T).coorientplane()
        return r if np.array_equal(r.data, a) else make(a[::-1], None if plain else T[::-1]).coorientplane()
    if how == 'insert':
        k = rng.randrange(m)
        return make(np.delete(a, k, axis=0), None).insert(k, Point(a[k], dtype=a.dtype))
    if how == 'dims':
        k = rng.randrange(n + 1)
        if n > 2 and rng.random() < 0.5:
            k = min(k, n - 1)
            return make(np.delete(a, k, axis=1), None).insertdim(k, a[:, k])
        return make(np.insert(a, k, a[:, 0][::-1], axis=1), None).deletedim(k)
    return touch(rng, Curve(a, tdata=t), rng.randint(1, 6))


def curve(rng, a, t=None, p=0.5):
    """The curve of the array and the parameter, in a share p of the cases reached through a random history."""
    from skcurve import Curve
    if len(a) and rng.random() < p:
        a0 = np.array(a)
        try:
            c = _past(rng, a0, t)
            same = (c.dtype == a0.dtype and np.array_equal(c.data, a0) and c.isparametric == (t is not None)
                    and (t is None or np.array_equal(c.t, np.array(t, dtype=np.float64))))
        except Exception:
            same = False
        if same:                # otherwise the edit itself is wrong: judged by C03 and C04
            return c
    return Curve(a, tdata=t)
