"""Executable sequential model of curve editing: a plain list of coordinate tuples.

`Model` is deliberately nothing but Python lists; `History` drives a pool of
(real curve, model) pairs through random edits and compares every observation.
"""
import copy
import operator

import numpy as np

from skcurve import Axis, Curve, CurvePoint, Point
from vlib import gen


class Model:
    __slots__ = ('rows', 't', 'dtype', 'n')

    def __init__(self, rows, t, dtype, n):
        self.rows = [tuple(r) for r in rows]
        self.t = None if t is None else list(t)
        self.dtype = np.dtype(dtype).name
        self.n = n

    def pick(self, idx):
        return Model([self.rows[i] for i in idx], None if self.t is None else [self.t[i] for i in idx], self.dtype, self.n)

    def cast(self, rows):
        if not rows:
            return []
        if self.dtype.startswith('int') and all(type(x) is int for r in rows for x in r):
            return [tuple(r) for r in rows]
        a = np.array(rows, dtype='float64').astype(self.dtype)
        return [tuple(r) for r in a.tolist()]


def cumarc(rows):
    """Cumulative arc length of the rows (reference, math.fsum free: plain float64)."""
    if not rows:
        return []
    out = [0.0]
    for a, b in zip(rows, rows[1:]):
        out.append(out[-1] + sum((float(y) - float(x)) ** 2 for x, y in zip(a, b)) ** 0.5)
    return out


def verify(case, c, m, how, deep=True):
    d = c.data
    case.check(d.shape == (len(m.rows), m.n), 'shape after edit', how, d.shape, (len(m.rows), m.n))
    case.check(d.dtype.name == m.dtype, 'dtype after edit', how, d.dtype, m.dtype)
    case.check([tuple(r) for r in d.tolist()] == m.rows, 'points after edit', how, d.tolist()[:30], m.rows[:30])
    case.check(len(c) == len(m.rows) and c.ndim == m.n, 'len/ndim after edit', how)
    if deep:
        case.check(c.isparametric == (m.t is not None), 'isparametric after edit', how, c.isparametric)
        t = c.t
        case.check(t.shape == (len(m.rows),), 't must have one value per point', how, t.shape)
        if m.t is not None:
            case.check(t.tolist() == m.t, 'parameter values after edit', how, t.tolist()[:30], m.t[:30])
            case.ev('parametric results')
        else:
            # float16/float32 curves accumulate in their own precision
            rtol = {'float16': 2e-2, 'float32': 1e-4}.get(m.dtype, 1e-9)
            if not (m.dtype == 'float16'):
                case.check(gen.close(t, cumarc(m.rows), rtol=rtol, atol=1e-9), 't of a non-parametric curve is its arc length',
                           how, t.tolist()[:20], cumarc(m.rows)[:20])


def safe_span(dtype):
    return (0, 100) if dtype.startswith('uint') else (-100, 100)


class History:
    """A pool of curves edited at random; every result is compared with the model."""

    def __init__(self, case, parametric=None, track_t=True, dtypes=None, maxsize=9):
        self.case, self.rng = case, case.rng
        self.track_t = track_t
        self.parametric = parametric
        self.dtypes = dtypes or gen.ALL_DTYPES
        self.maxsize = maxsize
        self.pool = []
        self.kinds = set()
        for _ in range(case.rng.randint(1, 3)):
            self.pool.append(self.fresh())

    # -- sources -------------------------------------------------------------
    def fresh(self, n=None, dtype=None, m=None):
        rng = self.rng
        dtype = dtype or rng.choice(self.dtypes)
        n = n or gen.ndim(rng, 2, 5)
        m = gen.size(rng, 0, self.maxsize, big=0.01) if m is None else m
        kind = rng.choice(['lattice', 'dup', 'range', 'walk'] + ([] if dtype.startswith(('int', 'uint')) else ['dyadic']))
        if dtype == 'int64' and rng.random() < 0.12:
            kind = 'hugeint'
        rows = gen.rows(rng, m, n, kind, dtype)
        par = rng.random() < 0.55 if self.parametric is None else self.parametric
        t = gen.tdata(rng, m) if par else None
        c = Curve(gen.array(rows, n, dtype, rng), tdata=t)
        mod = Model(rows, t, dtype, n)
        self.case.rec('curve', dtype, m, n, rows[:12], t and t[:12])
        verify(self.case, c, mod, ('fresh', dtype, m, n), self.track_t)
        return c, mod

    def other(self, n, m=None):
        """A curve of dimension n from the pool or a new one."""
        cand = [p for p in self.pool if p[1].n == n]
        if cand and self.rng.random() < 0.5 and m is None:
            return self.rng.choice(cand)
        return self.fresh(n=n, m=m)

    def insertable(self, mod, rows):
        lo, hi = safe_span(mod.dtype)
        return all(lo <= x <= hi for r in rows for x in r)

    # -- one step ------------------------------------------------------------
    def step(self):
        rng, case = self.rng, self.case
        i = rng.randrange(len(self.pool))
        c, m = self.pool[i]
        ops = ['slice', 'slice', 'index', 'mask', 'point', 'concat', 'reverse', 'insert', 'insertmany', 'append', 'delete',
               'drop', 'unique', 'insertdim', 'appenddim', 'deletedim', 'copy', 'bad', 'subcurve', 'cast']
        op = rng.choice(ops)
        before = (c.data.tobytes(), None if m.t is None else c.t.tobytes())
        res = getattr(self, 'op_' + op)(c, m)
        case.ev('edits')
        case.ev('op ' + op)
        self.kinds.add(op)
        case.check((c.data.tobytes(), None if m.t is None else c.t.tobytes()) == before, 'edit changed the edited curve', op)
        if res is not None:
            c2, m2, how = res
            case.rec(*how)
            verify(case, c2, m2, how, self.track_t)
            if len(m2.rows) > 400:
                return
            if len(self.pool) < 5:
                self.pool.append((c2, m2))
            else:
                self.pool[rng.randrange(len(self.pool))] = (c2, m2)

    def rint(self, m):
        """An index bound: inside, at the ends, or far outside."""
        rng = self.rng
        v = rng.choice([None, 0, m, -m, m - 1, -1, 1, m + 1, -m - 1, rng.randint(-m - 3, m + 3), rng.randint(-m - 3, m + 3),
                        10 ** 6, -10 ** 6])
        return np.int64(v) if v is not None and rng.random() < 0.1 else v

    def op_slice(self, c, m):
        rng = self.rng
        s = slice(self.rint(len(m.rows)), self.rint(len(m.rows)), rng.choice([None, None, 1, 1, 2, 3, -1, -1, -2, -3, 7]))
        return c[s], m.pick(range(*s.indices(len(m.rows)))), ('slice', s, len(m.rows))

    def op_index(self, c, m):
        rng, sz = self.rng, len(m.rows)
        if not sz:
            idx = np.array([], dtype=np.int64)
            return c[idx], m.pick([]), ('index', [])
        k = rng.choice([1, 2, 3, sz, rng.randint(1, 2 * sz)])
        idx = [rng.randrange(-sz, sz) for _ in range(k)]
        kind = rng.choice(['list', 'tuple', 'array', 'array32', 'range', 'empty'])
        if kind == 'range':
            a, b = rng.randrange(sz), rng.randrange(sz)
            idx = list(range(min(a, b), max(a, b) + 1))
            arg = range(min(a, b), max(a, b) + 1)
        elif kind == 'empty':
            idx, arg = [], np.array([], dtype=np.intp)
        else:
            arg = {'list': list, 'tuple': tuple, 'array': np.array, 'array32': lambda x: np.array(x, dtype=np.int32)}[kind](idx)
        return c[arg], m.pick(idx), ('index', kind, idx, sz)

    def op_mask(self, c, m):
        rng, sz = self.rng, len(m.rows)
        if not sz:
            return None
        mask = [rng.random() < rng.choice([0.0, 0.2, 0.5, 0.8, 1.0]) for _ in range(sz)]
        arg = rng.choice([list, tuple, np.array])(mask)
        return c[arg], m.pick([i for i, b in enumerate(mask) if b]), ('mask', mask)

    def op_point(self, c, m):
        rng, sz, case = self.rng, len(m.rows), self.case
        if not sz:
            return None
        i = rng.randrange(-sz, sz)
        p = c[np.int64(i) if rng.random() < 0.2 else i]
        case.check(isinstance(p, CurvePoint) and [float(x) for x in p.data] == [float(x) for x in m.rows[i]],
                   'curve point', i, p, m.rows[i])
        case.check(p.idx == i % sz and p.curve is c, 'curve point index', i, p.idx)
        if m.t is not None and self.track_t:
            case.check(p.t == m.t[i], 'curve point t', i, p.t, m.t[i])
        case.rec('point', i)
        return None

    def op_subcurve(self, c, m):
        rng, sz = self.rng, len(m.rows)
        if not sz:
            return None
        a, b = rng.randrange(-sz, sz), rng.randrange(-sz, sz)
        e = rng.random() < 0.5
        r = c[a].subcurve(c[b], endpoint=e) if not e or rng.random() < 0.5 else c[a].subcurve(c[b])
        a, b = a % sz, b % sz
        return r, m.pick(range(a, b + (1 if e else 0))), ('subcurve', a, b, e, sz)

    def op_concat(self, c, m):
        d, q = self.other(m.n) if self.rng.random() < 0.85 else (c, m)
        dt = np.promote_types(m.dtype, q.dtype).name
        t = m.t + q.t if m.t is not None and q.t is not None else None
        rows = Model([], None, dt, m.n).cast(m.rows + q.rows)
        if self.rng.random() < 0.3:
            x = c
            x += d
            r = x
        else:
            r = operator.add(c, d)
        return r, Model(rows, t, dt, m.n), ('concat', len(m.rows), len(q.rows), m.dtype, q.dtype)

    def op_reverse(self, c, m):
        return c.reverse(), m.pick(range(len(m.rows))[::-1]), ('reverse', len(m.rows))

    def operand(self, m):
        """Something insertable: Point, CurvePoint, Curve -> (object, rows)."""
        rng = self.rng
        lo, hi = safe_span(m.dtype)
        kind = rng.choice(['point', 'point', 'cpoint', 'curve', 'curve', 'self', 'empty', 'fraction'])
        if kind == 'point':
            r = tuple(rng.randint(max(lo, -9), 9) for _ in range(m.n))
            return Point(r, dtype=rng.choice([None, 'int32', 'float32'])), [r]
        if kind == 'fraction':
            r = tuple(rng.choice([0.5, 1.25, 2.75, 3.0]) * rng.choice([1, 1 if lo == 0 else -1]) for _ in range(m.n))
            return Point(r), [r]
        if kind == 'empty':
            return self.fresh(n=m.n, m=0)[0], []
        if kind == 'self' and m.rows and self.insertable(m, m.rows):
            for c, mm in self.pool:
                if mm is m:
                    return c, m.rows
        for _ in range(5):
            c, q = self.other(m.n)
            if self.insertable(m, q.rows):
                break
        else:
            r = tuple(1 for _ in range(m.n))
            return Point(r), [r]
        if kind == 'cpoint' and q.rows:
            i = rng.randrange(len(q.rows))
            return c[i], [q.rows[i]]
        return c, q.rows

    def op_insert(self, c, m):
        rng, sz = self.rng, len(m.rows)
        obj, rows = self.operand(m)
        i = rng.choice([0, sz, -sz, rng.randint(-sz, sz), rng.randint(-sz, sz)])
        k = i + sz if i < 0 else i
        new = m.rows[:k] + m.cast(rows) + m.rows[k:]
        return (c.insert(np.int64(i) if rng.random() < 0.1 else i, obj), Model(new, None, m.dtype, m.n),
                ('insert', i, type(obj).__name__, rows[:6], sz, m.dtype))

    def op_insertmany(self, c, m):
        """Several indices at once: every value goes before the original point of its index."""
        rng, sz = self.rng, len(m.rows)
        if not sz:
            return None
        k = rng.randint(2, 4)
        idx = [rng.randint(0, sz) for _ in range(k)]
        lo = 0 if m.dtype.startswith('uint') else -9
        one = rng.random() < 0.3
        rows = [tuple(rng.randint(lo, 9) for _ in range(m.n)) for _ in range(1 if one else k)]
        obj = Point(rows[0]) if one else Curve(np.array(rows))
        vals = rows * k if one else rows
        new = []
        for pos in range(sz + 1):
            new += [r for i, r in zip(idx, m.cast(vals)) if i == pos]
            if pos < sz:
                new.append(m.rows[pos])
        arg = rng.choice([list, tuple, np.array])(idx)
        return c.insert(arg, obj), Model(new, None, m.dtype, m.n), ('insertmany', idx, rows, sz)

    def op_append(self, c, m):
        obj, rows = self.operand(m)
        return (c.append(obj), Model(m.rows + m.cast(rows), None, m.dtype, m.n),
                ('append', type(obj).__name__, rows[:6], m.dtype))

    def op_delete(self, c, m):
        rng, sz = self.rng, len(m.rows)
        if not sz:
            return None
        kind = rng.choice(['int', 'int', 'list', 'array', 'slice', 'mask', 'empty'])
        if kind == 'int':
            arg = rng.randrange(-sz, sz)
            gone = {arg % sz}
        elif kind in ('list', 'array'):
            arg = [rng.randrange(-sz, sz) for _ in range(rng.randint(1, sz))]
            gone = {i % sz for i in arg}
            arg = arg if kind == 'list' else np.array(arg)
        elif kind == 'slice':
            arg = slice(self.rint(sz), self.rint(sz), rng.choice([None, 1, 2, -1, -2]))
            gone = set(range(*arg.indices(sz)))
        elif kind == 'mask':
            mask = [rng.random() < 0.4 for _ in range(sz)]
            arg, gone = np.array(mask), {i for i, b in enumerate(mask) if b}
        else:
            arg, gone = [], set()
        return c.delete(arg), m.pick([i for i in range(sz) if i not in gone]), ('delete', kind, arg, sz)

    def op_drop(self, c, m):
        rng, sz = self.rng, len(m.rows)
        if not sz:
            return None
        kind = rng.choice(['mask', 'mask2', 'indices', 'cond', 'cond2', 'none', 'all', 'lmask'])
        seen = []
        if kind in ('mask', 'lmask'):
            mask = [rng.random() < 0.4 for _ in range(sz)]
            gone = {i for i, b in enumerate(mask) if b}
            val = np.array(mask) if kind == 'mask' else mask
        elif kind == 'mask2':
            mm = [[rng.random() < 0.25 for _ in range(m.n)] for _ in range(sz)]
            gone = {i for i, b in enumerate(mm) if any(b)}
            val = np.array(mm)
        elif kind == 'indices':
            ii = [rng.randrange(-sz, sz) for _ in range(rng.randint(1, sz))]
            gone = {i % sz for i in ii}
            val = rng.choice([list, np.array])(ii)
        elif kind in ('cond', 'cond2'):
            k, j = rng.randint(-2, 4), rng.randrange(m.n)
            if kind == 'cond':
                gone = {i for i, r in enumerate(m.rows) if r[j] > k}
                val = lambda d: d[:, j] > k
            else:
                gone = {i for i, r in enumerate(m.rows) if any(x > k for x in r)}
                val = lambda d: d > k
        elif kind == 'none':
            gone, val = set(), np.zeros(sz, dtype=bool)
        else:
            gone, val = set(range(sz)), np.ones(sz, dtype=bool)

        def isa(data):
            seen.append(data.tolist())
            return val(data) if callable(val) else val
        r = c.drop(isa)
        self.case.check(len(seen) >= 1 and [tuple(x) for x in seen[0]] == m.rows, 'drop passes the curve data to the callable', seen[:1])
        return r, m.pick([i for i in range(sz) if i not in gone]), ('drop', kind, sorted(gone), sz)

    def op_unique(self, c, m):
        seen, keep = set(), []
        for i, r in enumerate(m.rows):
            if r not in seen:
                seen.add(r)
                keep.append(i)
        if not m.rows:
            return None
        return c.unique(), m.pick(keep), ('unique', keep, len(m.rows))

    def newdim(self, m):
        rng, sz = self.rng, len(m.rows)
        if rng.random() < 0.35:
            return None, [0] * sz
        lo = 0 if m.dtype.startswith('uint') else -9
        v = [rng.choice([rng.randint(lo, 9), rng.choice([0.5, 1.75])]) for _ in range(sz)]
        return rng.choice([lambda: list(v), lambda: tuple(v), lambda: np.array(v)])(), v

    def dims(self, m, k, v):
        v = [x[0] for x in m.cast([(x,) for x in v])]
        return Model([r[:k] + (x,) + r[k:] for r, x in zip(m.rows, v)], None, m.dtype, m.n + 1)

    def op_insertdim(self, c, m):
        rng = self.rng
        if m.n > 7:
            return None
        arg, v = self.newdim(m)
        a = rng.randint(-m.n, m.n)
        k = a + m.n if a < 0 else a
        if 0 <= a < 3 and rng.random() < 0.2:
            a = Axis(a)
        r = c.insertdim(a) if arg is None and rng.random() < 0.5 else c.insertdim(a, arg)
        return r, self.dims(m, k, v), ('insertdim', a, v[:8], m.n, m.dtype)

    def op_appenddim(self, c, m):
        if m.n > 7:
            return None
        arg, v = self.newdim(m)
        r = c.appenddim() if arg is None and self.rng.random() < 0.5 else c.appenddim(arg)
        return r, self.dims(m, m.n, v), ('appenddim', v[:8], m.n, m.dtype)

    def op_deletedim(self, c, m):
        rng, case = self.rng, self.case
        if m.n == 2:
            case.raises(ValueError, lambda: c.deletedim(rng.randrange(-2, 2)), 'a plane curve must refuse to lose a dimension')
            return None
        if m.n > 3 and rng.random() < 0.4:
            idx = rng.sample(range(m.n), rng.randint(1, m.n - 2))
            arg = [i - m.n if rng.random() < 0.3 else i for i in idx]
            if rng.random() < 0.3:
                arg = np.array(arg)
        else:
            arg = rng.randrange(-m.n, m.n)
            idx = [arg % m.n]
            if 0 <= arg < 3 and rng.random() < 0.2:
                arg = Axis(arg)
        keep = [j for j in range(m.n) if j not in set(idx)]
        return (c.deletedim(arg), Model([tuple(r[j] for j in keep) for r in m.rows], None, m.dtype, len(keep)),
                ('deletedim', arg, m.n))

    def op_copy(self, c, m):
        f = self.rng.choice([copy.copy, copy.deepcopy, Curve, lambda x: x[:]])
        return f(c), m.pick(range(len(m.rows))), ('copy', len(m.rows))

    def op_cast(self, c, m):
        dt = self.rng.choice(['float64', 'float64', 'float32'])
        if np.promote_types(m.dtype, dt) != np.dtype(dt):
            return None
        k = self.rng.choice([None, m.n, m.n + 1]) if m.n < 6 else None
        rows = [tuple(float(x) for x in r) for r in m.rows]
        n = m.n
        if k and k > n:
            rows = [r + (0.0,) for r in rows]
            n = k
        return Curve(c, dtype=dt, ndmin=k), Model(rows, m.t, dt, n), ('cast', dt, k)

    def op_bad(self, c, m):
        """Requests that the documentation says are refused."""
        rng, case, sz, n = self.rng, self.case, len(m.rows), m.n
        k = rng.choice(['past', 'before', 'list', 'insert', 'delete', 'delete list', 'insertdim', 'deletedim', 'ndim+', 'ndim insert',
                        'ndim append', 'mask', 'add type', 'drop', 'drop2', 'insert type', 'less2', 'seg', 'key', 'array2', 'floats'])
        far = rng.choice([0, 0, 1, 2, sz, sz + 1, 2 * sz, 1000])
        case.rec('bad', k, far)
        if k == 'past':
            case.raises(IndexError, lambda: c[sz + far], 'index past the end', sz, far)
        elif k == 'before':
            case.raises(IndexError, lambda: c[-sz - 1 - far], 'index before the start', sz, -sz - 1 - far)
        elif k == 'list':
            i = rng.choice([sz + far, -sz - 1 - far])
            case.raises(IndexError, lambda: c[[i]], 'index list out of range', sz, i)
        elif k == 'insert':
            i = rng.choice([sz + 1 + far, -sz - 1 - far])
            case.raises(IndexError, lambda: c.insert(i, Point([0] * n)), 'insert position out of range', sz, i)
        elif k == 'delete':
            i = rng.choice([sz + far, -sz - 1 - far])
            case.raises(IndexError, lambda: c.delete(i), 'delete position out of range', sz, i)
        elif k == 'delete list':
            i = rng.choice([sz + far, -sz - 1 - far])
            case.raises(IndexError, lambda: c.delete([i] + list(range(min(sz, 2)))), 'delete position out of range', sz, i)
        elif k == 'insertdim':
            i = rng.choice([n + 1 + far, -n - 1 - far])
            case.raises(IndexError, lambda: c.insertdim(i), 'axis out of range', n, i)
        elif k == 'deletedim' and n > 2:
            i = rng.choice([n + far, -n - 1 - far])
            case.raises(IndexError, lambda: c.deletedim(i), 'axis out of range', n, i)
        elif k in ('ndim+', 'ndim insert', 'ndim append'):
            d = self.fresh(n=n + rng.choice([1, 2] if n == 2 else [-1, 1]))[0]
            if k == 'ndim+':
                case.raises(ValueError, lambda: c + d, 'concatenation of another dimension', n, d.ndim)
            else:
                x = rng.choice([d, d[0] if d else d, Point([1])])
                if k == 'ndim insert':
                    case.raises(ValueError, lambda: c.insert(0, x), 'insertion of another dimension', n, x.ndim)
                else:
                    case.raises(ValueError, lambda: c.append(x), 'append of another dimension', n, x.ndim)
        elif k == 'mask' and sz:
            L = sz + rng.choice([-1, 1, 2])
            if L > 0:
                case.raises(IndexError, lambda: c[[True] * L], 'mask of another length', sz, L)
        elif k == 'add type':
            case.raises(TypeError, lambda: c + [1, 2], 'concatenation with a list')
        elif k == 'drop':
            case.raises(TypeError, lambda: c.drop([0]), 'drop without a callable')
        elif k == 'drop2' and sz:
            case.raises(ValueError, lambda: c.drop(lambda d: np.zeros((sz, n), dtype=int)), 'drop with a 2-d non-boolean array')
        elif k == 'less2' and n > 2:
            case.raises(ValueError, lambda: c.deletedim(rng.sample(range(n), rng.choice([n - 1]))), 'fewer than two dimensions') if sz else None
        elif k == 'seg' and sz > 1:
            case.raises((IndexError, ValueError), lambda: c.segments[sz - 1 + far], 'segment past the end')
        elif k == 'array2' and sz:
            i = [rng.randrange(-sz, sz) for _ in range(4)]
            case.raises(IndexError, lambda: c[rng.choice([np.array(i).reshape(2, 2), np.array(i)[:1].reshape(1, 1), [i[:2], i[2:]]])], 'indices with two dimensions', i)
            case.raises(IndexError, lambda: c[np.array(i).reshape(2, 2, 1)], 'indices with three dimensions', i)
        elif k == 'floats' and sz:
            i = [float(rng.randrange(sz)) for _ in range(2)]
            case.raises(IndexError, lambda: c[rng.choice([list, np.array])(i)], 'indices that are not integers', i)
            case.raises(IndexError, lambda: c[['a', 'b']], 'indices that are not numbers')
        elif k == 'key':
            case.raises(TypeError, lambda: c[rng.choice([None, 1.5, {}])], 'index of a wrong type')
        return None

    def finish(self):
        for c, m in self.pool:
            verify(self.case, c, m, ('at the end of the history',), self.track_t)
