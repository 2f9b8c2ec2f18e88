"""A world of live objects for the immutability monitor (C02).

Everything the caller ever supplied and everything the library ever returned is
kept with a snapshot; after each operation all snapshots are compared again.
"""
import os
import random
import sys
import warnings

import numpy as np

import skcurve as sk
from skcurve import Curve, CurvePoint, CurveSegment, Point, Segment, SegmentsIntersection
from vlib import gen

CURVE_PROPS = ['t', 'chordlen', 'cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal',
               'binormal', 'speed', 'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion', 'arclen', 'isplane']
POINT_PROPS = [p for p in CURVE_PROPS if p not in ('chordlen', 'arclen', 'isplane')]


def process_state():
    """Fingerprint of the process-wide state the library has no business to change."""
    rs = np.random.get_state()
    return (tuple(sorted(np.geterr().items())), repr(sorted(np.get_printoptions().items())), np.geterrcall(), np.getbufsize(),
            tuple(map(repr, warnings.filters)), id(warnings.showwarning), random.getstate(),
            (rs[0], rs[1].tobytes()) + rs[2:], sk.default_intersect_method(), tuple(sk.interp_methods()),
            tuple(sk.smooth_methods()), tuple(sk.intersect_methods()), tuple(sk.known_metrics()),
            os.getcwd(), sys.getrecursionlimit(), tuple(sys.path), len(os.environ))


STATE_NAMES = ['numpy error settings', 'numpy print settings', 'numpy error callback', 'numpy buffer size', 'warning filters',
               'warnings.showwarning', 'random state', 'numpy random state', 'default intersect method', 'interpolation methods',
               'smoothing methods', 'intersection methods', 'metrics', 'working directory', 'recursion limit', 'sys.path', 'environment']


def snap(o):
    """A deep value of an object, independent of the object."""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('arr-o', o.shape, tuple(snap(x) for x in o.ravel()))
        return ('arr', o.shape, o.dtype.char, o.tobytes())
    if isinstance(o, CurvePoint):
        return ('cp', o.idx, id(o.curve), o.dtype.char, o.data.tobytes())
    if isinstance(o, CurveSegment):
        return ('cs', o.idx, id(o.curve), snap(o.p1), snap(o.p2))
    if isinstance(o, Point):
        return ('p', o.ndim, o.dtype.char, o.data.tobytes())
    if isinstance(o, Segment):
        return ('s', snap(o.p1), snap(o.p2))
    if isinstance(o, Curve):
        return ('c', o.size, o.ndim, o.dtype.char, o.data.tobytes(), o.t.tobytes() if o.isparametric else None)
    if isinstance(o, SegmentsIntersection):
        return ('i', snap(o.segment1), snap(o.segment2), o.intersect_type, snap(o.intersect_info.data))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(x) for x in o))
    if isinstance(o, dict):
        return ('d', tuple((k, snap(v)) for k, v in sorted(o.items())))
    if isinstance(o, (float, np.floating)):
        return ('f', repr(float(o)))
    if o is None or isinstance(o, (int, str, bool, np.integer, np.bool_)):
        return o if o is None else ('v', repr(o))
    if isinstance(o, (sk.InterpolationGrid, METHOD_BASE)):
        return (type(o).__name__, snap({k: v for k, v in vars(o).items()}))
    return ('id', id(o))


METHOD_BASE = type(sk.get_intersect_method('exact')).__mro__[1]


class World:
    def __init__(self, case, ndim=None, dtype=None):
        self.case, self.rng = case, case.rng
        self.n = ndim or self.rng.choice([2, 2, 3, 3, 4])
        self.kept = []            # (what, object, snapshot)
        self.args = []            # caller-supplied mutable things: [what, object, snapshot]
        self.curves, self.points, self.segs = [], [], []
        self.state = process_state()
        self.steps = 0

    # -- bookkeeping ---------------------------------------------------------
    def give(self, what, o):
        """Register a caller's array or list that is about to be passed in."""
        self.args.append([what, o, snap(o), o.flags.writeable if isinstance(o, np.ndarray) else None])
        return o

    def keep(self, what, o):
        self.kept.append((what, o, snap(o)))
        # extrapolation may give NaN: such objects are watched but not worked with
        ok = isinstance(o, (Curve, Segment, Point)) and bool(np.all(np.abs(o.data.astype(np.float64)) < 1e12))
        if isinstance(o, Curve):
            if ok and o.ndim == self.n and len(self.curves) < 14:
                self.curves.append(o)
            self.not_shared(what, o.data)
            if o.isparametric:
                self.not_shared(what + '.t', o.t)
        elif isinstance(o, Segment):
            if ok and o.ndim == self.n and len(self.segs) < 14:
                self.segs.append(o)
        elif isinstance(o, Point):
            if ok and o.ndim == self.n and len(self.points) < 20:
                self.points.append(o)
            self.not_shared(what, o.data)
        elif isinstance(o, np.ndarray):
            if o.dtype != object:
                self.not_shared(what, o)
        elif isinstance(o, (list, tuple)):
            for x in o:
                if isinstance(x, (Curve, Point, Segment, np.ndarray)):
                    self.keep(what + '[]', x)
        return o

    def not_shared(self, what, arr):
        for w, a, _, _ in self.args[-6:]:
            if isinstance(a, np.ndarray) and a.dtype != object and a.size and arr.size:
                self.case.check(not np.may_share_memory(a, arr) or not np.shares_memory(a, arr),
                                '%s shares memory with the %s the caller supplied' % (what, w))

    def verify(self, what):
        c = self.case
        self.steps += 1
        c.ev('operations')
        st = process_state()
        if st != self.state:
            bad = [n for n, a, b in zip(STATE_NAMES, st, self.state) if a != b]
            c.fail('%s changed process-wide state: %s' % (what, ', '.join(bad)))
        for w, o, s, wr in self.args:
            now = snap(o)
            c.check(now == s, '%s changed the %s the caller supplied' % (what, w), o)
            if wr is not None:
                c.check(o.flags.writeable == wr, '%s changed the writeable flag of the %s' % (what, w), o)
        for w, o, s in self.kept:
            if snap(o) != s:
                c.fail('%s changed the value of %s' % (what, w), o, s)
        c.ev('snapshots compared', len(self.kept) + len(self.args))
        c.eng.events['oracle:' + c.family] += len(self.kept)

    def scribble(self):
        """The caller changes its own arrays and lists: nothing the library made may follow."""
        rng = self.rng
        for rec in self.args:
            w, o = rec[0], rec[1]
            if isinstance(o, np.ndarray) and o.flags.writeable and o.size and o.dtype != object:
                if o.dtype == bool:
                    np.logical_not(o, out=o)
                else:
                    o[...] = rng.randint(1, 9)
                self.case.ev('caller arrays overwritten')
            elif isinstance(o, list) and o:
                o[rng.randrange(len(o))] = o[rng.randrange(len(o))]
                o.reverse()
            else:
                continue
            rec[2] = snap(o)
        self.verify('the caller changing its own arrays')

    # -- material ------------------------------------------------------------
    def dtype(self):
        return self.rng.choice(['float64'] * 4 + ['float32', 'int64', 'int32', 'int16'])

    def rows(self, m, dt='float64', n=None):
        return gen.rows(self.rng, m, n or self.n, self.rng.choice(['lattice', 'dup', 'walk', 'range', 'line', 'closed']), dt)

    def curve(self, minsize=0):
        ok = [c for c in self.curves if c.size >= minsize]
        if ok and self.rng.random() < 0.85:
            return self.rng.choice(ok)
        return self.new_curve(self.rng.randint(max(minsize, 2), max(minsize, 9)))

    def point(self):
        if self.points and self.rng.random() < 0.8:
            return self.rng.choice(self.points)
        return self.keep('Point(array)', Point(self.give('coordinates', gen.array(self.rows(1), self.n, 'float64')[0]),
                                               dtype=self.dtype()))

    def seg(self):
        if self.segs and self.rng.random() < 0.8:
            return self.rng.choice(self.segs)
        return self.keep('Segment', Segment(self.point(), self.point()))

    def new_curve(self, m=None, par=None):
        rng = self.rng
        m = rng.randint(0, 9) if m is None else m
        dt = self.dtype()
        rows = self.rows(m, dt)
        kw = {}
        if rng.random() < 0.5 if par is None else par:
            t = gen.tdata(rng, m, rng.choice(['index', 'nonuni', 'unit']))
            kw['tdata'] = self.give('tdata array', np.array(t)) if rng.random() < 0.7 else self.give('tdata list', list(t))
        k = rng.randint(0, 4)
        if k == 0 or not m:
            o = Curve(self.give('array', gen.array(rows, self.n, dt, rng)), **kw)
        elif k == 1:
            o = Curve(self.give('array', np.ascontiguousarray(gen.array(rows, self.n, dt).T)), axis=1, **kw)
        elif k == 2:
            cols = [self.give('column', np.array(x, dtype=dt)) for x in zip(*rows)]
            o = Curve(self.give('list of columns', cols), **kw)
        elif k == 3:
            o = Curve(self.give('nested list', [list(x) for x in zip(*rows)]), dtype=dt, **kw)
        else:
            b = Curve(gen.array(rows, self.n, dt), **kw)
            self.keep('Curve', b)
            o = Curve(b)
        return self.keep('Curve', o)
