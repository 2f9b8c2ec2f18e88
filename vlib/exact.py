"""Exact geometry over Fractions (independent oracles for C11-C16).  Points are tuples of ints or Fractions."""
from fractions import Fraction as F
import random

import numpy as np


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def mul(k, a):
    return tuple(k * x for x in a)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def lerp(p, q, t):
    return tuple(x + t * (y - x) for x, y in zip(p, q))


def rank(vectors):
    """Rank of a list of integer/rational vectors (fraction-free elimination)."""
    rows = [list(v) for v in vectors if any(v)]
    r = 0
    if not rows:
        return 0
    for col in range(len(rows[0])):
        piv = next((i for i in range(r, len(rows)) if rows[i][col]), None)
        if piv is None:
            continue
        rows[r], rows[piv] = rows[piv], rows[r]
        for i in range(r + 1, len(rows)):
            if rows[i][col]:
                a, b = rows[r][col], rows[i][col]
                rows[i] = [a * y - b * x for x, y in zip(rows[r], rows[i])]
        r += 1
        if r == len(rows):
            break
    return r


def affine_rank(points):
    return rank([sub(p, points[0]) for p in points[1:]])


def parallel(s, o):
    u, v = sub(s[1], s[0]), sub(o[1], o[0])
    return dot(u, u) * dot(v, v) == dot(u, v) ** 2


def param(s, p):
    """t of the projection of p on the line of s (s not degenerate)."""
    u = sub(s[1], s[0])
    return F(dot(sub(p, s[0]), u), dot(u, u))


def onseg(s, p):
    """Exactly: is p on the segment s?"""
    u, w = sub(s[1], s[0]), sub(p, s[0])
    if not any(u):
        return not any(w)
    if affine_rank([s[0], s[1], p]) > 1:
        return False
    return 0 <= param(s, p) <= 1


def intersect(s, o):
    """('none',None) | ('point',p) | ('overlap',(p,q)) | ('touch',p), exactly.

    'overlap': the segments are collinear and share points (perhaps one: p == q).
    'point': they are not collinear and share exactly one point."""
    if affine_rank([s[0], s[1], o[0], o[1]]) <= 1:
        c = common(s, o)
        return ('none', None) if c is None else ('overlap', c)
    u, v = sub(s[1], s[0]), sub(o[1], o[0])
    w = sub(o[0], s[0])
    a, b, c = dot(u, u), dot(u, v), dot(v, v)
    d = a * c - b * b
    if d == 0:
        return ('none', None)        # parallel or one of zero length, not collinear
    if rank([u, v, w]) > 2:
        return ('none', None)
    t = F(c * dot(u, w) - b * dot(v, w), d)
    r = F(b * dot(u, w) - a * dot(v, w), d)
    if 0 <= t <= 1 and 0 <= r <= 1:
        return ('point', lerp(s[0], s[1], t))
    return ('none', None)


def marginal(s, o):
    """Whether the lines meet so little beyond (or, in rounded arithmetic, so little before) an end that the tolerances of the library decide."""
    u, v = sub(s[1], s[0]), sub(o[1], o[0])
    w = sub(o[0], s[0])
    a, b, c = dot(u, u), dot(u, v), dot(v, v)
    d = a * c - b * b
    if d == 0:
        return False
    for x in (F(c * dot(u, w) - b * dot(v, w), d), F(b * dot(u, w) - a * dot(v, w), d)):
        if x not in (0, 1) and (abs(x) < F(1, 10 ** 7) or abs(x - 1) < F(2, 10 ** 5)):
            return True
    return False


def common(s, o):
    """The common part of two collinear segments (as an unordered pair of points) or None."""
    pts = [p for p in o if onseg(s, p)] + [p for p in s if onseg(o, p)]
    if not pts:
        return None
    return min(pts), max(pts)


def dist2_point(s, p):
    """Exact squared distance from the point to the segment."""
    u, w = sub(s[1], s[0]), sub(p, s[0])
    uu = dot(u, u)
    if uu == 0:
        return F(dot(w, w))
    t = min(F(1), max(F(0), F(dot(w, u), uu)))
    d = sub(p, lerp(s[0], s[1], t))
    return F(dot(d, d))


def dist2(s, o):
    """Exact squared distance of two segments: the interior critical point or one of the end-point distances."""
    best = min(dist2_point(s, o[0]), dist2_point(s, o[1]), dist2_point(o, s[0]), dist2_point(o, s[1]))
    u, v, w = sub(s[1], s[0]), sub(o[1], o[0]), sub(o[0], s[0])
    a, b, c = dot(u, u), dot(u, v), dot(v, v)
    d = a * c - b * b
    if d:
        t = F(c * dot(u, w) - b * dot(v, w), d)
        r = F(b * dot(u, w) - a * dot(v, w), d)
        if 0 < t < 1 and 0 < r < 1:
            z = sub(lerp(s[0], s[1], t), lerp(o[0], o[1], r))
            best = min(best, F(dot(z, z)))
    return best


# -- figures -------------------------------------------------------------------------------------------------------------
def rpoint(rng, n, L):
    return tuple(rng.randint(-L, L) for _ in range(n))


def rvec(rng, n, L):
    while True:
        v = rpoint(rng, n, L)
        if any(v):
            return v


def rseg(rng, n, L=6, degenerate=0.05):
    p = rpoint(rng, n, L)
    if rng.random() < degenerate:
        return p, p
    while True:
        q = rpoint(rng, n, L)
        if q != p:
            return p, q


def nudge(rng, p):
    i = rng.randrange(len(p))
    return tuple(x + (rng.choice([-1, 1]) if k == i else 0) for k, x in enumerate(p))


def rpair(rng, n, L=6):
    """A pair of lattice segments of a chosen relative position."""
    k = rng.choice(['random', 'random', 'collinear', 'collinear', 'parallel', 'cross', 'cross', 'touch', 'touchend', 'coplanar', 'shared', 'same', 'near',
                    'axis', 'degenerate'])
    s = rseg(rng, n, L, 0.03)
    if k == 'random':
        return k, s, rseg(rng, n, L)
    if k == 'axis':
        v = [0] * n
        v[rng.randrange(n)] = rng.choice([-1, 1])
        w = [0] * n
        w[rng.randrange(n)] = rng.choice([-1, 1])
        p, q = rpoint(rng, n, 3), rpoint(rng, n, 3)
        return k, (p, add(p, mul(rng.randint(1, 5), v))), (q, add(q, mul(rng.randint(1, 5), w)))
    if k == 'same':
        return k, s, rng.choice([s, s[::-1]])
    if k == 'degenerate':
        o = (s[0], s[0]) if rng.random() < 0.5 else rseg(rng, n, L, 1.0)
        return (k,) + ((s, o) if rng.random() < 0.5 else (o, s))
    p, u = rpoint(rng, n, L), rvec(rng, n, 3)
    a, b, c, d = (rng.randint(-4, 4) for _ in range(4))
    if a == b:
        b += 1
    s = (add(p, mul(a, u)), add(p, mul(b, u)))
    if k in ('collinear', 'parallel'):
        if c == d:
            d += rng.choice([0, 1, 2])
        o = (add(p, mul(c, u)), add(p, mul(d, u)))
        if k == 'parallel':
            w = rvec(rng, n, 2)
            o = (add(o[0], w), add(o[1], w))
        return k, s, o
    v = rvec(rng, n, 3)
    if k in ('cross', 'near'):
        # cross in an interior lattice point p
        s = (add(p, mul(-rng.randint(1, 3), u)), add(p, mul(rng.randint(1, 3), u)))
        o = (add(p, mul(-rng.randint(1, 3), v)), add(p, mul(rng.randint(1, 3), v)))
    elif k == 'touch':
        s = (add(p, mul(-rng.randint(1, 3), u)), add(p, mul(rng.randint(1, 3), u)))
        o = (p, add(p, mul(rng.randint(1, 3), v)))
    elif k == 'touchend':
        s = (p, add(p, mul(rng.randint(1, 3), u)))
        o = (p, add(p, mul(rng.randint(1, 3), v)))
    elif k == 'shared':
        o = (s[rng.randrange(2)], add(p, mul(c or 1, v)))
    else:                            # coplanar
        o = (add(p, add(mul(a, u), mul(c, v))), add(p, add(mul(b, v), mul(d, u))))
    if k == 'near':
        o = (nudge(rng, o[0]), o[1])
    if rng.random() < 0.5:
        s = s[::-1]
    if rng.random() < 0.5:
        o = o[::-1]
    if rng.random() < 0.5:
        s, o = o, s
    return k, s, o


class Frame:
    """Exact similarity lattice -> float64: common power-of-two scale and integer translation."""

    def __init__(self, rng, n, maxoff=9000, scales=(0, 0, 0, 1, 3, 10, 20, -1, -3, -8)):
        self.k = rng.choice(scales)
        self.scale = 2.0 ** self.k
        r = rng.random()
        self.off = tuple(0 for _ in range(n)) if r < 0.35 else rpoint(rng, n, 20) if r < 0.6 else tuple(rng.randint(30, 180) for _ in range(n)) if r < 0.72 else rpoint(rng, n, maxoff)
        self.mix = rng.random() < 0.35
        self.rng = random.Random(rng.random())

    def __call__(self, p):
        return tuple(float(x + o) * self.scale for x, o in zip(p, self.off))

    def dtypes(self, points):
        """A data type for every point (lists of float coordinates) in which it is represented exactly."""
        if not self.mix:
            return ['float64'] * len(points)

        def pick(ps):
            v = np.array(ps, dtype=np.float64)
            top = float(np.max(np.abs(v), initial=0))
            ok = ['float64']
            if bool(np.all(v.astype(np.float32) == v)) and top < 4096:
                ok.append('float32')
            if bool(np.all(v == np.round(v))):
                if top < 2 ** 28:
                    ok += ['int64', 'int64']
                if top < 4000:
                    ok.append('int32')
                ok += [d for d in ('int8', 'uint8', 'int16', 'uint16', 'uint32')
                       if np.iinfo(d).min <= np.min(v, initial=0) and top <= min(np.iinfo(d).max, 4000)]
            return self.rng.choice(ok)
        if self.rng.random() < 0.4:
            return [pick(points)] * len(points)
        return [pick([p]) for p in points]

    def points(self, ps):
        """Library points of the lattice points, in data types that hold them exactly."""
        from skcurve import Point
        ps = [self(p) for p in ps]
        return [Point(p, dtype=dt) for p, dt in zip(ps, self.dtypes(ps))]

    def seg(self, s):
        from skcurve import Segment
        return Segment(*self.points(s))

    def pt(self, p):
        return self.points([p])[0]

    def float(self, p):
        """Rational lattice point -> float64 coordinates, rounded once."""
        return np.array([float((F(x) + o) * F(self.scale)) for x, o in zip(p, self.off)])

    def __repr__(self):
        return 'scale 2^%d offset %r' % (self.k, self.off)
