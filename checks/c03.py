"""C03: edit histories against a list-of-tuples model."""
import numpy as np

from skcurve import Curve, Point
from vlib import gen
from vlib.editmodel import History, Model, verify

RULE = ('histories of random edits (slice, index list, mask, concat, reverse, insert, append, delete, drop, unique, '
        'dimension edits, copies, invalid requests) over a pool of curves; every result is compared with a '
        'list-of-tuples model; non-trivial: at least three different edit kinds in the history')
ASSUMPTIONS = ['numpy astype/promote_types define dtype conversion', 'exactly representable coordinates']


def history(case):
    h = History(case, track_t=False)
    for _ in range(case.rng.randint(4, 14)):
        h.step()
    h.finish()
    if len(h.kinds) >= 3:
        case.sig(case.log)
    case.sample([str(e) for e in case.log[:8]])


def single(case):
    """One edit applied to a fresh curve, spread evenly over all kinds of edits."""
    h = History(case, track_t=False)
    ops = sorted(x for x in dir(h) if x.startswith('op_'))
    op = ops[case.index % len(ops)]
    c, m = h.pool[0]
    r = getattr(h, op)(c, m)
    case.ev('edits')
    case.ev('op ' + op[3:])
    if r:
        case.rec(*r[2])
        verify(case, r[0], r[1], r[2], False)
    else:
        case.check(True, '')
    h.finish()
    case.sig(case.log)
    case.sample([str(e) for e in case.log[:8]])


def larger(case):
    """Histories over curves of hundreds of points."""
    h = History(case, track_t=False, maxsize=6)
    n = gen.ndim(case.rng, 2, 4)
    h.pool = [h.fresh(n=n, m=case.rng.randint(100, 380) if case.rng.random() < 0.95 else case.rng.randint(1000, 2500)), h.fresh(n=n, m=case.rng.randint(1, 60))]
    for _ in range(case.rng.randint(3, 8)):
        h.step()
    h.finish()
    case.sig(case.log)
    case.sample([str(e)[:200] for e in case.log[:5]])


def laws(case):
    """Algebraic laws between edits on the same curve."""
    rng = case.rng
    n, m = gen.ndim(rng, 2, 5), gen.size(rng, 1, 14)
    dt = rng.choice(gen.ALL_DTYPES)
    rows = gen.rows(rng, m, n, rng.choice(['range', 'lattice', 'dup', 'walk']), dt)
    c = Curve(gen.array(rows, n, dt))

    def same(a, b, law):
        case.check(a.data.tolist() == b.data.tolist() and a.data.shape == b.data.shape and a.dtype == b.dtype, law, rows, a, b)
    k = rng.randint(0, m)
    same(c[:k] + c[k:], c, 'c[:k] + c[k:] == c')
    same(c.reverse().reverse(), c, 'reverse twice')
    same(c[::-1], c.reverse(), 'c[::-1] == reverse')
    p = Point([3] * n)
    i = rng.randint(0, m)
    same(c.insert(i, p).delete(i), c, 'insert then delete')
    same(c.insert(m, p), c.append(p), 'append == insert at the end')
    j = rng.randrange(m)
    same(c.delete(j), c[:j] + c[j + 1:], 'delete == concatenation of the rest')
    same(c.insert(i, c), c[:i] + c + c[i:], 'insert a curve == concatenation')
    same(c.unique().unique(), c.unique(), 'unique twice')
    ax = rng.randint(0, n)
    same(c.insertdim(ax, range(m)).deletedim(ax), c, 'insertdim then deletedim')
    same(c.appenddim(range(m)), c.insertdim(n, range(m)), 'appenddim == insertdim at the end')
    idx = [rng.randrange(m) for _ in range(rng.randint(1, m))]
    mask = [x in idx for x in range(m)]
    same(c[mask], c[sorted(set(idx))], 'mask == sorted index list')
    same(c.drop(lambda d: np.array(mask)), c.delete(sorted(set(idx))), 'drop == delete')
    pts = [c[q] for q in range(m)]
    case.check([p.data.tolist() for p in pts] == [[float(x) for x in r] for r in c.data.tolist()], 'points are the rows')
    case.sig(rows[:4], m, n, dt, i, j, k)
    case.sample({'m': m, 'n': n, 'dtype': dt})


FAMILIES = [
    ('history', 6000, 110000, history),
    ('single', 6000, 80000, single),
    ('larger', 250, 3000, larger),
    ('laws', 1500, 20000, laws),
]
