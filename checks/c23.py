"""C23: plots, observed through the matplotlib artists they create."""
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.collections import LineCollection
from matplotlib.colors import to_rgba
from matplotlib.quiver import Quiver
from mpl_toolkits.mplot3d import Axes3D
from mpl_toolkits.mplot3d.art3d import Line3DCollection

from skcurve import Curve
from skcurve.plot import CurvePlot, curveplot
from vlib import gen

RULE = ('random 2- and 3-dimensional curves (2..14 points, all dtypes, parametric or not) plotted alone, on given axes and in chains of '
        'up to 5, as lines, as multicolour lines of a parameter (with and without markers, colour maps, keywords) and with normals; '
        'the artists on the axes are compared with the curves; non-trivial: chains, or curves of at least three points')
ASSUMPTIONS = ['artists as matplotlib 3.5 exposes them; colours compared after mapping']

PARAMS = ['t', 'curvature', 'speed', 'cumarclen', 'torsion', 'chordlen']
CMAPS = ['plasma', 'viridis', 'jet', 'gray']


def make(case, n=None, lo=2, regular=False):
    rng = case.rng
    n = n or rng.choice([2, 2, 3])
    m = rng.randint(lo, 14) if rng.random() > 0.004 else rng.randint(100, 1000)
    dt = 'float64' if regular else rng.choice(['float64', 'float64', 'float32', 'int32', 'int64', 'uint8'])
    rows = [list(r) for r in gen.rows(rng, m, n, rng.choice(['walk', 'lattice', 'range', 'closed']), dt)]
    for i in range(1, m):
        while rows[i] == rows[i - 1]:
            rows[i] = [x + rng.choice([1, 2]) for x in rows[i]]
    t = sorted(gen.tdata(rng, m, 'nonuni')) if rng.random() < 0.4 else None
    return gen.curve(rng, gen.array(rows, n, dt, rng), t)


def is3d(ax):
    return isinstance(ax, Axes3D)


def line_data(line, three):
    return [np.asarray(x, dtype=np.float64).tolist() for x in (line.get_data_3d() if three else line.get_data())]


def columns(c, three):
    cols = [c.data[:, j].astype(np.float64).tolist() for j in range(c.ndim)]
    if three and c.ndim == 2:
        cols.append([0.0] * len(c))
    return cols


def segments_of(coll):
    if isinstance(coll, Line3DCollection):
        return np.asarray(coll._segments3d, dtype=np.float64)
    return np.asarray(coll.get_segments(), dtype=np.float64)


def mapped(values, cmap):
    v = np.asarray(values, dtype=np.float64)
    lo, hi = v.min(), v.max()
    u = np.zeros_like(v) if lo == hi else (v - lo) / (hi - lo)
    return plt.get_cmap(cmap)(u)


def check_line(case, line, c, three, how):
    case.check(line_data(line, three) == columns(c, three), 'one line with exactly the coordinates of the curve', how, line_data(line, three), columns(c, three))


def check_multi(case, coll, c, param, cmap, how):
    s = segments_of(coll)
    d = c.data.astype(np.float64)
    case.check(isinstance(coll, Line3DCollection if c.ndim == 3 else LineCollection), 'a collection of the dimension of the curve', how, coll)
    case.check(s.shape == (len(c) - 1, 2, c.ndim), 'one segment per chord', how, s.shape)
    case.check(np.array_equal(s[:, 0], d[:-1]) and np.array_equal(s[:, 1], d[1:]), 'the segments are the chords in order', how, s.tolist(), d.tolist())
    v = np.asarray(getattr(c, param), dtype=np.float64)
    a = np.asarray(coll.get_array(), dtype=np.float64)
    case.check(len(a) >= len(s) and gen.close(a[:len(s)], v[:len(s)], 0, 0), 'the segments carry the values of the parameter', how, param, a.tolist(), v.tolist())
    # matplotlib widens the range of (almost) constant values for its colour bar
    const = v.max() - v.min() <= 1e-6 * max(abs(v.max()), abs(v.min()))
    lo, hi = coll.norm.vmin, coll.norm.vmax
    case.check(lo <= v.min() and hi >= v.max() if const else lo == v.min() and hi == v.max(), 'the colours span the range of the parameter', how, coll.norm.vmin, coll.norm.vmax, v.min(), v.max())
    case.check(coll.get_cmap().name == cmap, 'the colour map', how, coll.get_cmap().name, cmap)
    case.ev('multicolour segments', len(s))


def visible(case, ax, c, how):
    lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if is3d(ax) else [])
    d = c.data.astype(np.float64)
    for j, (lo, hi) in enumerate(lims[:c.ndim]):
        lo, hi = min(lo, hi), max(lo, hi)
        case.check(lo <= d[:, j].min() and d[:, j].max() <= hi, 'the whole curve lies within the axes', how, j, lo, hi, d[:, j].tolist())


def untouched(case, c, before, how):
    case.check(c.data.dtype == before.dtype and np.array_equal(c.data, before) and not c.data.flags.writeable, 'plotting leaves the curve alone', how)


def new_axes(rng, three):
    fig = plt.figure()
    return fig.add_subplot(1, 1, 1, projection='3d') if three else fig.add_subplot(1, 1, 1)


def single(case):
    """One curve as a line, with and without axes, positional and keyword arguments."""
    rng = case.rng
    plt.close('all')
    c = make(case, lo=1)
    before = c.data.copy()
    three = c.ndim == 3
    how = (c, )
    args, kw, want = [], {}, {}
    if rng.random() < 0.4:
        fmt = rng.choice(['r-', 'bo--', 'g:'])
        args = [fmt]
        want = {'color': fmt[0], 'linestyle': {'r-': '-', 'bo--': '--', 'g:': ':'}[fmt], 'marker': 'o' if 'o' in fmt else 'None'}
    elif rng.random() < 0.7:
        kw = rng.choice([{'color': 'magenta'}, {'linewidth': 3.5}, {'label': 'curve', 'linestyle': '--'}, {'marker': 'o', 'color': 'red'}, {'alpha': 0.5}])
        want = dict(kw)
    ax = None
    if rng.random() < 0.5:
        ax = new_axes(rng, three or rng.random() < 0.15)
    figs = len(plt.get_fignums())
    if ax is not None:
        # something else on the axes stays there
        other = ax.plot([0, 1], [5, 6], **({} if not is3d(ax) else {'zs': [1, 2]}))[0]
        keep = line_data(other, is3d(ax))
        p = curveplot(c, *args, axes=ax, **kw)
        case.check(p.axes is ax, 'the given axes are used', how)
        case.check(len(plt.get_fignums()) == figs, 'no new figure for given axes', how)
        case.check(other in list(ax.lines) and line_data(other, is3d(ax)) == keep, 'other lines stay', how)
        lines = [x for x in ax.lines if x is not other]
    else:
        p = (CurvePlot if rng.random() < 0.5 else curveplot)(c, *args, **kw)
        case.check(len(plt.get_fignums()) == figs + 1, 'a new figure when no axes are given', how)
        case.check(is3d(p.axes) == three, 'axes of the dimension of the curve', how, type(p.axes))
        lines = list(p.axes.lines)
        visible(case, p.axes, c, how)
    case.check(len(lines) == 1 and not list(p.axes.collections), 'exactly one line', how, lines)
    line = lines[0]
    check_line(case, line, c, is3d(p.axes), how)
    for k, v in want.items():
        g = getattr(line, 'get_' + k)()
        case.check(g == v or (k == 'color' and to_rgba(g) == to_rgba(v)), 'keywords are passed on', how, k, g, v)
    untouched(case, c, before, how)
    case.sig(c.data.tolist(), args, sorted(kw), ax is None)
    case.ev('lines')
    case.sample({'rows': c.data.tolist(), 'args': args, 'kw': kw})
    plt.close('all')


def param(case):
    """One curve coloured by a parameter."""
    rng = case.rng
    plt.close('all')
    c = make(case, lo=3, regular=True)
    before = c.data.copy()
    # singular points (zero speed or acceleration) have no curvature or torsion
    par = rng.choice([q for q in PARAMS if np.all(np.isfinite(getattr(c, q)))])
    cmap = rng.choice(CMAPS)
    kw = {} if cmap == 'plasma' else {'param_cmap': cmap}
    marker = None
    if par != 'chordlen' and rng.random() < 0.35:
        marker = kw['marker'] = rng.choice(['o', 's', '^'])
    elif rng.random() < 0.4:
        kw['linewidth'] = 2.5
    ax = new_axes(rng, c.ndim == 3) if rng.random() < 0.4 else None
    how = (par, kw, c)
    p = curveplot(c, param=par, axes=ax, **kw) if ax is not None else curveplot(c, param=par, **kw)
    case.check(ax is None or p.axes is ax, 'the given axes are used', how)
    case.check(is3d(p.axes) == (c.ndim == 3), 'axes of the dimension of the curve', how)
    case.check(not list(p.axes.lines), 'no plain line besides', how)
    colls = list(p.axes.collections)
    case.check(len(colls) == (2 if marker else 1), 'one collection (and the markers)', how, colls)
    check_multi(case, colls[0], c, par, cmap, how)
    if 'linewidth' in kw:
        case.check([float(x) for x in colls[0].get_linewidth()] == [2.5], 'keywords are passed on', how)
    if marker:
        if c.ndim == 2:
            case.check(np.array_equal(np.asarray(colls[1].get_offsets(), dtype=float), c.data), 'markers at the points', how)
            mv = np.asarray(getattr(c, par), dtype=float)
            if np.ptp(mv) > 1e-6 * np.max(np.abs(mv)):
                case.check(gen.close(colls[1].get_facecolors(), mapped(mv, cmap), 0, 1e-2), 'markers in the colours of the parameter', how)
        else:
            o = colls[1]._offsets3d
            case.check(np.array_equal(np.stack([np.asarray(x, dtype=float) for x in o], axis=1), c.data), 'markers at the points', how)
    visible(case, p.axes, c, how)
    bars = [a for a in p.axes.figure.axes if a is not p.axes]
    case.check(len(bars) == 1 and bars[0].get_ylabel() == par, 'a colour bar with the name of the parameter', how, [a.get_ylabel() for a in bars])
    v = np.asarray(getattr(c, par), dtype=float)
    if v.max() - v.min() > 1e-3:
        lo, hi = bars[0].get_ylim()
        case.check(abs(lo - v.min()) < 1e-9 * (1 + abs(v).max()) and abs(hi - v.max()) < 1e-9 * (1 + abs(v).max()), 'the colour bar spans the values', how, lo, hi, v.min(), v.max())
    untouched(case, c, before, how)
    case.sig(c.data.tolist(), par, cmap)
    case.ev('param:' + par)
    if rng.random() < 0.05:
        p.axes.figure.canvas.draw()
        check_multi(case, colls[0], c, par, cmap, how) if c.ndim == 2 else None
        case.ev('rendered')
    plt.close('all')


def normals(case):
    rng = case.rng
    plt.close('all')
    c = make(case, 2, lo=3, regular=True)
    how = (c,)
    f = np.array(c.frenet2)
    kw = {'param': 'speed'} if rng.random() < 0.3 else {}
    p = curveplot(c, show_normals=True, **kw)
    qs = [q for q in p.axes.collections if isinstance(q, Quiver)]
    case.check(len(qs) == 1, 'one set of normals', how, list(p.axes.collections))
    q = qs[0]
    case.check(np.array_equal(np.asarray(q.XY, dtype=float), c.data), 'normals at the points of the curve', how, q.XY)
    uv = np.stack([np.ma.filled(q.U, np.nan), np.ma.filled(q.V, np.nan)], axis=1)
    case.check(gen.close(uv, f, 0, 0), 'the unit normals', how, uv.tolist(), f.tolist())
    if not kw:
        check_line(case, p.axes.lines[0], c, False, how)
        p2 = curveplot(c)
        case.check(not list(p2.axes.collections), 'no normals unless asked', how)
        p3 = curveplot(c, show_normals=False, axes=p2.axes)
        case.check(not list(p3.axes.collections), 'no normals unless asked', how)
    case.sig(c.data.tolist())
    case.ev('normals', len(c))
    plt.close('all')


def chain(case):
    """Chained curves on the same axes in call order."""
    rng = case.rng
    plt.close('all')
    n = rng.choice([2, 2, 3])
    k = rng.randint(2, 5)
    cs = [make(case, n, 3, True) for _ in range(k)]
    if rng.random() < 0.4:
        cs[-1] = cs[0]
    ps = [rng.choice([None, None, None, 'speed', 't']) for _ in cs]
    cmaps = [rng.choice(CMAPS) if q and rng.random() < 0.5 else None for q in ps]
    extras = [{} if rng.random() < 0.5 else rng.choice([{'linewidth': 1.0 + i}, {'alpha': 0.25 + 0.1 * i}, {'linestyle': ':'}, {'linewidth': 6.5, 'alpha': 0.75}])
              for i in range(k)]
    marks = [None if ps[i] or rng.random() < 0.7 else rng.choice(['o', 's', 'x']) for i in range(k)]
    fmts = [None if ps[i] or marks[i] or 'linestyle' in extras[i] or rng.random() < 0.7 else rng.choice(['r--', 'g:', 'b-.']) for i in range(k)]

    def opts(i):
        return dict(extras[i], **({'marker': marks[i]} if marks[i] else {}))
    pos = lambda i: [fmts[i]] if fmts[i] else []
    p = first = curveplot(cs[0], *pos(0), param=ps[0], **opts(0), **({'param_cmap': cmaps[0]} if cmaps[0] else {}))
    how = ([c.data.tolist() for c in cs], ps)
    colors = ['red', 'green', 'blue', 'black', 'magenta']
    want = [None]
    normals_of = []
    for i in range(1, k):
        kw = opts(i)
        if ps[i] is None and not fmts[i] and rng.random() < 0.5:
            kw['color'] = colors[i]
        want.append(kw.get('color'))
        if n == 3 and ps[i] is None and rng.random() < 0.1:
            # a plane curve on the same axes
            cs[i] = make(case, 2, 3, True)
        if cmaps[i]:
            kw['param_cmap'] = cmaps[i]
        if n == 2 and rng.random() < 0.2:
            kw['show_normals'] = True
            normals_of.append(i)
        p = p.curveplot(cs[i], *pos(i), param=ps[i], **kw) if ps[i] or rng.random() < 0.3 else p.curveplot(cs[i], *pos(i), **kw)
        case.check(isinstance(p, CurvePlot) and p.axes is first.axes, 'chained plots share the axes', how)
    case.check(len(plt.get_fignums()) == 1, 'one figure', how)
    three = is3d(p.axes)
    lines = list(p.axes.lines)
    plain = [i for i in range(k) if ps[i] is None]
    case.check(len(lines) == len(plain), 'one line per plain curve', how, lines)
    for line, i in zip(lines, plain):
        check_line(case, line, cs[i], three, how)
        if want[i]:
            case.check(to_rgba(line.get_color()) == to_rgba(want[i]), 'keywords of each call', how)
        fmt, e = fmts[i], extras[i]
        case.check(line.get_linewidth() == e.get('linewidth', matplotlib.rcParams['lines.linewidth']), 'the line width of each call', how, i, extras, line.get_linewidth())
        case.check(line.get_alpha() == e.get('alpha'), 'alpha of each call', how, i, extras, line.get_alpha())
        case.check(line.get_linestyle() == (fmt[1:] if fmt else e.get('linestyle', '-')), 'the line style of each call', how, i, extras, fmts, line.get_linestyle())
        case.check(line.get_marker() == (marks[i] or 'None'), 'the marker of each call', how, i, marks, line.get_marker())
        if fmt:
            case.check(to_rgba(line.get_color()) == to_rgba(fmt[0]), 'the format of each call', how, i, fmts)
    quivers = [x for x in p.axes.collections if isinstance(x, Quiver)]
    case.check(len(quivers) == len(normals_of), 'normals of the curves for which they were asked', how, quivers)
    for q, i in zip(quivers, normals_of):
        case.check(np.array_equal(np.asarray(q.XY, dtype=float), cs[i].data), 'normals at the points of their curve', how)
    colls = [x for x in p.axes.collections if not isinstance(x, Quiver)]
    multi = [i for i in range(k) if ps[i]]
    case.check(len(colls) == len(multi), 'one collection per multicolour curve', how, colls)
    for coll, i in zip(colls, multi):
        check_multi(case, coll, cs[i], ps[i], cmaps[i] or 'plasma', how)
        lw, e = [float(x) for x in coll.get_linewidth()], extras[i]
        case.check(lw == [e.get('linewidth', matplotlib.rcParams['lines.linewidth'])], 'the line width of each multicolour call', how, i, extras, lw)
        case.check(coll.get_alpha() == e.get('alpha'), 'alpha of each multicolour call', how, i, extras, coll.get_alpha())
    case.sig(how)
    case.ev('chained curves', k)
    plt.close('all')


def errors(case):
    rng = case.rng
    plt.close('all')
    n = rng.choice([4, 5, 6])
    hi = Curve(np.array(gen.rows(rng, rng.randint(2, 6), n, 'range', 'float64')))
    c2, c3 = make(case, 2, 3, True), make(case, 3, 3, True)
    ax2, ax3 = new_axes(rng, False), new_axes(rng, True)
    figs = plt.get_fignums()
    for fn in (lambda: curveplot(hi), lambda: curveplot(hi, axes=ax2), lambda: curveplot(hi, axes=ax3), lambda: curveplot(hi, param='t'), lambda: curveplot(hi, show_normals=True)):
        case.raises(ValueError, fn, 'more than three dimensions', hi)
    for fn in (lambda: curveplot(c3, axes=ax2), lambda: curveplot(c3, axes=ax2, param='t'), lambda: curveplot(c3, 'r-', axes=ax2)):
        case.raises(TypeError, fn, 'a 3-dimensional curve on plane axes', c3)
    case.check(plt.get_fignums() == figs and not ax2.lines and not ax3.lines and not ax2.collections and not ax3.collections, 'rejected curves draw nothing', figs)
    p = curveplot(c2, axes=ax2)
    case.raises(TypeError, lambda: p.curveplot(c3), 'a 3-dimensional curve in a chain of plane curves', c3)
    case.raises(ValueError, lambda: p.curveplot(hi), 'more than three dimensions in a chain', hi)
    p = p.curveplot(c2.reverse())
    case.check([line_data(x, False) for x in ax2.lines] == [columns(c2, False), columns(c2.reverse(), False)], 'the chain goes on', c2)
    case.sig(hi.data.tolist(), c2.data.tolist())
    plt.close('all')


FAMILIES = [
    ('single', 700, 12000, single),
    ('param', 400, 6000, param),
    ('normals', 150, 2500, normals),
    ('chain', 250, 4500, chain),
    ('errors', 80, 1200, errors),
]
