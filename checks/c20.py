"""C20: the registries of methods, against a model of registration histories."""
import inspect
import warnings

import numpy as np

import skcurve as sk
from skcurve import Curve, InterpolationError, InterpolatorBase, IntersectionType, Point, SmoothingError

RULE = ('random histories of registrations (new, taken, wrong kind, default or not), default changes (also to unknown names), lookups and '
        'uses of built-in and own methods over the three registries, all registries compared with a list model after every step; '
        'non-trivial: at least one own method registered and used')
ASSUMPTIONS = ['registries only grow: names are unique per case, and the model of a worker process continues from case to case']

BUILTIN = {'interp': ['linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps'], 'smooth': ['savgol', 'window'], 'intersect': ['exact', 'almost']}
LIST = {'interp': sk.interp_methods, 'smooth': sk.smooth_methods, 'intersect': sk.intersect_methods}
REGISTER = {'interp': sk.register_interpolator, 'smooth': sk.register_smooth_method, 'intersect': sk.register_intersect_method}
IMPORTED = {k: list(f()) for k, f in LIST.items()}
IMPORTED_DEFAULT = sk.default_intersect_method()

EXACT_CLS = type(sk.get_intersect_method('exact'))
BASE = [c for c in EXACT_CLS.__mro__ if inspect.isabstract(c)][-1]

# name -> registered object, in registration order
MODEL = {k: {n: None for n in IMPORTED[k]} for k in LIST}


def Segment(a, b):
    return sk.Segment(Point(a), Point(b))


class Boom(Exception):
    pass


def make_interp(tag):
    class I(InterpolatorBase):
        def __init__(self, curve, *, shift=0.0, fail=None):
            super().__init__(curve)
            self.shift, self.fail = shift, fail
            if fail == 'init':
                raise Boom('init')

        def _interpolate(self, grid):
            if self.fail == 'call':
                raise Boom('call')
            return np.stack([grid + j * tag + self.shift for j in range(self.curve.ndim)], axis=1)
    return I


def make_smooth(tag):
    def smooth(curve, *, shift=0.0, fail=None):
        if fail is not None:
            raise fail('smooth')
        return curve.data + tag + shift
    return smooth


class SmoothObject:
    """A smoothing method may be any callable."""
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, curve, shift=0.0, fail=None):
        if fail is not None:
            raise fail('smooth')
        return curve.data + self.tag + shift


def make_intersect(tag):
    class M(BASE):
        def __init__(self, shift=0.0, fail=None):
            self.shift, self.fail = shift, fail
            self.calls = 0

        def _intersect_segments(self, segment1, segment2):
            self.calls += 1
            if self.fail:
                raise self.fail('segments')
            return IntersectionType.EXACT(Point([tag + self.shift] * segment1.ndim))

        def _intersect_curves(self, curve1, curve2):
            self.calls += 1
            if self.fail:
                raise self.fail('curves')
            return [sk.SegmentsIntersection(curve1.segments[0], curve2.segments[0], self._intersect_segments(curve1.segments[0], curve2.segments[0]))]
    return M


def state(case, default, step):
    for k in LIST:
        case.check(LIST[k]() == list(MODEL[k]), 'the list of methods in registration order', k, LIST[k](), list(MODEL[k]), step)
    case.check(sk.default_intersect_method() == default, 'the default method is the one last set', sk.default_intersect_method(), default, step)
    case.ev('states compared')


def curve(rng):
    n = rng.choice([2, 3, 4])
    m = rng.randint(6, 9)
    return Curve([[float(i * (j + 1) + rng.randint(0, 2) / 4) for i in range(m)] for j in range(n)])


def segs(rng):
    """Two crossing segments of a plane."""
    x = rng.randint(-5, 5)
    return Segment([x, 0], [x + 2, 2]), Segment([x, 2], [x + 2, 0]), [x + 1.0, 1.0]


def use(case, kind, name, tag, rng):
    """The named own method is what runs."""
    c = curve(rng)
    sh = rng.choice([0.0, 0.5])
    kw = {'shift': sh} if sh or rng.random() < 0.3 else {}
    if kind == 'interp':
        g = [0.5, 1.0, 2.5]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = c.interpolate(g, name, **kw)
            ip = sk.get_interpolator(name, c, **kw)
            case.check(type(ip) is MODEL[kind][name], 'the registered class is created', name)
            for q in (r, ip(g)):
                case.check(q.data.tolist() == [[x + j * tag + sh for j in range(c.ndim)] for x in g], 'the registered interpolator is used', name, q)
        case.raises(InterpolationError, lambda: c.interpolate(g, name, fail='init'), 'failure in the interpolator constructor', name)
        case.raises(InterpolationError, lambda: c.interpolate(g, name, fail='call'), 'failure in the interpolator', name)
        case.raises(InterpolationError, lambda: c.interpolate(g, name, nope=1), 'unknown option', name)
    elif kind == 'smooth':
        case.check(sk.get_smooth_method(name) is MODEL[kind][name], 'the registered callable is returned', name)
        r = c.smooth(name, **kw)
        case.check(r.data.tolist() == (c.data + tag + sh).tolist(), 'the registered smoothing is used', name, r)
        for exc in (Boom, KeyError, ZeroDivisionError, RuntimeError):
            case.raises(SmoothingError, lambda: c.smooth(name, fail=exc), 'failure in the smoothing method', name, exc)
        for exc in (ValueError, TypeError):
            case.raises(exc, lambda: c.smooth(name, fail=exc), 'invalid value or type in the smoothing method', name, exc)
    else:
        use_intersect(case, name, tag, sh, kw, rng)


def failing(case, fn, message, *w):
    try:
        r = fn()
    except Exception as e:
        case.check(type(e).__name__ == 'IntersectionError', message, type(e), e, *w)
        return
    case.fail(message + ': no error', r, *w)


def use_intersect(case, name, tag, sh, kw, rng):
    s1, s2, _ = segs(rng)
    want = [tag + sh] * 2
    m = sk.get_intersect_method(name, **kw)
    case.check(type(m) is MODEL['intersect'][name], 'the registered class is created', name)
    c1, c2 = s1.to_curve(), s2.to_curve()
    for r in (s1.intersect(s2, method=name, **kw), m(s1, s2), s1.intersect(s2, method=m), s1.intersect(s2, m)):
        case.check(r.intersect_point.data.tolist() == want and r.segment1 is s1 and r.segment2 is s2, 'the registered method is used for segments', name, r)
    for r in (c1.intersect(c2, method=name, **kw), m(c1, c2), c1.intersect(c2, method=m), c1.intersect(s2, method=m), s1.intersect(c2, method=m), c1.intersect(method=m)):
        case.check(len(r) == 1 and r[0].intersect_point.data.tolist() == want, 'the registered method is used for curves', name, r)
    n0 = m.calls
    s1.intersect(s2, method=m)
    case.check(m.calls == n0 + 1, 'a method object is used as is', name)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = s1.intersect(s2, method=m, shift=99)
    case.check(any(x.category.__name__ == 'IntersectionWarning' for x in w) and r.intersect_point.data.tolist() == want, 'parameters are ignored with a warning for a method object', name, r)
    for exc in (Boom, KeyError, ValueError, TypeError):
        f = sk.get_intersect_method(name, fail=exc)
        for fn in (lambda: s1.intersect(s2, method=name, fail=exc), lambda: s1.intersect(s2, method=f), lambda: c1.intersect(c2, method=name, fail=exc),
                   lambda: c1.intersect(method=f), lambda: c1.intersect(s2, method=f), lambda: s1.intersect(c2, method=f)):
            failing(case, fn, 'failure in the intersection method', name, exc)


def use_default(case, default, tags, rng):
    s1, s2, x = segs(rng)
    c1, c2 = s1.to_curve(), s2.to_curve()
    rs = [s1.intersect(s2), s1.intersect(s2, method=None), c1.intersect(c2)[0], c1.intersect(s2)[0], s1.intersect(c2)[0]]
    for r in rs:
        if default in tags:
            case.check(r.intersect_point.data.tolist() == [tags[default]] * 2, 'the default method is used when none is named', default, r)
        else:
            case.check(r.intersect_type is {'exact': IntersectionType.EXACT, 'almost': IntersectionType.ALMOST}[default] and
                       np.allclose(r.intersect_point.data, x), 'the default method is used when none is named', default, r)
    if default == 'almost':
        # its parameters reach the default method
        a, b = Segment([0, 0], [1, 0]), Segment([0, 0.5], [1, 0.5])
        case.check(not a.intersect(b) and bool(a.intersect(b, dist_tol=0.6)), 'parameters reach the default method', default)
    # naming a method is not affected by the default
    case.check(s1.intersect(s2, method='exact').intersect_type is IntersectionType.EXACT, 'a named method is not affected by the default', default)
    case.check(s1.intersect(s2, method='almost').intersect_type is IntersectionType.ALMOST, 'a named method is not affected by the default', default)


def bad_kinds(kind, rng):
    if kind == 'interp':
        return [int, object, dict, Curve, BASE, EXACT_CLS, 5, 'cubic', make_smooth(1), InterpolatorBase(curve(rng))]
    return [int, object, dict, Curve, InterpolatorBase, 5, 'exact', make_smooth(1), sk.get_intersect_method('exact'), None]


def history(case):
    rng = case.rng
    tags = {}
    own = {k: [] for k in LIST}
    uniq = 'm%s_%d_%s_' % (case.eng.seed, case.index, case.eng.tier)
    k_ = 0
    default = 'exact'
    sk.set_default_intersect_method('exact')
    state(case, default, 'start')
    steps = rng.randint(5, 25)
    used = 0
    try:
        for i in range(steps):
            kind = rng.choice(list(LIST))
            op = rng.choice(['new', 'new', 'new', 'taken', 'wrong', 'wrong', 'default', 'default', 'baddefault', 'use', 'use', 'usedefault', 'lookup', 'mutate', 'badlookup', 'builtin'])
            step = (i, op, kind)
            case.rec(*step)
            case.ev('op:' + op)
            dflt = kind == 'intersect' and rng.random() < 0.4
            args = ((), {}) if not dflt else rng.choice([((True,), {}), ((), {'default': True})])
            if kind == 'intersect' and not dflt and rng.random() < 0.3:
                args = ((), {'default': False})
            if op == 'new':
                k_ += 1
                name = rng.choice(['', 'Exact', 'linear ', 'ünï ', 'WINDOW']) + uniq + str(k_)
                tag = float(10 + len(tags))
                obj = make_interp(tag) if kind == 'interp' else make_intersect(tag) if kind == 'intersect' else rng.choice([make_smooth, SmoothObject])(tag)
                if rng.random() < 0.3 and not args[0] and not args[1]:
                    got = REGISTER[kind](method=name)(obj)
                else:
                    got = REGISTER[kind](name, *args[0], **args[1])(obj)
                case.check(got is obj, 'the decorator leaves the decorated object usable', step, got)
                tags[name] = tag
                own[kind].append(name)
                MODEL[kind][name] = obj
                if dflt:
                    default = name
            elif op == 'taken':
                name = rng.choice(list(MODEL[kind]))
                obj = make_interp(1.0) if kind == 'interp' else make_intersect(1.0) if kind == 'intersect' else make_smooth(1.0)
                case.raises(ValueError, lambda: REGISTER[kind](name, *args[0], **args[1])(obj), 'registering a taken name', step, name)
                if MODEL[kind][name] is not None:
                    case.raises(ValueError, lambda: REGISTER[kind](name)(MODEL[kind][name]), 'registering the same object again', step, name)
            elif op == 'wrong':
                if kind == 'smooth':
                    continue
                obj = rng.choice(bad_kinds(kind, rng))
                case.raises(TypeError, lambda: REGISTER[kind](uniq + 'wrong', *args[0], **args[1])(obj), 'registering an object of the wrong kind', step, obj)
            elif op == 'default':
                default = rng.choice(list(MODEL['intersect'])[:2] + own['intersect'])
                sk.set_default_intersect_method(default)
            elif op == 'baddefault':
                for bad in ('nope', uniq + 'wrong', '', None, 'linear', 'EXACT'):
                    case.raises(NameError, lambda: sk.set_default_intersect_method(bad), 'unknown default', step, bad)
            elif op == 'use':
                if own[kind]:
                    name = rng.choice(own[kind])
                    use(case, kind, name, tags[name], rng)
                    used += 1
            elif op == 'usedefault':
                use_default(case, default, tags, rng)
            elif op == 'lookup':
                lookup(case, kind, rng)
            elif op == 'mutate':
                for f in LIST.values():
                    v = f()
                    if isinstance(v, list):
                        v.append('nope')
                        v[0] = 'changed'
            elif op == 'badlookup':
                c = curve(rng)
                s1, s2, _ = segs(rng)
                for bad in ('nope', uniq + 'wrong', '', 'LINEAR'):
                    case.raises(NameError, lambda: sk.get_interpolator(bad, c), 'unlisted name', bad)
                    case.raises(NameError, lambda: c.interpolate(5, bad), 'unlisted name', bad)
                    case.raises(NameError, lambda: sk.get_smooth_method(bad), 'unlisted name', bad)
                    case.raises(NameError, lambda: c.smooth(bad), 'unlisted name', bad)
                    case.raises(NameError, lambda: sk.get_intersect_method(bad), 'unlisted name', bad)
                    case.raises(NameError, lambda: s1.intersect(s2, method=bad), 'unlisted name', bad)
                    case.raises(NameError, lambda: c.intersect(method=bad), 'unlisted name', bad)
                # names of the other registries are unlisted here
                other = rng.choice([n for n in own['smooth'] + own['interp']] + ['linear', 'savgol'])
                case.raises(NameError, lambda: sk.get_intersect_method(other), 'name of another registry', other)
                other = rng.choice([n for n in own['intersect'] + own['interp']] + ['linear', 'exact'])
                case.raises(NameError, lambda: sk.get_smooth_method(other), 'name of another registry', other)
                for bad in (5, 2.5, object(), EXACT_CLS, ['exact']):
                    case.raises(ValueError, lambda: s1.intersect(s2, method=bad), 'not a method', bad)
            else:
                use_builtin(case, rng)
            state(case, default, step)
            for name in own['smooth'][-2:]:
                case.check(sk.get_smooth_method(name) is MODEL['smooth'][name], 'names keep what was registered', step, name)
            for name in own['intersect'][-2:]:
                case.check(type(sk.get_intersect_method(name)) is MODEL['intersect'][name], 'names keep what was registered', step, name)
    finally:
        sk.set_default_intersect_method('exact')
    if used:
        case.sig(case.index, tuple(tags), used)
        case.ev('own methods used', used)
    case.sample([list(x) for x in case.log])


def lookup(case, kind, rng):
    c = curve(rng)
    for name in LIST[kind]()[:12]:
        if kind == 'interp':
            ip = sk.get_interpolator(name, c)
            case.check(isinstance(ip, InterpolatorBase) and ip.curve is c, 'every listed interpolator resolves', name)
        elif kind == 'smooth':
            case.check(callable(sk.get_smooth_method(name)), 'every listed smoothing method resolves', name)
        else:
            case.check(isinstance(sk.get_intersect_method(name), BASE), 'every listed intersection method resolves', name)


def use_builtin(case, rng):
    """Built-in names still mean the built-in methods."""
    c = Curve([[0.0, 1.0, 2.0, 3.0, 4.0, 5.0], [0.0, 1.0, 4.0, 9.0, 16.0, 25.0]], tdata=[0.0, 1.0, 2.0, 3.0, 4.0, 5.0])
    case.check(np.allclose(c.interpolate([0.0, 0.5, 5.0], 'linear').data, [[0, 0], [0.5, 0.5], [5, 25]]), 'linear is linear')
    case.check(np.allclose(c.interpolate([0.0, 2.5, 5.0], 'cubic', bc_type='not-a-knot').data[1], [2.5, 6.25]), 'cubic is cubic')
    case.check(np.allclose(c.interpolate([0.0, 2.5, 5.0], 'spline').data[1], [2.5, 6.25]), 'spline is spline')
    case.check(np.allclose(c.smooth('window', window_size=3, window_type='boxcar').data[2], [2, 14 / 3]), 'window is the moving average')
    case.check(np.allclose(c.smooth('savgol', window_length=3, polyorder=2).data, c.data), 'savgol is Savitzky-Golay')
    s = Segment([0, 0], [1, 0]), Segment([0, 0.5], [1, 0.5])
    case.check(not s[0].intersect(s[1], method='exact') and bool(s[0].intersect(s[1], method='almost', dist_tol=1)), 'exact and almost')


def initial(case):
    """What a fresh process offers."""
    for k in LIST:
        case.check(IMPORTED[k] == BUILTIN[k], 'the built-in methods', k, IMPORTED[k])
    case.check(IMPORTED_DEFAULT == 'exact', "the default is initially 'exact'", IMPORTED_DEFAULT)
    for name, want in (('linear', 'LinearInterpolator'), ('cubic', 'CubicSplineInterpolator'), ('hermite', 'CubicHermiteSplineInterpolator'), ('akima', 'AkimaInterpolator'),
                       ('pchip', 'PchipInterpolator'), ('spline', 'SplineInterpolator'), ('csaps', 'CsapsInterpolator')):
        case.check(isinstance(sk.get_interpolator(name, curve(case.rng)), InterpolatorBase), 'resolves', name)
    use_builtin(case, case.rng)
    lookup(case, 'smooth', case.rng)
    lookup(case, 'intersect', case.rng)
    case.sig(case.index)


FAMILIES = [
    ('initial', 8, 8, initial),
    ('history', 1500, 10000, history),
]
