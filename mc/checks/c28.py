"""C28 - where the axes begin and how they are scaled does not matter."""
import itertools
import json
from curvepy import Constant, Curve, Line, Points
from curvepy.extremas import Extremas
from curvepy.piecewise import Piecewise
from intervalpy import Interval
from mc.ref import is_regular, LIN, PREV, NEXT
from mc.checks.c27 import NO_POINTS, SCANS

PROPERTY = 'C28'
BOUNDS = {
    'quick': '46 derived curves of one and 17 of two curves, over 8 curves of points (uniform and not), in 12 frames of positions (moved so that each point '
             'comes to lie at 0, and between, far, scaled up and down) and 8 of values (moved, scaled, mirrored): domain, ends, values, neighbours, slopes, '
             'samples and ranges; the same with what is announced through 7 edits of the points; every derived curve of a derived curve moved by 3 distances',
    'thorough': 'every pair of a frame of positions and a frame of values, stacks moved by all distances',
}
ASSUMPTIONS = ['frames are powers of two and sums of few of them, so that they are exact', 'results outside the domain of derived curves by x_next and x_previous are not compared']


class Frame:
    """x -> o + s x, y -> b + m y"""

    def __init__(self, o=0, s=1, b=0, m=1):
        self.o, self.s, self.b, self.m = o, s, b, m

    def x(self, x):
        return self.o + self.s * x

    def w(self, w):
        return self.s * w

    def y(self, y):
        return None if y is None else self.b + self.m * y

    def d(self, y):
        return self.m * y

    def line(self, const, slope):
        return Line(p1=(self.o, self.y(const)), slope=self.m * slope / self.s)

    def max(self, curves, **kw):
        return (Curve.max if self.m > 0 else Curve.min)(curves, **kw)

    def min(self, curves, **kw):
        return (Curve.min if self.m > 0 else Curve.max)(curves, **kw)

    def iv(self, a, b):
        return Interval(self.x(a), self.x(b))

    def back(self, x):
        return None if x is None else (x - self.o) / self.s


def val(F, y):
    return F.b + F.m * y


def diff(F, y):
    return F.m * y


def twice(F, y):
    return F.m * y + 2 * F.b


def area(F, y):
    return F.m * F.s * y


def slope(F, y):
    return F.m * y / F.s


def slope2(F, y):
    return F.m * y / F.s / F.s


def square(F, y):
    return F.m * F.m * y


def same(F, y):
    return y


def plain_add(x, ys):
    return sum(y for y in ys if y is not None)


# name: (builder, how values change, whether values may be moved)
U = {
    'id': (lambda F, c, u: c, val, True),
    'neg': (lambda F, c, u: -c, lambda F, y: F.m * y - F.b, True),
    'abs': (lambda F, c, u: abs(c), lambda F, y: abs(F.m) * y, False),
    'add': (lambda F, c, u: c + F.d(2), val, True),
    'rsub': (lambda F, c, u: F.y(3) - c, diff, True),
    'mul': (lambda F, c, u: c * 2, twice, True),
    'div': (lambda F, c, u: c / 4, lambda F, y: F.m * y + F.b / 4, True),
    'over': (lambda F, c, u: 8 / c, lambda F, y: y / F.m, False),
    'pow': (lambda F, c, u: c ** 2, square, False),
    'line': (lambda F, c, u: c + F.line(1, 2), twice, True),
    'sq': (lambda F, c, u: c * c, square, False),
    'diamond': (lambda F, c, u: c * 2 - c, val, True),
    'max0': (lambda F, c, u: F.max([c, F.y(0)], ignore_empty=False), val, True),
    'min1': (lambda F, c, u: F.min([c, F.y(1)], ignore_empty=True), val, True),
    'first': (lambda F, c, u: Curve.first([c, Constant(F.y(9))]), val, True),
    'map': (lambda F, c, u: c.map(lambda x, y: None if y is None else y + F.m * F.back(x)), val, True),
    'inverse': (lambda F, c, u: (abs(c) + 1 * abs(F.m)).map(lambda y: None if y is None else 1 / y), lambda F, y: y / abs(F.m), False),
    'off1': (lambda F, c, u: c.offset(F.w(1)), val, True),
    'off-.5': (lambda F, c, u: c.offset(F.w(-0.5)), val, True),
    'diff': (lambda F, c, u: c.differential(), slope, True),
    'fdiff': (lambda F, c, u: c.differential(forward=True), slope, True),
    'diff2': (lambda F, c, u: c.differential().differential(), slope2, True),
    'integral': (lambda F, c, u: c.integral(const=F.m * F.s, uniform=u), area, False),
    'integralp': (lambda F, c, u: c.integral(interpolation=-1, uniform=u), area, False),
    'ema': (lambda F, c, u: c.ema(0.5, uniform=u), val, True),
    'ema step': (lambda F, c, u: c.ema(0.5, min_step=F.w(2), uniform=u), val, True),
    'amap step': (lambda F, c, u: c.accumulator_map(plain_add, 2, min_step=F.w(1.25), uniform=u), diff, False),
    'emap': (lambda F, c, u: c.ema(F.w(2), is_period=True, uniform=u), val, True),
    'sma2': (lambda F, c, u: c.sma(2, uniform=u), val, True),
    'sma3': (lambda F, c, u: c.sma(3, uniform=u), val, True),
    'smap': (lambda F, c, u: c.sma(F.w(2), is_period=True, uniform=u), val, True),
    'smma': (lambda F, c, u: c.smma(2, uniform=u), val, True),
    'tmin': (lambda F, c, u: (c.trailing_min if F.m > 0 else c.trailing_max)(2, uniform=u), val, True),
    'tmax': (lambda F, c, u: (c.trailing_max if F.m > 0 else c.trailing_min)(F.w(2), is_period=True, uniform=u), val, True),
    'amap': (lambda F, c, u: c.accumulator_map(plain_add, 3, interpolation=-1, uniform=u), diff, False),
    'rsi': (lambda F, c, u: c.rsi(2, uniform=u), same, True),
    'extc': (lambda F, c, u: c.extension('constant', start=True, end=True), val, True),
    'exte': (lambda F, c, u: c.extension('constant'), val, True),
    'extt': (lambda F, c, u: c.extension('tangent'), val, True),
    'extts': (lambda F, c, u: c.extension('tangent', start=True, end=True), val, True),
    'exttr': (lambda F, c, u: c.extension('tangent', regression_degree=2), val, True),
    'piece': (lambda F, c, u: Piecewise([c, Constant(F.y(5))], F.iv(-10, 10).partition([F.x(1.5)])), val, True),
    'blend': (lambda F, c, u: c.blend(F.line(0, 1), F.x(1), F.x(2)), val, True),
    'subset': (lambda F, c, u: c.subset(F.iv(1, 3)), val, True),
    'extrema': (lambda F, c, u: Extremas(c, Constant(F.y(1.5))), val, True),
    'selfoff': (lambda F, c, u: c - c.offset(F.w(1)), diff, True),
    'macd': (lambda F, c, u: c.ema(0.5, uniform=u) - c.sma(2, uniform=u), diff, True),
}
B = {
    'p+q': (lambda F, p, q, u: p + q, twice, True),
    'p-q': (lambda F, p, q, u: p - q, diff, True),
    'p*q': (lambda F, p, q, u: p * q, square, False),
    'p/q': (lambda F, p, q, u: p / q, same, False),
    'max': (lambda F, p, q, u: F.max([p, q], ignore_empty=True), val, True),
    'min': (lambda F, p, q, u: F.min([p, q], ignore_empty=False), val, True),
    'first': (lambda F, p, q, u: Curve.first([p, q]), val, True),
    'intsum': (lambda F, p, q, u: (p + q).integral(uniform=u), area, False),
    'sumint': (lambda F, p, q, u: p.integral(uniform=u) + q.integral(uniform=u), area, False),
    'emainit': (lambda F, p, q, u: p.ema(0.5, init=q, uniform=u), val, True),
    'offsum': (lambda F, p, q, u: p.offset(F.w(1)) + q, twice, True),
    'smaq': (lambda F, p, q, u: (p - q).sma(2, uniform=u), diff, True),
    'tminq': (lambda F, p, q, u: (lambda c: c.trailing_min(2, uniform=u) if F.m > 0 else c.trailing_max(2, uniform=u))(F.min([p, q], ignore_empty=True)), val, True),
    'piece': (lambda F, p, q, u: Piecewise([p, q], Interval.closed(F.x(0), F.x(4)).partition([F.x(2)])), val, True),
    'extrema': (lambda F, p, q, u: Extremas(p, q), val, True),
    'p+sum': (lambda F, p, q, u: p + (p - q), val, True),
    'extq': (lambda F, p, q, u: p.extension('constant') + q.extension('tangent'), twice, True),
}
BASES = {
    'even': ([0, 1, 2, 3, 4], [1, -1, 2, 0.5, 3], LIN),
    'uneven': ([0, 1, 2.5, 3, 4.25], [2, 0, -1, 3, 1], LIN),
    'hole': ([0, 1, 2, 3, 4], [1, 2, None, 1, -2], LIN),
    'hole first': ([0, 1, 2, 3], [None, 2, 0, 1], LIN),
    'steps': ([0, 1, 2, 3, 4], [0, 2, -1, -1, 1], PREV),
    'next': ([0, 1, 2, 4, 5], [1, 0, 2, -2, 0.5], NEXT),
    'short': ([0, 1], [1, 3], LIN),
    'single': ([2], [1], LIN),
}
OTHER = ([0, 1.5, 2, 4], [1, -1, 2, 0.25])
POSITIVE = ['over', 'rsi', 'p/q']    # what is divided by zero has no mirror
MOVES = [(-1, 1), (-2, 1), (-3, 1), (-4, 1), (-0.5, 1), (-2.5, 1), (64, 1), (-1024, 1), (2 ** 31, 1)]
SCALES = [(0, 2), (0, 0.5), (-2, 1024)]
VALUES = [(-1, 1), (-3, 1), (1, 1), (100, 1), (0, 2), (0, 0.25), (0, -1), (2, -4)]
EDITS = ['append', 'append2', 'set', 'insert', 'last', 'reset', 'replace']


def frames(tier):
    xs = MOVES + SCALES
    if tier == 'thorough':
        return [(o, s, b, m) for o, s in [(0, 1)] + xs for b, m in [(0, 1)] + VALUES if (o, s, b, m) != (0, 1, 0, 1)]
    return [(o, s, 0, 1) for o, s in xs] + [(0, 1, b, m) for b, m in VALUES]


def items(tier):
    out = []
    for b in BASES:
        for u in (False, True):
            if u and not is_regular(BASES[b][0]):
                continue
            out += [['one', t, b, u] for t in U]
            out += [['two', t, b, u] for t in B if not u]
    for t in U:
        out.append(['stacked', t, 'even', True])
        out.append(['stacked', t, 'uneven', False])
    return [[*i, tier] for i in out]


def run_item(item, rec):
    kind, t, b, u, tier = item
    if kind == 'stacked':
        for t2 in U:
            if t in NO_POINTS and t2 in SCANS + ['rsi', 'diff2', 'ema step', 'amap step']:
                continue
            rec.run({'kind': kind, 'tree': t, 'over': t2, 'base': b, 'uniform': u, 'frames': [(-2, 1, 0, 1), (-0.5, 1, 0, 1), (64, 1, 0, 1)] if tier == 'quick' else
                     [(o, s, 0, 1) for o, s in MOVES]})
        return
    # What is missing adds nothing to an average
    movable = (U if kind == 'one' else B)[t][2] and not ('hole' in b and t in ('sma2', 'sma3', 'smap', 'smma', 'smaq', 'macd'))
    fs = [f for f in frames(tier) if (movable or not f[2]) and (t not in POSITIVE or f[3] > 0)]
    rec.run({'kind': kind, 'tree': t, 'base': b, 'uniform': u, 'edit': [], 'frames': fs})
    if b in ('even', 'uneven', 'short', 'single'):
        for e in EDITS:
            rec.run({'kind': kind, 'tree': t, 'base': b, 'uniform': u, 'edit': [e], 'frames': fs})
        if tier == 'thorough':
            for es in itertools.product(EDITS, repeat=2):
                rec.run({'kind': kind, 'tree': t, 'base': b, 'uniform': u, 'edit': list(es), 'frames': fs})


def build(case, F):
    xs, ys, mode = BASES[case['base']]
    u = case['uniform']
    p = Points([(F.x(x), F.y(y)) for x, y in zip(xs, ys)], uniform=u, interpolation=mode)
    if case['kind'] == 'two':
        q = Points([(F.x(x), F.y(y)) for x, y in zip(*OTHER)], uniform=False)
        b, out, _ = B[case['tree']]
        return p, b(F, p, q, u), out
    b, out, _ = U[case['tree']]
    c = b(F, p, u)
    if 'over' in case:
        c = U[case['over']][0](F, c, u)
        out = same
    return p, c, out


def edit(p, name, F):
    xs = [F.back(q[0]) for q in p.sample_points()]
    if not xs:
        return
    first, last = xs[0], xs[-1]
    if name == 'append':
        p.append((F.x(last + 1), F.y(2)))
    elif name == 'append2':
        p.append_list([(F.x(last + 1), F.y(0)), (F.x(last + 2), F.y(-1))])
    elif name == 'set':
        p.set([(F.x(first - 1), F.y(-3)), (F.x(first), F.y(1)), (F.x(first + 1), F.y(0))])
    elif name == 'insert':
        p.replace((F.x((first + last) / 2 + 0.125), F.y(4)))
    elif name == 'last':
        p.replace((F.x(last), F.y(-3)))
    elif name == 'reset':
        p.reset(F.iv(first + 1, last))
    elif name == 'replace':
        p.replace((F.x(xs[len(xs) // 2]), F.y(0)))


def interval(F, d):
    if d.is_empty:
        return 'empty'
    return [F.back(d.start), F.back(d.end), d.start_open, d.end_open]


def attempt(f):
    try:
        return f()
    except Exception as e:
        return f'raises {type(e).__name__}'


def measure(case, F, rec):
    p, c, out = build(case, F)
    told = []
    edits = []
    if case.get('edit'):
        look(case, c, F)
        c.add_observer(begin=lambda d: told.append(['begin', interval(F, d)]), end=lambda d: told.append(['end', interval(F, d)]))
        for e in case['edit']:
            told.append(attempt(lambda: edit(p, e, F)))
            edits.append(told[-1])
            rec.step()
    res = look(case, c, F)
    rec.true('raises TypeError' not in edits, 'edits')
    res['announced'] = ('told', told)
    return res, out


def look(case, c, F):
    d = attempt(lambda: c.domain)
    r = {}
    if isinstance(d, str):
        return {'domain': ('told', d)}
    r['domain'] = ('told', interval(F, d))
    steps = F.w(0.25)
    for x in (-1, 0, 0.25, 0.5, 1, 1.5, 2, 2.75, 3, 4, 4.25, 5, 7):
        X = F.x(x)
        r[f'y({x})'] = ('y', attempt(lambda: c.y(X)))
        if d.contains(X):
            r[f'x_next({x})'] = ('x', attempt(lambda: c.x_next(X, min_step=steps)))
            r[f'x_previous({x})'] = ('x', attempt(lambda: c.x_previous(X, min_step=steps)))
            r[f'd_y({x})'] = ('s', attempt(lambda: c.d_y(X, min_step=steps)))
            r[f'd_y({x},forward)'] = ('s', attempt(lambda: c.d_y(X, forward=True, min_step=steps)))
    r['first'] = ('p', [attempt(lambda: c.first_point())])
    r['last'] = ('p', [attempt(lambda: c.last_point())])
    for a, b in ((-8, 8), (0.5, 3), (2, 2), (1, 4)):
        iv = F.iv(a, b)
        r[f'samples({a},{b})'] = ('p', attempt(lambda: c.sample_points(domain=iv, min_step=steps)))
    r['by steps'] = ('p', attempt(lambda: c.sample_points(domain=F.iv(0, 4), step=F.w(0.5))))
    r['range'] = ('r', attempt(lambda: span(c.get_range(F.iv(0, 3), min_step=F.w(0.5)))))
    return r


def span(i):
    return [] if i.is_empty else [i.start, i.end]


def norm(F, kind, v):
    """Positions as in the frame of the model; values as they are."""
    if isinstance(v, str) or v is None or kind in ('told', 'y', 's', 'r'):
        return v
    if kind == 'x':
        return F.back(v)
    return [p if p is None or isinstance(p, str) else [F.back(p[0]), p[1]] for p in v]


def expect(F, out, kind, v, case):
    def o(y):
        return None if y is None else out(F, y)
    if isinstance(v, str) or v is None or kind in ('told', 'x'):
        return v
    if kind == 'y':
        return o(v)
    if kind == 's':
        return (out(F, v) - out(F, 0)) / F.s
    if kind == 'r':
        return sorted(o(y) for y in v)
    return [p if p is None or isinstance(p, str) else [p[0], o(p[1])] for p in v]


def check_case(case, rec):
    I = Frame()
    base, _ = measure(case, I, rec)
    base = {k: (kind, norm(I, kind, v)) for k, (kind, v) in base.items()}
    for f in case['frames']:
        F = Frame(*f)
        got, out = measure(case, F, rec)
        rec.true(set(got) == set(base), f'{case["tree"]} over {case["base"]} in {f}: reads')
        for k, (kind, v) in got.items():
            rec.step()
            want = expect(F, out, kind, base[k][1], case)
            rec.eq(norm(F, kind, v), want, f'{case.get("over", "")} {case["tree"]} over {case["base"]} after {case.get("edit")} in frame x={F.o}+{F.s}x y={F.b}+{F.m}y: {k}', rel=1e-7, abs_=1e-7)
    rec.state(json.dumps(case))
    rec.outcome(str(base))
