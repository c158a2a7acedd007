"""C24 - options, defaults and constructors of derived curves."""
import gc
import itertools
import json
import math
from curvepy import (Accumulator, AccumulatorMap, Aggregate, Constant, Curve, EMA, Extremas, Generic, Integral, Line, Map, Offset, Piecewise, Points, SMA, Sin)
from curvepy import util
from curvepy.extension import ConstantExtension, SinExtension, TangentExtension
from intervalpy import Interval
from mc.ref import LIN, NEXT, PREV, interp, is_regular, pattern, subsets

PROPERTY = 'C24'
BOUNDS = {
    'quick': 'running curves with 6 smallest steps over every subset of 7 positions (2 patterns of values) and over functions; 53 pairs of equivalent constructions over 5 curves; '
             'every option out of its range (66) and what remains afterwards; every sequence of up to 3 assignments out of 3 to constants, lines and sines below 12 derived curves; '
             'every combination of 1..3 operands with 3 kinds of aggregates; harmonic averages of 4 base degrees x 1..5 x 3 strides; '
             'every nesting of up to 3 levels of flatten, every signature of up to 3 parameters',
    'thorough': 'the same over every subset of 8 positions with 3 patterns, sequences of 4 assignments',
}
ASSUMPTIONS = ['positions after the last step of a running curve are not compared', 'smallest steps which lead elsewhere forward than backward are not compared for windows and periods',
               'SMA with a smallest step is compared over even points, where its window begins and ends at a step']
GOLD = (1 + math.sqrt(5)) / 2
STEPS = [0.5, 1, 1.5, 2, 2.5, 3]


def items(tier):
    n, k = (7, 2) if tier == 'quick' else (8, 3)
    out = [['steps', [x - d for x in s], j] for s in subsets(n, 1, n) for j, d in zip(range(k), (0, 3, 2))]
    out += [['functions', m] for m in STEPS]
    out += [['same', i] for i in range(len(SAME))]
    out += [['refused', i] for i in range(len(REFUSED))]
    out += [['constant', d, tier] for d in DERIVED]
    out += [['limits', n] for n in LIMITED]
    out += [['generic'], ['aggregate'], ['golden'], ['util']]
    return out


# ------------------------------------------------------------------ smallest steps

def thin(xs, m):
    out = [xs[0]]
    for x in xs[1:]:
        if x >= out[-1] + m:
            out.append(x)
    return out


def steps_back(xs, x, m, n):
    out = [x]
    while len(out) < n:
        before = [a for a in xs if a <= out[-1] - m]
        if not before:
            break
        out.append(before[-1])
    return out


def ema_ref(vs, alpha):
    out = []
    for v in vs:
        out.append(v if not out else out[-1] + alpha * (v - out[-1]))
    return out


def running(vx, vy):
    """Piecewise linear through what was visited."""
    return lambda x: interp(vx, vy, x, LIN)


def steps_case(case, rec):
    xs, ys = case['xs'], case['ys']
    u = case['uniform']
    val = dict(zip(xs, ys))
    for m in STEPS:
        p = Points(list(zip(xs, ys)), uniform=u)
        vx = thin(xs, m)
        vy = [val[x] for x in vx]
        aligned = all(steps_back(xs, b, m, 2)[-1] == a for a, b in zip(vx, vx[1:]))
        what = f'{case} smallest step {m}: '
        models = [('ema', p.ema(0.25, min_step=m, uniform=u), vy and ema_ref(vy, 0.25), LIN),
                  ('scan', p.accumulator_map(lambda ys: ys[0] * 2, 1, min_step=m, uniform=u), [2 * v for v in vy], LIN),
                  ('previous', p.accumulator_map(lambda ys: ys[0] + 1, 1, interpolation=PREV, min_step=m, uniform=u), [v + 1 for v in vy], PREV),
                  ('integral', Integral(p, min_step=m, uniform=u), area(vx, vy, LIN), LIN),
                  ('integral of steps', Integral(p, const=2, interpolation=PREV, min_step=m, uniform=u), [2 + a for a in area(vx, vy, PREV)], LIN)]
        for n in (1, 2, 3):
            wy = [[val[a] for a in steps_back(xs, x, m, n)] for x in vx]
            models += [(f'trailing min {n}', p.trailing_min(n, min_step=m, uniform=u), [min(w) for w in wy], LIN),
                       (f'trailing max {n}', p.trailing_max(n, min_step=m, uniform=u, interpolation=NEXT), [max(w) for w in wy], NEXT),
                       (f'windows {n}', p.accumulator_map(lambda x, w: x + sum((i + 1) * v for i, v in enumerate(w)), n, min_step=m, uniform=u),
                        [x + sum((i + 1) * v for i, v in enumerate(w)) for x, w in zip(vx, wy)], LIN)]
        if aligned:
            period = 4.0
            e = []
            for i, (x, y) in enumerate(zip(vx, vy)):
                e.append(y if not i else e[-1] + (x - vx[i - 1]) / period * (y - e[-1]))
            models.append(('ema of a period', p.ema(period, is_period=True, min_step=m, uniform=u), e, LIN))
        if is_regular(xs) and len(xs) > 1 and m % (xs[1] - xs[0]) == 0:
            # Over even points the window of a running average begins and ends at a step
            for n in (1, 2, 3):
                if len(vx) < n:
                    continue
                s = p.sma(n, min_step=m, uniform=u)
                for i in range(n - 1, len(vx)):
                    want = vy[i] if n == 1 else area(vx[i - n + 1:i + 1], vy[i - n + 1:i + 1], LIN)[-1] / (vx[i] - vx[i - n + 1])
                    rec.step()
                    rec.eq(s.y(vx[i]), want, what + f'average of {n} at {vx[i]}')
        for name, c, cy, mode in models:
            for x in [a / 4 for a in range(int(4 * vx[0]), int(4 * vx[-1]) + 1)]:
                rec.step()
                rec.eq(c.y(x), interp(vx, cy, x, mode), what + f'{name} at {x}')
            rec.eq(c.sample_points(Interval.closed(vx[0], vx[-1])), [list(q) for q in zip(vx, cy)], what + f'{name} points')
            for a, b in zip(vx, vx[1:]):
                rec.eq(c.x_next(a), b, what + f'{name} after {a}')
            for x in [a / 2 for a in range(int(2 * vx[0]) - 2, int(2 * vx[-1]) + 1)]:
                after = [a for a in vx if a >= x + m]
                if after:
                    rec.eq(c.x_next(x), after[0], what + f'{name} after {x}')
                before = [a for a in vx if a <= x - m]
                if before:
                    rec.eq(c.x_previous(x), before[-1], what + f'{name} before {x}')


def area(vx, vy, mode):
    out = [0.0]
    for i in range(1, len(vx)):
        h = (vy[i] + vy[i - 1]) / 2 if mode == LIN else vy[i - 1]
        out.append(out[-1] + h * (vx[i] - vx[i - 1]))
    return out


def functions_case(case, rec):
    m = case['step']
    f = lambda x: x * x - 3 * x
    for own in (0.5, 1, 2):
        for make in ('function', 'subset', 'sum'):
            g = Generic(f, domain=(0, 6), min_step=own)
            if make == 'subset':
                g = Generic(f, min_step=own).subset((0, 6))
            if make == 'sum':
                g = g + 0
            s = max(m, own)
            vx = [i * s for i in range(100) if i * s <= 6]
            vy = [f(x) for x in vx]
            what = f'{make} with steps of {own} by at least {m}: '
            for name, c, cy, mode in (('ema', g.ema(0.25, min_step=m), ema_ref(vy, 0.25), LIN),
                                      ('integral', Integral(g, min_step=m), area(vx, vy, LIN), LIN),
                                      ('max of 2', g.trailing_max(2, min_step=m), [max(vy[max(0, i - 1):i + 1]) for i in range(len(vy))], LIN)):
                for x in [a / 4 for a in range(int(4 * vx[-1]) + 1)]:
                    rec.step()
                    rec.eq(c.y(x), interp(vx, cy, x, mode), what + f'{name} at {x}')
            rec.eq(g.sample_points((0, vx[-1]), min_step=m), [list(q) for q in zip(vx, vy)], what + 'points')
    g = Generic(f, domain=(0, 6))
    g.min_step = m
    rec.eq(g.x_next(1, min_step=0.25), 1 + m, f'step {m} set afterwards')
    rec.eq(g.x_previous(5, min_step=0.25), 5 - m, f'step {m} set afterwards, back')
    rec.eq(g.x_next(1, min_step=4), 5, f'step {m} set afterwards, greater one asked for')


# ------------------------------------------------------------------ equivalent constructions

SAME = [
    ('SMA is by period', lambda c, u: SMA(c, 2, uniform=u), lambda c, u: c.sma(2, is_period=True, uniform=u)),
    ('sma is by points', lambda c, u: SMA(c, 3, is_period=False, uniform=u), lambda c, u: c.sma(3, uniform=u)),
    ('EMA is by period', lambda c, u: EMA(c, 4, uniform=u), lambda c, u: c.ema(4, is_period=True, uniform=u)),
    ('ema is by factor', lambda c, u: EMA(c, 0.25, is_period=False, uniform=u), lambda c, u: c.ema(0.25, uniform=u)),
    ('initial value', lambda c, u: EMA(c, 0.5, is_period=False, init=3, uniform=u), lambda c, u: c.ema(0.5, init=Constant(3), uniform=u)),
    ('initial function', lambda c, u: c.ema(0.5, init=lambda x: x + 1, uniform=u), lambda c, u: c.ema(0.5, init=Line(const=1, slope=1), uniform=u)),
    ('smma', lambda c, u: c.smma(2, uniform=u), lambda c, u: c.ema(1 / 2, init=c.sma(2, uniform=u), uniform=u)),
    ('smma step', lambda c, u: c.smma(2, uniform=u, min_step=2), lambda c, u: EMA(c, 1 / 2, is_period=False, init=SMA(c, 2, is_period=False, uniform=u, min_step=2), uniform=u, min_step=2)),
    ('AccumulatorMap is by period', lambda c, u: AccumulatorMap(c, min, 2, uniform=u), lambda c, u: c.trailing_min(2, is_period=True, uniform=u)),
    ('trailing max', lambda c, u: AccumulatorMap(c, max, 2, is_period=False, uniform=u), lambda c, u: c.trailing_max(2, uniform=u)),
    ('with positions', lambda c, u: c.accumulator_map(lambda x, ys: len(ys), 2, uniform=u), lambda c, u: c.accumulator_map(len, 2, uniform=u)),
    ('Integral', lambda c, u: Integral(c, uniform=u), lambda c, u: c.integral(uniform=u)),
    ('integral const', lambda c, u: c.integral(const=2, uniform=u), lambda c, u: c.integral(uniform=u) + 2),
    ('integral of constant', lambda c, u: c.integral(2, PREV, u), lambda c, u: c.integral(const=2, interpolation=Points.interpolation.previous, uniform=u)),
    ('degree as text of a number', lambda c, u: c.sma(2.0, uniform=u), lambda c, u: c.sma(2, uniform=u)),
    ('extrema of a number', lambda c, u: Extremas(c, 0.5), lambda c, u: Extremas(c, Constant(0.5))),
    ('extrema of points', lambda c, u: Extremas(c, [(-9, 0), (99, 1)]), lambda c, u: Extremas(c, Points([(-9, 0), (99, 1)]))),
    ('negative deviation', lambda c, u: Extremas(c, 0.5, min_deviation=-0.5), lambda c, u: Extremas(c, 0.5, min_deviation=0.5)),
    ('add', lambda c, u: c.add(2), lambda c, u: c + 2),
    ('subtract', lambda c, u: c.subtract(Constant(2)), lambda c, u: c - 2),
    ('operands one by one', lambda c, u: Curve.add_many(c, 1, 2), lambda c, u: Curve.add_many([c, 1, 2])),
    ('max one by one', lambda c, u: Curve.max(c, 1, Constant(0), ignore_empty=True), lambda c, u: Curve.max((c, 1, 0), ignore_empty=True)),
    ('min one by one', lambda c, u: Curve.min(c, 1), lambda c, u: Curve.min([c, 1])),
    ('first one by one', lambda c, u: Curve.first(c, 1), lambda c, u: Curve.first([c, Constant(1)])),
    ('divide one by one', lambda c, u: Curve.divide_many(c, 2, 4), lambda c, u: c / 8),
    ('subtract one by one', lambda c, u: Curve.subtract_many(c, 2, 4), lambda c, u: c - 6),
    ('multiply one by one', lambda c, u: Curve.multiply_many(c, 2, 4), lambda c, u: c * 8),
    ('power one by one', lambda c, u: Curve.pow_many(abs(c) + 1, 2, 0.5), lambda c, u: abs(c) + 1),
    ('logarithm one by one', lambda c, u: Curve.log_many(abs(c) + 1, 2), lambda c, u: (abs(c) + 1).log(2)),
    ('power', lambda c, u: c.pow(2), lambda c, u: c * c),
    ('raised', lambda c, u: c.raised(2).log(2), lambda c, u: c * 1),
    ('natural logarithm', lambda c, u: (abs(c) + 1).log(), lambda c, u: (abs(c) + 1).map(math.log, skip_none=True)),
    ('inverse', lambda c, u: (c + 10).multiplicative_inverse(), lambda c, u: 1 / (c + 10)),
    ('negative', lambda c, u: c.additive_inverse(), lambda c, u: 0 - c),
    ('absolute', lambda c, u: c.abs(), lambda c, u: Curve.max([c, -c])),
    ('parsed base', lambda c, u: SMA([(0, 1), (1, 3), (2, 0)], 2, uniform=u), lambda c, u: Points([(0, 1), (1, 3), (2, 0)]).sma(2, is_period=True, uniform=u)),
    ('parsed base of EMA', lambda c, u: EMA([(0, 1), (1, 3), (2, 0)], 2, uniform=u), lambda c, u: Points([(0, 1), (1, 3), (2, 0)]).ema(2, is_period=True, uniform=u)),
    ('Map', lambda c, u: Map(c, lambda y: y + 1, skip_none=True), lambda c, u: c + 1),
    ('Map skipping', lambda c, u: Map(c, lambda x, y: x * y, skip_none=True), lambda c, u: c * Line(const=0, slope=1)),
    ('Offset', lambda c, u: Offset(c, 2), lambda c, u: c.offset(2)),
    ('extension of the end', lambda c, u: TangentExtension(c, start=False), lambda c, u: c.extension('tangent')),
    ('extension of the start', lambda c, u: ConstantExtension(c, end=False), lambda c, u: c.extension('constant', start=True, end=False)),
    ('extension of both ends', lambda c, u: TangentExtension(c, regression_degree=2), lambda c, u: c.extension('tangent', start=True, regression_degree=2)),
    ('constant extension', lambda c, u: ConstantExtension(c), lambda c, u: c.extension('constant', start=True)),
    ('sine extension', lambda c, u: SinExtension(c, period=5), lambda c, u: c.extension('sin', start=True, period=5)),
    ('pieces', lambda c, u: Piecewise([c, c + 1], [(-2, 1), Interval.open_closed(1, 9)]), lambda c, u: Piecewise((c, c.map(lambda y: y + 1, skip_none=True)), (Interval.closed(-2, 1), (Interval.open_closed(1, 9))))),
    ('subset', lambda c, u: c.subset([0, 2]), lambda c, u: c.subset(Interval.closed(0, 2))),
    ('generic', lambda c, u: Generic(c, domain=(0, 2)), lambda c, u: c.subset((0, 2))),
    ('interpolation by name', lambda c, u: c.trailing_max(2, interpolation=Points.interpolation.previous, uniform=u), lambda c, u: c.trailing_max(2, interpolation=PREV, uniform=u)),
    ('interpolated by default', lambda c, u: c.trailing_max(2, interpolation=Points.interpolation.linear, uniform=u), lambda c, u: c.trailing_max(2, uniform=u)),
    ('offset of no duration', lambda c, u: c.offset(3, duration=None), lambda c, u: c.offset(3)),
    ('differential', lambda c, u: c.differential(), lambda c, u: c.differential(forward=False)),
    ('uniform by default', lambda c, u: c.ema(0.5), lambda c, u: c.ema(0.5, uniform=True)),
]
SAME_BASES = [
    ([0, 1, 2, 3, 4], [1, -1, 2, 0.5, 3], LIN),
    ([-2, -1, 0, 1, 2], [0, 2, 1, -3, 1], LIN),
    ([0, 2, 4], [1, 2, 1], PREV),
    ([0, 1, 2, 3], [3, 3, 0, 1], NEXT),
    ([1], [2], LIN),
]


def observe(c):
    out = [[c.domain.start, c.domain.end]] if not c.domain.is_empty else [None]
    for x in range(-12, 22):
        out.append(c.y(x / 4))
    if c.domain.is_finite and not c.domain.is_empty:
        out.append([list(q) for q in c.sample_points(min_step=0.5)])
    return out


def same_case(case, rec):
    name, a, b = SAME[case['pair']]
    for xs, ys, mode in SAME_BASES:
        for u in (True, False):
            pa = Points(list(zip(xs, ys)), uniform=u, interpolation=mode)
            pb = Points(list(zip(xs, ys)), uniform=u, interpolation=mode)
            ca, cb = a(pa, u), b(pb, u)
            rec.step()
            rec.eq(observe(ca), observe(cb), f'{name} over {xs} {ys}')
            for p in (pa, pb):
                p.append((xs[-1] + (xs[1] - xs[0] if len(xs) > 1 else 1), -2))
            rec.eq(observe(ca), observe(cb), f'{name} over {xs} {ys} and one more')


# ------------------------------------------------------------------ refused

REFUSED = []
for bad in (0, -1, -2.5):
    REFUSED += [(f'sma({bad})', lambda c, b=bad: c.sma(b)), (f'sma({bad}, is_period)', lambda c, b=bad: c.sma(b, is_period=True)), (f'SMA({bad})', lambda c, b=bad: SMA(c, b)),
                (f'trailing_min({bad})', lambda c, b=bad: c.trailing_min(b)), (f'trailing_max({bad}, is_period)', lambda c, b=bad: c.trailing_max(b, is_period=True)),
                (f'accumulator_map({bad})', lambda c, b=bad: c.accumulator_map(sum, b)), (f'AccumulatorMap({bad})', lambda c, b=bad: AccumulatorMap(c, sum, b))]
REFUSED += [('sma(0.5) points', lambda c: c.sma(0.5)), ('trailing_min(0.9) points', lambda c: c.trailing_min(0.9)),
            ('SMA(None)', lambda c: SMA(c, None)), ('AccumulatorMap(None)', lambda c: AccumulatorMap(c, min, None)),
            ('no parameters', lambda c: c.accumulator_map(lambda: 1, 2)), ('three parameters', lambda c: c.accumulator_map(lambda a, b, d: 1, 2)),
            ('no function', lambda c: c.accumulator_map(3, 2)), ('accumulator without function', lambda c: Accumulator(c, None)),
            ('unknown extension', lambda c: c.extension('none')), ('unparsable operand', lambda c: c + 'text'), ('unparsable operands', lambda c: Curve.max([c, 'text'])),
            ('unparsable reference', lambda c: Extremas(c, 'text')), ('unparsable initial value', lambda c: c.ema(0.5, init='text')),
            ('unparsable base', lambda c: SMA('text', 2)), ('two bases', lambda c: Points([(0, 0)], 'text', 3, 4, 5)),
            ('pieces without intervals', lambda c: Piecewise([c, c], [(0, 1)])), ('intervals without pieces', lambda c: Piecewise([c], [(0, 1), (1, 2)])),
            ('regression of no points', lambda c: c.extension('tangent', regression_degree=0)), ('regression of less than no points', lambda c: c.extension('tangent', regression_degree=-1)),
            ('regression of no period', lambda c: c.extension('tangent', regression_period=0)), ('regression of a negative period', lambda c: c.extension('sin', period=1, regression_period=-2)),
            ('two regressions', lambda c: c.extension('tangent', regression_degree=2, regression_period=2)), ('sine without period', lambda c: c.extension('sin')),
            ('sine of negative period', lambda c: c.extension('sin', period=-4)), ('unknown interpolation', lambda c: Points([(0, 1)], interpolation=2)),
            ('unknown interpolation of an accumulator', lambda c: c.trailing_min(2, interpolation=7)), ('half an offset', lambda c: c.offset(0.5, duration='1s')),
            ('unknown duration', lambda c: c.offset(1, duration='1 parsec')), ('line without slope', lambda c: Line(const=1)), ('line without position', lambda c: Line(slope=1)),
            ('points which are not ascending', lambda c: c.append((3, 1))), ('points out of line', lambda c: c.append((5.5, 1))), ('point before the first', lambda c: c.replace((-1, 1), or_append=True)),
            ('samples of infinity', lambda c: Line(const=0, slope=1).sample_points()), ('unknown number of samples', lambda c: c.sample_points_from_x(0, None)),
            ('map with three parameters', lambda c: c.map(lambda a, b, d: 1)), ('map without parameters', lambda c: c.map(lambda: 1))]


def refused_case(case, rec):
    name, f = REFUSED[case['option']]
    xs, ys = [0, 1, 2, 3], [1, 3, -1, 2]
    p = Points(list(zip(xs, ys)))
    e = p.ema(0.5)
    before = observe(p), observe(e)
    try:
        f(p)
    except Exception:
        pass
    else:
        rec.fail(f'{name} is accepted')
    gc.collect()
    rec.step()
    rec.eq((observe(p), observe(e)), before, f'after {name} was refused')
    told = []
    p.add_observer(begin=lambda d: told.append(1), end=lambda d: told.append(2))
    p.append((4, 0))
    rec.eq(told, [1, 2], f'announcements after {name} was refused')
    rec.eq([p.y(4), e.y(4)], [0, 0.625], f'values after {name} was refused')


# ------------------------------------------------------------------ constants and functions which change

def set_value(k, v):
    k.value = v


# name: (build, assign, value at a position)
CHANGING = {
    'constant': (lambda v: Constant(v), set_value, lambda v, x: v),
    'line by const': (lambda v: Line(const=v, slope=2), lambda k, v: k.set(const=v, slope=2), lambda v, x: v + 2 * x),
    'line by slope': (lambda v: Line(const=1, slope=v), lambda k, v: k.set(const=1, slope=v), lambda v, x: 1 + v * x),
    'line by points': (lambda v: Line(p1=(2, v), p2=(4, 1)), lambda k, v: k.set(points=[(2, v), (4, 1)]), lambda v, x: v + (1 - v) / 2 * (x - 2)),
    'line by point': (lambda v: Line(p1=(v, 3), slope=1), lambda k, v: k.set(p1=(v, 3), slope=1), lambda v, x: 3 + x - v),
    'sine': (lambda v: Sin(amplitude=v, period=8), lambda k, v: k.set(amplitude=v, period=8), lambda v, x: v * math.sin(math.pi / 4 * x)),
    'sine by frequency': (lambda v: Sin(amplitude=2, frequency=v / 8), lambda k, v: k.set(amplitude=2, frequency=v / 8), lambda v, x: 2 * math.sin(math.pi / 4 * v * x)),
    'sine by phase': (lambda v: Sin(amplitude=2, period=8, phase=v), lambda k, v: k.set(amplitude=2, period=8, phase=v), lambda v, x: 2 * math.sin(math.pi / 4 * x + v)),
    'sine by shift': (lambda v: Sin(amplitude=2, period=8, phase_x=v), lambda k, v: k.set(amplitude=2, period=8, phase_x=v), lambda v, x: 2 * math.sin(math.pi / 4 * (x + v))),
}
DERIVED = {
    'sum': (lambda k, p: p + k, lambda f, x, y: y + f(x)),
    'difference': (lambda k, p: k - p, lambda f, x, y: f(x) - y),
    'product': (lambda k, p: p * k, lambda f, x, y: y * f(x)),
    'map': (lambda k, p: k.map(lambda x, y: x + y), lambda f, x, y: x + f(x)),
    'greater': (lambda k, p: Curve.max([p, k]), lambda f, x, y: max(y, f(x))),
    'offset': (lambda k, p: k.offset(3), lambda f, x, y: f(x - 3)),
    'negative': (lambda k, p: -(-k), lambda f, x, y: f(x)),
    'average of sum': (lambda k, p: (p + k).ema(1), lambda f, x, y: y + f(x)),
    'trailing': (lambda k, p: (p * k).trailing_min(1), lambda f, x, y: y * f(x)),
    'subset': (lambda k, p: k.subset((0, 3)), lambda f, x, y: f(x)),
    'piece': (lambda k, p: Piecewise([k, p], Interval.closed(-9, 9).partition([2.5])), lambda f, x, y: f(x)),
    'area': (lambda k, p: (p + k).integral().differential(), lambda f, x, y: None if x == 0 else (y + f(x) + {1: 1, 2: 3}[x] + f(x - 1)) / 2),
}


def constant_case(case, rec):
    f, g = DERIVED[case['derived']]
    make, assign, value = CHANGING[case['curve']]
    k = make(case['values'][0])
    p = Points([(0, 1), (1, 3), (2, -2), (3, 0)])
    c = f(k, p)
    told = []
    seen = []
    k.add_observer(begin=lambda d: told.append(['begin', k.y(1), d.contains(1)]), end=lambda d: told.append(['end', k.y(1), d.contains(1)]))
    c.add_observer(begin=lambda d: seen.append(['begin', d.contains(1), c.y(1)]), end=lambda d: seen.append(['end', d.contains(1), c.y(1)]))
    last = case['values'][0]
    for v in case['values'][1:]:
        del told[:], seen[:]
        c.y(1)
        assign(k, v)
        rec.step()
        what = f'{case["derived"]} of a {case["curve"]} set to {case["values"]}'
        now, before = (lambda x: value(v, x)), (lambda x, last=last: value(last, x))
        rec.eq([k.y(-100), k.y(0), k.y(1e3)], [now(-100), now(0), now(1e3)], what)
        if v != last:
            rec.eq(told, [['begin', before(1), True], ['end', now(1), True]], what + ': announced')
            rec.eq(seen[:1], [['begin', True, g(before, 1, 3)]], what + ': announced to the derived curve')
            rec.eq(seen[-1], ['end', True, g(now, 1, 3)], what + ': value when it was announced')
        for x, y in ((0, 1), (1, 3), (2, -2)):
            rec.eq(c.y(x), g(now, x, y), what + f': value at {x}')
        last = v
    rec.eq(Constant.zero().value, 0, 'the constant zero')


def generic_case(rec):
    for name, make in (('curve', lambda p: Generic(p, domain=(1, 3))), ('subset', lambda p: p.subset((1, 3))), ('sum', lambda p: Generic(p + 1, domain=(1, 3)) - 1)):
        p = Points([(0, 1), (1, 3), (2, -2), (3, 0)])
        c = make(p)
        d = c * 2
        told = []
        d.add_observer(begin=lambda i: told.append(['begin', i.contains(2), d.y(2)]), end=lambda i: told.append(['end', i.contains(2), d.y(2)]))
        for i, y in enumerate((5, 5, -1, 0)):
            old = d.y(2)
            del told[:]
            p.replace((2, y))
            rec.step()
            if 2 * y != old:
                rec.eq(told, [['begin', True, old], ['end', True, 2 * y]], f'{name} edit {i}')
            rec.eq([c.y(0), c.y(1), c.y(2), c.y(1.5), d.y(3), c.y(3.5)], [None, 3, y, (3 + y) / 2, 0, None], f'{name} after edit {i}')
        old = None


LIMITED = {
    # name: (curve of a step, its domain, steps of its parts)
    'function': (lambda g, h: g, (0, 6), ['g']),
    'negative': (lambda g, h: -g, (0, 6), ['g']),
    'map of map': (lambda g, h: g.map(lambda y: y).map(lambda x, y: x), (0, 6), ['g']),
    'number': (lambda g, h: g * 2, (0, 6), ['g', 'limit']),
    'sum': (lambda g, h: g + h, (1, 6), ['g', 'h']),
    'greatest': (lambda g, h: Curve.max([g, h], ignore_empty=True), (0, 8), ['g', 'h']),
    'first': (lambda g, h: Curve.first([g, h]), (0, 8), ['g', 'h']),
    'difference of sums': (lambda g, h: (g + h) - (h + 1), (1, 6), ['g', 'h', 'limit']),
    'offset': (lambda g, h: g.offset(1), (1, 7), ['g']),
    'offset back': (lambda g, h: (g + h).offset(-0.5), (0.5, 5.5), ['g', 'h']),
    'offset of offset': (lambda g, h: -(g.offset(2).offset(-1)), (1, 7), ['g']),
    'differential': (lambda g, h: g.differential(), (0, 6), ['g']),
    'subset': (lambda g, h: g.subset(Interval.closed(2, 5)), (2, 5), ['g']),
    'line': (lambda g, h: g + Line(const=1, slope=2), (0, 6), ['g', 'limit']),
    'lines': (lambda g, h: Line(const=1, slope=2) + Constant(3), (-math.inf, math.inf), ['limit']),
    'map of line': (lambda g, h: Line(const=1, slope=2).map(lambda y: y), (-math.inf, math.inf), ['limit']),
}


def limits_case(case, rec):
    own, other = case['steps']
    f, (lo, hi), parts = LIMITED[case['curve']]
    g = Generic(lambda x: x, domain=Interval.closed(0, 6), min_step=own)
    h = Generic(lambda x: 2 * x, domain=Interval.closed(1, 8), min_step=other)
    shift = {'offset': 1, 'offset back': -0.5, 'offset of offset': 1}.get(case['curve'], 0)
    spans = {'g': (0, 6, own), 'h': (1, 8, other)}
    c = f(g, h)
    if case['curve'] == 'subset':
        spans['g'] = (2, 5, own)
    for x in (2, 2.5, 3, 3.25, 4, 5):
        if not lo <= x <= hi:
            continue
        for s in (0.25, 0.5, 1, 1.5, 4):
            for by in (None, 0.125, 0.25, 0.5, 1, 1.25, 2, 3):
                for sign, go in ((1, c.x_next), (-1, c.x_previous)):
                    limit = None if by is None else x + sign * by
                    if limit is None and 'limit' in parts:
                        continue
                    leads = []
                    for part in parts:
                        if part == 'limit':
                            leads.append(limit)
                            continue
                        a, b, step = spans[part]
                        to = x + sign * max(s, step)
                        if limit is not None:
                            to = min(to, limit) if sign > 0 else max(to, limit)
                        # A part which does not reach there has no step
                        if to - shift <= b if sign > 0 else to - shift >= a:
                            leads.append(to)
                    want = (min(leads) if sign > 0 else max(leads)) if leads else None
                    if want is not None and not lo <= want <= hi:
                        want = None
                    rec.step()
                    rec.eq(go(x, min_step=s, limit=limit), want, f'{case["curve"]} with steps {case["steps"]}: {"next" if sign > 0 else "previous"} of {x} by {s} up to {limit}')


def aggregate_case(case, rec):
    kinds = {'list': [(0, 1), (2, 3)], 'line': Line(const=1, slope=1), 'number': 4, 'function': lambda x: x * x, 'short': [(1, 5), (3, 1)]}
    val = {'list': lambda x: interp([0, 2], [1, 3], x, LIN), 'line': lambda x: 1 + x, 'number': lambda x: 4, 'function': lambda x: x * x,
           'short': lambda x: interp([1, 3], [5, 1], x, LIN)}
    ops = [Curve.parse(kinds[k]) for k in case['ops']]
    fs = [val[k] for k in case['ops']]
    spans = [(0, 2) if k == 'list' else (1, 3) if k == 'short' else (-math.inf, math.inf) for k in case['ops']]
    for union in (False, True):
        lo, hi = (min if union else max)(s[0] for s in spans), (max if union else min)(s[1] for s in spans)
        for form in ('list', 'tuple', 'one by one'):
            kw = dict(union=union)
            args = [ops] if form == 'list' else [tuple(ops)] if form == 'tuple' else ops
            plain = Aggregate(*args, **kw)
            total = Aggregate(*args, tfm=lambda x, ys: x + len([y for y in ys if y is not None]), default=-7, name='count', **kw)
            for x in (-1, 0, 0.5, 1, 1.5, 2, 2.5, 3, 4):
                ys = [f(x) for f in fs]
                inside = lo <= x <= hi
                rec.step()
                what = f'{case["ops"]} {form} union={union} at {x}'
                rec.eq(plain.y(x), ys if inside else None, what)
                rec.eq(total.y(x), x + len([y for y in ys if y is not None]) if inside else -7, what)


def golden_case(case, rec):
    base, count, stride, period = case['base'], case['count'], case['stride'], case['period']
    xs = list(range(40))
    ys = [(7 * x * x + 3 * x) % 11 - 5 for x in xs]
    p = Points(list(zip(xs, ys)))
    degrees = [round(GOLD ** (i * (stride + 1))) * base for i in range(count)]
    for name, got, want in (('harmonic', p.harmonic_smas(base, count, stride=stride, is_period=period), degrees),
                            ('centered', p.centered_macs(base, count, stride=stride, is_period=period), degrees[::-1])):
        rec.eq(len(got), count, f'{name} {case}')
        for c, d in zip(got, want):
            ref = p.sma(d, is_period=period)
            for x in range(0, 40, 3):
                rec.step()
                rec.eq(c.y(x), ref.y(x), f'{name} {case}: average of {d} at {x}')
            rec.eq(c.y(39), ref.y(39), f'{name} {case}: average of {d} at the end')


def util_case(rec):
    def flat(v):
        return [a for x in v for a in flat(x)] if isinstance(v, (list, tuple)) else [v]
    leaves = [1, None, 'text', 0.5, []]
    level = list(leaves)
    for depth in range(3):
        level = leaves + [list(c) for n in (1, 2) for c in itertools.product(level[:7] if depth else level, repeat=n)]
        for v in level:
            if isinstance(v, list):
                rec.step()
                rec.eq(util.flatten(v), flat(v), f'flatten({v})')
                rec.eq(util.flatten(tuple(v)), flat(v), f'flatten of tuple {v}')
    rec.eq(util.flatten([{'a': 1}, [{'b': 2}]]), [{'a': 1}, {'b': 2}], 'flatten mappings')
    for a in ({}, {'a': 1}, {'a': 1, 'b': 2}):
        for b in (None, {}, {'a': 3}, {'c': 4}):
            for c in (None, {}, {'a': 5, 'c': 6}):
                want = dict(a)
                for o in (b, c):
                    want.update(o or {})
                first = dict(a)
                rec.step()
                rec.true(util.extend(first, b, c) == want, f'extend({a}, {b}, {c})')
                rec.true(first == a, f'extend({a}, {b}, {c}) leaves the first as it is')
                rec.true(util.extend(first, [b, [c]], in_place=True) is first and first == want, f'extend({a}, {b}, {c}) in place')
    rec.true(util.extend(None, {'a': 1}) == {'a': 1}, 'extend nothing')
    sigs = {'lambda: 0': 0, 'lambda a: 0': 1, 'lambda a, b: 0': 2, 'lambda a, b=1: 0': 2, 'lambda *a: 0': 0, 'lambda a, *b: 0': 1, 'lambda a, *, b=1: 0': 1,
            'lambda a, /, b: 0': 2, 'lambda a, b, c: 0': 3, 'lambda a, **k: 0': 1}
    for s, n in sigs.items():
        rec.eq(util.count_positional_args(eval(s)), n, f'parameters of {s}')
    rec.eq(util.count_positional_args(max), 1, 'parameters of a builtin')
    rec.eq(util.count_positional_args(max, default=2), 2, 'parameters of a builtin by default')

    class A:
        def f(self, a, b):
            pass
    rec.eq(util.count_positional_args(A().f), 2, 'parameters of a method')


def run_item(item, rec):
    kind = item[0]
    if kind == 'steps':
        xs, j = item[1], item[2]
        ys = pattern(len(xs), j)
        for u in (False, True):
            if not u or is_regular(xs):
                rec.run({'kind': kind, 'xs': xs, 'ys': ys, 'uniform': u})
    elif kind == 'functions':
        rec.run({'kind': kind, 'step': item[1]})
    elif kind == 'same':
        rec.run({'kind': kind, 'pair': item[1]})
    elif kind == 'refused':
        rec.run({'kind': kind, 'option': item[1]})
    elif kind == 'constant':
        for n in range(2, 5 if item[2] == 'quick' else 6):
            for vs in itertools.product([2, -1, 0], repeat=n):
                for k in CHANGING:
                    if 'sine' in k and item[1] in ('average of sum', 'trailing', 'area'):
                        # Sines have no points: every smallest step is visited
                        continue
                    rec.run({'kind': kind, 'derived': item[1], 'curve': k, 'values': list(vs)})
    elif kind == 'limits':
        for own, other in itertools.product([0.25, 0.5, 1, 2], repeat=2):
            rec.run({'kind': kind, 'curve': item[1], 'steps': [own, other]})
    elif kind == 'aggregate':
        for n in (1, 2, 3):
            for ops in itertools.product(['list', 'line', 'number', 'function', 'short'], repeat=n):
                rec.run({'kind': kind, 'ops': list(ops)})
    elif kind == 'golden':
        for base, count, stride, period in itertools.product([1, 2, 3, 4], range(1, 6), [0, 1, 2], [False, True]):
            rec.run({'kind': kind, 'base': base, 'count': count, 'stride': stride, 'period': period})
    else:
        rec.run({'kind': kind})


def check_case(case, rec):
    kind = case['kind']
    if kind == 'steps':
        steps_case(case, rec)
    elif kind == 'functions':
        functions_case(case, rec)
    elif kind == 'same':
        same_case(case, rec)
    elif kind == 'refused':
        refused_case(case, rec)
    elif kind == 'constant':
        constant_case(case, rec)
    elif kind == 'limits':
        limits_case(case, rec)
    elif kind == 'generic':
        generic_case(rec)
    elif kind == 'aggregate':
        aggregate_case(case, rec)
    elif kind == 'golden':
        golden_case(case, rec)
    else:
        util_case(rec)
    rec.state(json.dumps(case))
    rec.outcome(json.dumps(case))
