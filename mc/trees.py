"""Named derived curves, built from one or two base curves (used by several checks)."""
from curvepy import Curve, Points, Line, Constant
from curvepy.piecewise import Piecewise
from curvepy.extremas import Extremas
from intervalpy import Interval

U = {
    # name: builder(curve, uniform)
    'id': lambda c, u: c,
    'neg': lambda c, u: -c,
    'abs': lambda c, u: abs(c),
    'add2': lambda c, u: c + 2,
    'rsub': lambda c, u: 3 - c,
    'mul': lambda c, u: c * 2,
    'div': lambda c, u: c / 4,
    'pow': lambda c, u: c ** 2,
    'line': lambda c, u: c + Line(const=1, slope=2),
    'sq': lambda c, u: c * c,
    'diamond': lambda c, u: c * 2 + c * 3,
    'max0': lambda c, u: Curve.max([c, 0], ignore_empty=False),
    'min1': lambda c, u: Curve.min([c, 1], ignore_empty=True),
    'first': lambda c, u: Curve.first([c, Constant(9)]),
    'map': lambda c, u: c.map(lambda x, y: None if y is None else y + x),
    'off1': lambda c, u: c.offset(1),
    'off-.5': lambda c, u: c.offset(-0.5),
    'diff': lambda c, u: c.differential(),
    'fdiff': lambda c, u: c.differential(forward=True),
    'integral': lambda c, u: c.integral(const=1, uniform=u),
    'integralp': lambda c, u: c.integral(interpolation=-1, uniform=u),
    'ema': lambda c, u: c.ema(0.5, uniform=u),
    'emap': lambda c, u: c.ema(2, is_period=True, uniform=u),
    'sma2': lambda c, u: c.sma(2, uniform=u),
    'sma3': lambda c, u: c.sma(3, uniform=u),
    'smap': lambda c, u: c.sma(2, is_period=True, uniform=u),
    'smma': lambda c, u: c.smma(2, uniform=u),
    'tmin': lambda c, u: c.trailing_min(2, uniform=u),
    'tmax': lambda c, u: c.trailing_max(2, is_period=True, uniform=u),
    'amap': lambda c, u: c.accumulator_map(lambda x, ys: sum(y for y in ys if y is not None), 3, interpolation=-1, uniform=u),
    'emastep': lambda c, u: c.ema(0.5, min_step=2, uniform=u),
    'amapstep': lambda c, u: c.trailing_max(2, min_step=1.25, interpolation=1, uniform=u),
    'extremastep': lambda c, u: Extremas(c, Constant(1.5), min_step=1.5),
    'extc': lambda c, u: c.extension('constant', start=True, end=True),
    'exte': lambda c, u: c.extension('constant'),
    'extt': lambda c, u: c.extension('tangent'),
    'extts': lambda c, u: c.extension('tangent', start=True, end=True),
    'exttr': lambda c, u: c.extension('tangent', regression_degree=2),
    'exts': lambda c, u: c.extension('sin', period=5),
    'piece': lambda c, u: Piecewise([c, Constant(5)], Interval(-10, 10).partition([1.5])),
    'blend': lambda c, u: c.blend(Line(const=0, slope=1), 1, 2),
    'subset': lambda c, u: c.subset(Interval(1, 3)),
    'extrema': lambda c, u: Extremas(c, Constant(1.5)),
    # several paths to the same curve, along which different regions change
    'selfoff': lambda c, u: c + c.offset(1),
    'selfoff-': lambda c, u: c.offset(-1.5) - c,
    'selfdiff': lambda c, u: c.differential() + c,
    'macd': lambda c, u: c.ema(0.5, uniform=u) - c.sma(2, uniform=u),
    'offint': lambda c, u: (c + c.offset(1)).integral(uniform=u),
    'offfirst': lambda c, u: Curve.first([c, c.offset(2)]),
}

# binary trees over two base curves
B = {
    'p+q': lambda p, q, u: p + q,
    'p-q': lambda p, q, u: p - q,
    'p*q': lambda p, q, u: p * q,
    'p/q': lambda p, q, u: p / q,
    'max': lambda p, q, u: Curve.max([p, q], ignore_empty=True),
    'min': lambda p, q, u: Curve.min([p, q], ignore_empty=False),
    'first': lambda p, q, u: Curve.first([p, q]),
    'intsum': lambda p, q, u: (p + q).integral(uniform=u),
    'sumint': lambda p, q, u: p.integral(uniform=u) + q.integral(uniform=u),
    'emainit': lambda p, q, u: p.ema(0.5, init=q, uniform=u),
    'offsum': lambda p, q, u: p.offset(1) + q,
    'smaq': lambda p, q, u: (p * q).sma(2, uniform=u),
    'tminq': lambda p, q, u: Curve.min([p, q], ignore_empty=True).trailing_min(2, uniform=u),
    'piece': lambda p, q, u: Piecewise([p, q], Interval.closed(0, 4).partition([2])),
    'extrema': lambda p, q, u: Extremas(p, q),
    'intdiff': lambda p, q, u: p.integral(uniform=u) - q.offset(-1),
    'p+sum': lambda p, q, u: p + (p + q),
    'extq': lambda p, q, u: p.extension('constant') + q.extension('tangent'),
}
