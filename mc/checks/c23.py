"""C23 - regression lines, minima and maxima."""
import itertools
import json
import math
from fractions import Fraction
from curvepy import Constant, Curve, Generic, Line, Points
from curvepy.sin import Sin
from intervalpy import Interval
from mc.ref import LIN, MODES, interp, pattern

PROPERTY = 'C23'
BOUNDS = {
    'quick': 'regression: every list of 1..4 values out of 4 (one missing) over 6 scales of positions, sampled as a whole, over 5 domains and by steps; '
             'lists of 5..40 points; derived curves; minima: every list of 1..5 values out of 4 and every start at and between points, '
             'both directions, also by steps; lists of up to 30 points',
    'thorough': 'lists of up to 5 values for the regression, 6 for minima',
}
ASSUMPTIONS = ['from a maximum with equal slopes either side may be taken', 'where the curve is level on the way, only termination is checked']
VALUES = [0, 1, -2, 3.5]
SCALES = {'plain': (0, 1), 'half': (-3, 0.5), 'neg': (-1000, 7), 'minutes': (1583020800, 60), 'days': (1583020800, 86400), 'tiny': (0, 1e-3), 'odd': (0, None)}
ODD = [0, 1, 2.5, 3, 7, 8, 8.25, 9, 12, 12.5]


def position(scale, i):
    o, s = SCALES[scale]
    return o + i * s if s else (ODD[i] if i < len(ODD) else 13 + i)


def items(tier):
    n = 4 if tier == 'quick' else 5
    out = [['reg', s, k] for s in SCALES for k in range(1, n + 1)]
    out += [['reglong', s, k] for s in SCALES for k in (5, 12, 40)]
    out += [['regtree', k] for k in range(4)]
    m = 5 if tier == 'quick' else 6
    out += [['min', k, list(first)] for k in range(1, m + 1) for first in (itertools.product([0, 1, 2, 4], repeat=2) if k > 2 else [()])]
    out += [['minlong', k] for k in range(6)] + [['minsin', k] for k in range(4)]
    return out


def run_item(item, rec):
    kind = item[0]
    if kind == 'reg':
        for ys in itertools.product(VALUES + [None], repeat=item[2]):
            if ys.count(None) <= 1:
                rec.run({'kind': 'reg', 'scale': item[1], 'ys': list(ys)})
    elif kind == 'reglong':
        for k in range(5):
            rec.run({'kind': 'reg', 'scale': item[1], 'ys': pattern(item[2], k)})
    elif kind == 'regtree':
        rec.run({'kind': 'regtree', 'k': item[1]})
    elif kind == 'min':
        n = item[1]
        for rest in itertools.product([0, 1, 2, 4], repeat=n - len(item[2])):
            ys = item[2] + list(rest)
            for xs in ('even', 'odd'):
                rec.run({'kind': 'min', 'xs': xs, 'ys': ys})
    elif kind == 'minlong':
        for n in (9, 17, 30):
            for xs in ('even', 'odd'):
                rec.run({'kind': 'min', 'xs': xs, 'ys': pattern(n, item[1])})
    else:
        rec.run({'kind': 'minsin', 'k': item[1]})


def least_squares(ps):
    """Exact slope and value at the mean position."""
    n = len(ps)
    xs = [Fraction(p[0]) for p in ps]
    ys = [Fraction(p[1]) for p in ps]
    mx, my = sum(xs) / n, sum(ys) / n
    sxx = sum((x - mx) ** 2 for x in xs)
    sxy = sum((x - mx) * (y - my) for x, y in zip(xs, ys))
    return sxy / sxx, mx, my


def compare(line, ps, rec, what):
    rec.step()
    if len(ps) < 2 or any(p[1] is None for p in ps):
        rec.eq(line, None, what + ': there is none')
        return
    rec.true(isinstance(line, Line), what + f' is {line!r}')
    m, mx, my = least_squares(ps)
    size = max(abs(p[1]) for p in ps) or 1
    width = ps[-1][0] - ps[0][0]
    got = [line.y(p[0]) for p in ps]
    rec.eq(got, [float(my + m * (Fraction(p[0]) - mx)) for p in ps], what + ': values at the points', rel=1e-6, abs_=size * 1e-6)
    rec.eq(line.slope * width, float(m * Fraction(width)), what + ': slope', rel=1e-6, abs_=size * 1e-6)
    rec.outcome(str([round(v, 6) for v in got]))


def check_reg(case, rec):
    ys = case['ys']
    n = len(ys)
    xs = [position(case['scale'], i) for i in range(n)]
    ps = list(zip(xs, ys))
    regular = case['scale'] != 'odd'
    for u in ((False, True) if regular else (False,)):
        p = Points(ps, uniform=u)
        what = f'{case["scale"]} {ys}'
        compare(p.regression(), ps, rec, f'regression of {what}')
        w = SCALES[case['scale']][1] or 1
        if case['scale'] == 'tiny':
            continue
        for a, b in ((0, 1), (0, 2), (1, 3), (1, 2.5), (-1, n + 1)):
            ia, ib = xs[0] + a * w, xs[0] + b * w
            part = [(x, y) for x, y in ps if ia <= x <= ib]
            compare(p.regression(Interval(ia, ib)), part, rec, f'regression of {what} from {ia} to {ib}')
            step = w / 2
            lo, hi = max(ia, xs[0]), min(ib, xs[-1])
            part = []
            x = lo
            while x <= hi:
                part.append((x, interp(xs, ys, x, LIN)))
                x += step
            if lo <= hi:
                compare(p.regression(Interval(ia, ib), step=step), part, rec, f'regression of {what} from {ia} to {ib} by {step}')
    rec.state(json.dumps(case))


def check_regtree(case, rec):
    ys = pattern(9, case['k'])
    for xs in (list(range(9)), ODD[:9]):
        ps = list(zip(xs, ys))
        p = Points(ps, uniform=False)
        for name, c in (('doubled', p * 2), ('moved', p.offset(3)), ('sum', p + Line(const=1, slope=2)), ('mapped', p.map(lambda x, y: y * y - x))):
            sampled = [tuple(q) for q in c.sample_points()]
            compare(c.regression(), sampled, rec, f'regression of {name} {ps}')
        f = p.regression()
        m, mx, my = least_squares(ps)
        rec.eq((p + Line(const=1, slope=2)).regression().slope, f.slope + 2, f'{ps} plus a line', rel=1e-6)
        rec.eq((p * 3).regression().slope, f.slope * 3, f'{ps} times 3', rel=1e-6, abs_=1e-6)
        rec.eq((p - f).regression().slope, 0, f'{ps} minus its regression', abs_=1e-6)
        g = Generic(lambda x: 3 * x + 1, domain=(0, 4))
        rec.eq(g.regression(step=0.5).slope, 3, 'regression of a function', rel=1e-6)
        rec.eq(Line(const=2, slope=-1).regression(Interval(0, 5)).y(9), -7, 'regression of a line', rel=1e-6)
        rec.eq([Curve.empty().regression(), Points([]).regression()], [None, None], 'regression of nothing')
    rec.state(json.dumps(case))


def downhill(xs, ys, x):
    """Positions where walks down from x may end (None: at an end of the curve); or 'level'."""
    n = len(xs)
    if x < xs[0] or x > xs[-1]:
        return {None}
    if n == 1:
        return {x}
    if x in xs:
        i = xs.index(x)
        before = None if i == 0 else (ys[i] - ys[i - 1]) / (xs[i] - xs[i - 1])
        after = None if i == n - 1 else (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])
    else:
        i = next(k for k in range(n) if xs[k] > x)
        before = after = (ys[i] - ys[i - 1]) / (xs[i] - xs[i - 1])
        i -= 0 if before < 0 else 1
        if before == 0:
            return 'level'
        return walk(xs, ys, i, 1 if before < 0 else -1)
    if before == 0 or after == 0:
        return 'level'
    if before is None:
        return walk(xs, ys, i, 1) if after < 0 else {None}
    if after is None:
        return walk(xs, ys, i, -1) if before > 0 else {None}
    if before < 0 < after:
        return {x}
    if before > 0 > after:
        if abs(abs(before) - abs(after)) < 1e-9:
            a, b = walk(xs, ys, i, 1), walk(xs, ys, i, -1)
            return 'level' if 'level' in (a, b) else a | b
        return walk(xs, ys, i, 1 if abs(before) < abs(after) else -1)
    return walk(xs, ys, i, 1 if after < 0 else -1)


def walk(xs, ys, i, d):
    while True:
        j = i + d
        if j < 0 or j >= len(xs):
            return {None}
        if ys[j] == ys[i]:
            return 'level'
        if ys[j] > ys[i]:
            return {xs[i]}
        i = j


def check_min(case, rec):
    ys = case['ys']
    n = len(ys)
    xs = [i if case['xs'] == 'even' else position('odd', i) for i in range(n)]
    p = Points(list(zip(xs, ys)), uniform=False)
    q = Points(list(zip(xs, [-y for y in ys])), uniform=False)
    starts = sorted(set(xs + [a + (b - a) * u for a, b in zip(xs, xs[1:]) for u in (0.25, 0.75)] + [xs[0] - 1, xs[-1] + 1]))
    for x in starts:
        want = downhill(xs, ys, x)
        for name, f in (('minimise', lambda **k: p.minimise(x, **k)), ('maximise of the negative', lambda **k: q.maximise(x, **k)),
                        ('minimise of twice', lambda **k: (p * 2).minimise(x, **k))):
            rec.step()
            got = f(max_iterations=60)
            far = f(min_step=1.75, max_iterations=60)
            rec.true(far is None or xs[0] <= far <= xs[-1], f'{name} from {x} by at least 1.75 over {xs} {ys}: {far}')
            if want == 'level':
                rec.true(got is None or xs[0] <= got <= xs[-1], f'{name} from {x} over {xs} {ys}: {got}')
            else:
                rec.true(got in want, f'{name} from {x} over {xs} {ys}: got {got}, expected one of {want}')
            if want != 'level' and None not in want and len(want) == 1 and n > 1:
                m = list(want)[0]
                i = xs.index(m)
                for step in (0.25, 0.5):
                    if xs[i + 1] - m <= step or m - xs[i - 1] <= step:
                        continue
                    # Slopes are taken between points, values at the steps
                    got = f(step=step, max_iterations=200)
                    rec.true(got is not None and abs(got - m) <= step + 1e-9, f'{name} from {x} by {step} over {xs} {ys}: got {got}, expected {m}')
    rec.state(json.dumps(case))
    rec.outcome(str([str(downhill(xs, ys, x)) for x in starts]))


def check_minsin(case, rec):
    period = (2, 5, 7.5, 10)[case['k']]
    s = Sin(amplitude=2, period=period)
    for x in [i * period / 16 for i in range(-20, 21)]:
        for name, f, value in (('minimise', s.minimise, -2), ('maximise', s.maximise, 2)):
            rec.step()
            step = period / 64
            got = f(x, step=step)
            top = (0.75 if value < 0 else 0.25) * period
            off = (got - top) % period
            rec.true(min(off, period - off) <= step * 1.001, f'{name} of a sine by {period} from {x}: {got}')
            rec.true(abs(got - x) <= period / 2 + step * 1.001, f'{name} of a sine by {period} from {x}: {got} is not the nearest')
    g = Generic(lambda x: (x - period) ** 2, domain=(-20, 20))
    for x in range(-20, 21):
        got = g.minimise(x, step=0.5) if -20 < x < 20 else period
        rec.true(abs(got - period) <= 0.5 + 1e-9, f'minimise of a parabola at {period} from {x}: {got}')
    rec.eq([Line(const=1, slope=2).minimise(-21.5, step=1, max_iterations=30) is not None, Constant(2).minimise(1, step=1, max_iterations=9) is not None], [True, True], 'walks end')
    rec.state(json.dumps(case))


def check_case(case, rec):
    globals()['check_' + case['kind']](case, rec)
