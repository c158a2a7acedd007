"""C26 - slopes and differentials."""
import itertools
import json
import math
from curvepy import Constant, Curve, Generic, Line, Points
from intervalpy import Interval
from mc.ref import LIN, MODES, NEXT, PREV, interp, is_regular, pattern
from mc.trees import U, B
from mc.checks.c27 import BASES

PROPERTY = 'C26'
BOUNDS = {
    'quick': 'every list of 1..4 values out of 4 (one missing) at 5 spacings x 3 interpolations x uniform and not: slopes at, between, before and after the points '
             'in both directions by 4 smallest steps; differentials of differentials, of sums, products, offsets; integrals of differentials; '
             'the slope of 48 and 18 derived curves over 7 curves of points and of 17 without points by 5 smallest steps and 4 limits; lists of up to 30 points',
    'thorough': 'every list of up to 5 values',
}
ASSUMPTIONS = ['positions outside of derived curves and offsets by durations are not compared']
VALUES = [0, 1, -2, 3.5]
SPACINGS = {'even': lambda i: i, 'half': lambda i: -1 + i / 2, 'odd': lambda i: [0, 1, 2.5, 3, 7, 8.25][i % 6] + i // 6 * 10, 'far': lambda i: 1583020800 + 60 * i,
            'neg': lambda i: -100 + 10 * i}


G = lambda: Generic(lambda x: x * x - 3 * x, domain=(-1, 5))
SMOOTH = {
    'function': lambda: G(),
    'function by steps': lambda: Generic(lambda x: x * x, domain=(-1, 5), min_step=0.5),
    'offset': lambda: G().offset(1),
    'offset back': lambda: G().offset(-0.5),
    'offset of offset': lambda: G().offset(2).offset(-0.5),
    'sum': lambda: G() + G().offset(0.5),
    'offset of sum': lambda: (G() + Constant(3)).offset(1),
    'product with line': lambda: G() * Line(const=1, slope=2),
    'map': lambda: G().map(lambda x, y: x + y),
    'offset of map': lambda: G().map(lambda y: y * y).offset(-1),
    'max': lambda: Curve.max([G(), Constant(0)], ignore_empty=True),
    'first': lambda: Curve.first([G().subset((0, 2)), G()]),
    'subset': lambda: G().subset((0, 3)),
    'offset of subset': lambda: G().subset((0, 3)).offset(0.25),
    'map of line': lambda: Line(const=1, slope=2).map(lambda y: y * y),
    'offset of map of line': lambda: Line(const=1, slope=2).map(lambda y: y * y).offset(1),
    'offset of sum of lines': lambda: (Line(const=1, slope=2) * Line(const=1, slope=2)).offset(1),
}


def items(tier):
    n = 4 if tier == 'quick' else 5
    out = [['points', s, k, list(f)] for s in SPACINGS for k in range(1, n + 1) for f in (itertools.product(VALUES + [None], repeat=1))]
    out += [['long', s, k] for s in SPACINGS for k in range(4)]
    out += [['smooth', t] for t in SMOOTH]
    out += [['tree', t] for t in U] + [['tree2', t] for t in B]
    return out


def run_item(item, rec):
    kind = item[0]
    if kind == 'points':
        for rest in itertools.product(VALUES + [None], repeat=item[2] - 1):
            ys = item[3] + list(rest)
            if ys.count(None) <= 1:
                rec.run({'kind': 'points', 'spacing': item[1], 'ys': ys})
    elif kind == 'long':
        for n in (9, 30):
            rec.run({'kind': 'points', 'spacing': item[1], 'ys': pattern(n, item[2])})
    elif kind == 'smooth':
        rec.run({'kind': 'smooth', 'tree': item[1]})
    else:
        for b in BASES:
            rec.run({'kind': kind, 'tree': item[1], 'base': b})


def slope(xs, ys, mode, x, forward, m):
    """The slope to the next (previous) point which is at least m away."""
    y = interp(xs, ys, x, mode)
    if forward:
        i = next((i for i in range(len(xs)) if xs[i] >= x + m), None)
    else:
        i = next((i for i in reversed(range(len(xs))) if xs[i] <= x - m), None)
    if y is None or i is None or ys[i] is None:
        return None
    return (ys[i] - y) / (xs[i] - x)


def check_points(case, rec):
    ys = case['ys']
    n = len(ys)
    xs = [SPACINGS[case['spacing']](i) for i in range(n)]
    regular = is_regular(xs)
    w = xs[1] - xs[0] if n > 1 else 1
    at = sorted(set(xs + [a + (b - a) * u for a, b in zip(xs, xs[1:]) for u in (0.25, 0.75)] + [xs[0] - w / 4, xs[-1] + w / 4]))
    for mode in MODES:
        for u in ((False, True) if regular else (False,)):
            p = Points(list(zip(xs, ys)), interpolation=mode, uniform=u)
            what = f'{case["spacing"]} {ys} mode {mode} uniform {u}: '
            for forward in (False, True):
                d = p.differential(forward=forward)
                for m in (None, w / 2, w, w * 1.5):
                    rec.step()
                    kw = {} if m is None else {'min_step': m}
                    got = [p.d_y(x, forward=forward, **kw) for x in at]
                    rec.eq(got, [slope(xs, ys, mode, x, forward, m or 1e-5) for x in at], what + f'slopes at {at} forward={forward} {kw}')
                want = [slope(xs, ys, mode, x, forward, 1e-5) for x in at]
                rec.eq([d.y(x) for x in at], want, what + f'differential forward={forward} at {at}')
                rec.eq([d.domain.start, d.domain.end], [xs[0], xs[-1]], what + 'domain of the differential')
                rec.eq([list(q) for q in d.sample_points()], [[x, slope(xs, ys, mode, x, forward, 1e-5)] for x in xs], what + f'points of the differential forward={forward}')
                if mode == LIN:
                    first = [slope(xs, ys, mode, x, forward, 1e-5) for x in xs]
                    # the differential has values in between as well: slopes to the next point
                    dd = d.differential(forward=forward)
                    s2 = []
                    for i in range(n):
                        j = i + 1 if forward else i - 1
                        ok = 0 <= j < n and first[i] is not None and first[j] is not None
                        s2.append((first[j] - first[i]) / (xs[j] - xs[i]) if ok else None)
                    rec.eq([dd.y(x) for x in xs], s2, what + f'differential of the differential forward={forward}')
                    rec.eq([(p * 3).differential(forward=forward).y(x) for x in xs], [None if v is None else 3 * v for v in first], what + 'of three times')
                    if abs(xs[0]) < 1e6:
                        rec.eq([(p + Line(const=1, slope=2)).differential(forward=forward).y(x) for x in xs], [None if v is None else v + 2 for v in first], what + 'plus a line')
                    rec.eq([(p + p.map(lambda y: None if y is None else y * 2)).differential(forward=forward).y(x) for x in xs],
                           [None if v is None else 3 * v for v in first], what + 'of a sum')
                    rec.eq([p.offset(w / 2).differential(forward=forward).y(x + w / 2) for x in xs], first, what + 'of an offset', rel=1e-6)
            if None not in ys and n > 1:
                back = p.differential(forward=True).integral(const=ys[0], interpolation=PREV, uniform=u)
                rec.eq([back.y(x) for x in xs[:-1]], ys[:-1], what + 'integral of the differential', abs_=1e-6)
                back = p.differential().integral(const=0, interpolation=NEXT, uniform=u)
                got = [back.y(x) for x in xs]
                if None not in got[1:]:
                    rec.eq([b - a for a, b in zip(got[1:], got[2:])], [b - a for a, b in zip(ys[1:], ys[2:])], what + 'changes of the integral of the differential', abs_=1e-6)
    rec.state(json.dumps(case))
    rec.outcome(str([slope(xs, ys, LIN, x, True, 1e-5) for x in at]))


def definition(c, rec, what):
    dom = c.domain
    for x in (-1, 0, 0.5, 1, 2.5, 3, 4, 4.25):
        if not dom.contains(x):
            continue
        for forward in (False, True):
            for m in (None, 1e-3, 0.25, 0.75, 1.5):
                for limit in (None, 0.1, 0.4, 3):
                    rec.step()
                    kw = {} if m is None else {'min_step': m}
                    if limit is not None:
                        kw['limit'] = x + limit if forward else x - limit
                    x1 = (c.x_next if forward else c.x_previous)(x, **kw)
                    y, y1 = c.y(x), None if x1 is None else c.y(x1)
                    want = None if y is None or y1 is None else (y1 - y) / (x1 - x)
                    rec.eq(c.d_y(x, forward=forward, **kw), want, what + f'slope at {x} forward={forward} {kw}', rel=1e-6, abs_=1e-6)


def check_smooth(case, rec):
    definition(SMOOTH[case['tree']](), rec, f'{case["tree"]}: ')
    rec.state(json.dumps(case))


def check_tree(case, rec):
    xs, ys = BASES[case['base']]
    if None in ys and case['tree'] in ('tmin', 'tmax', 'amapstep'):
        return
    c = U[case['tree']](Points(list(zip(xs, ys)), uniform=False), False)
    definition(c, rec, f'{case["tree"]} over {case["base"]}: ')
    rec.state(json.dumps(case))


def check_tree2(case, rec):
    xs, ys = BASES[case['base']]
    q = Points([(0, 1), (1.5, -1), (2, 2), (4, 0)], uniform=False)
    c = B[case['tree']](Points(list(zip(xs, ys)), uniform=False), q, False)
    definition(c, rec, f'{case["tree"]} over {case["base"]}: ')
    rec.state(json.dumps(case))


def check_case(case, rec):
    globals()['check_' + case['kind']](case, rec)
