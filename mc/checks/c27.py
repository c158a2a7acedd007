"""C27 - reading a curve is pure: results do not depend on earlier reads, and nothing is announced."""
import itertools
import json
from curvepy import Points, Curve, Line, Constant
from curvepy.trend import Trend
from curvepy.sin import Sin
from intervalpy import Interval
from mc.ref import is_regular
from mc.trees import U, B

PROPERTY = 'C27'
BOUNDS = {
    'quick': 'every sequence of 2 reads out of 25 of 48 derived curves over 7 curves of points (uniform and not), and of 18 derived curves '
             'over 2 pairs; every sequence of 3 reads out of 9 over 2 curves; every derived curve of a derived curve (39 x 39) with every '
             'pair of 5 reads',
    'thorough': 'every sequence of 3 reads out of 25',
}
ASSUMPTIONS = ['lists of points are cleared after they are read', 'a read which raises raises the same kind of exception whatever was read before']
BASES = {
    'even': ([0, 1, 2, 3, 4], [1, -1, 2, 0.5, 3]),
    'uneven': ([0, 1, 2.5, 3, 4.25], [2, 0, -1, 3, 1]),
    'hole': ([0, 1, 2, 3, 4], [1, 2, None, 1, -2]),
    'short': ([0, 1], [1, 3]),
    'single': ([2], [1]),
    'hole at end': ([0, 1, 2], [1, 2, None]),
    'empty': ([], []),
}
OTHER = ([0, 1.5, 2, 4], [1, -1, 2, 0])


def reads():
    out = {}
    for x in (-1, 0, 0.5, 2, 2.75, 4, 7):
        out[f'y({x})'] = lambda c, x=x: c.y(x)
    for x in (0, 1.25, 3):
        out[f'x_next({x})'] = lambda c, x=x: c.x_next(x)
        out[f'x_previous({x})'] = lambda c, x=x: c.x_previous(x)
    out['x_next(0,min_step)'] = lambda c: c.x_next(0, min_step=1.5)
    out['d_y(2)'] = lambda c: c.d_y(2)
    out['d_y(1,forward)'] = lambda c: c.d_y(1, forward=True)
    out['domain'] = lambda c: [c.domain.start, c.domain.end, c.domain.start_open, c.domain.end_open]
    out['first'] = lambda c: c.first_point()
    out['last'] = lambda c: c.last_point()
    out['ends'] = lambda c: [c.y_start(), c.y_end()]
    out['all'] = lambda c: points(c, None, {'min_step': 0.25})
    out['part'] = lambda c: points(c, Interval(0.5, 3), {'min_step': 0.25})
    out['open part'] = lambda c: points(c, Interval(1, 3, start_open=True, end_open=True), {'min_step': 0.25})
    out['steps'] = lambda c: points(c, Interval(0, 4), {'step': 0.5})
    out['range'] = lambda c: span(c)
    out['walk'] = lambda c: taken(c.sample_points_from_x(3, 3, backward=True, min_step=0.25))
    return out


def points(c, domain, kw):
    return taken(c.sample_points(domain=domain, **kw))


def taken(points):
    # The list belongs to the caller
    out = [list(p) for p in points]
    points.clear()
    return out


def span(c):
    r = c.get_range(Interval(0, 3), min_step=0.5)
    return [r.is_empty] if r.is_empty else [r.start, r.end]


READS = reads()
NO_POINTS = ['piece', 'blend', 'subset', 'extc', 'exte', 'extt', 'extts', 'exttr', 'exts', 'first', 'min1']
SCANS = ['integral', 'integralp', 'ema', 'emap', 'sma2', 'sma3', 'smap', 'smma', 'tmin', 'tmax', 'amap', 'extrema', 'emastep', 'amapstep', 'extremastep', 'macd', 'offint']
FEW = ['y(2.75)', 'y(7)', 'y(-1)', 'all', 'part', 'x_next(1.25)', 'd_y(2)', 'last', 'domain']
FEWER = ['y(2.75)', 'all', 'd_y(2)', 'x_previous(3)', 'y(7)']


def items(tier):
    out = []
    for t in U:
        for b in BASES:
            for u in (False, True):
                if u and not is_regular(BASES[b][0]):
                    continue
                out.append(['one', t, b, u])
    for t in B:
        for b in ('even', 'uneven'):
            out.append(['two', t, b, False])
    if tier == 'quick':
        for t in U:
            for b in ('even', 'uneven'):
                out.append(['three', t, b, b == 'even'])
    for t in U:
        out.append(['stacked', t, 'even', True])
        out.append(['stacked', t, 'uneven', False])
    return [[*i, tier] for i in out]


def run_item(item, rec):
    kind, t, b, u, tier = item
    if kind == 'stacked':
        for t2 in U:
            if t in NO_POINTS and t2 in SCANS:
                continue
            for first in FEWER[:3] if tier == 'quick' else FEWER:
                then = [n for n in FEWER if n != first]
                rec.run({'kind': kind, 'tree': t, 'over': t2, 'base': b, 'uniform': u, 'first': [first], 'then': then})
        return
    names = FEW if kind == 'three' else list(READS)
    n = 1 if tier == 'quick' and kind != 'three' else 2
    for first in itertools.product(names, repeat=n):
        rec.run({'kind': kind, 'tree': t, 'base': b, 'uniform': u, 'first': list(first), 'then': names})


def build(case):
    xs, ys = BASES[case['base']]
    u = case['uniform']
    p = Points(list(zip(xs, ys)), uniform=u)
    if case['kind'] == 'two':
        q = Points(list(zip(*OTHER)), uniform=False)
        return B[case['tree']](p, q, u)
    c = U[case['tree']](p, u)
    if 'over' in case:
        c = U[case['over']](c, u)
    return c


def result(c, name):
    try:
        return READS[name](c)
    except Exception as e:
        return f'raises {type(e).__name__}'


fresh_results = {}


def fresh(case, name):
    key = (case['kind'], case['tree'], case.get('over'), case['base'], case['uniform'], name)
    if key not in fresh_results:
        fresh_results[key] = result(build(case), name)
    return fresh_results[key]


def check_case(case, rec):
    told = []
    for last in case['then']:
        c = build(case)
        c.add_observer(begin=lambda d: told.append(d), end=lambda d: told.append(d))
        seq = case['first'] + [last]
        for i, name in enumerate(seq):
            rec.step()
            got = result(c, name)
            rec.eq(got, fresh(case, name), f'{case.get("over", "")} {case["tree"]} over {case["base"]}: {name} after {seq[:i]}')
        rec.eq(told, [], f'{case.get("over", "")} {case["tree"]} over {case["base"]}: reading {seq} announces nothing')
    rec.state(json.dumps(case))
    rec.outcome(str([fresh(case, n) for n in case['then']]))
