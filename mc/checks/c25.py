"""C25 - fault injection: a user function which fails at its k-th call, for every k."""
import json
from curvepy import Points, Curve, Constant
from curvepy.accumulator import Accumulator
from curvepy.aggregate import Aggregate
from curvepy.extremas import Extremas
from curvepy.generic import Generic
from curvepy.trend import Trend
from intervalpy import Interval
from mc.trees import U, B
from mc.checks.c27 import BASES, READS, NO_POINTS, SCANS

PROPERTY = 'C25'
BOUNDS = {
    'quick': '48 derived curves and 8 curves with own functions over a function of 3 curves of points, and 18 derived curves over two such functions, '
             'x 6 reads x every call of the function during the read failing; then 8 reads, also after a point was appended; the same for '
             '3 reads of 48 x 48 stacked derived curves; every call during 3 reads of 5 trends; 10 refused edits under 48 derived curves',
    'thorough': 'all 6 reads of the stacked curves over 2 curves of points, and two failures in a row',
}
ASSUMPTIONS = ['the function fails once (or twice in a row) and answers the next time it is called']


class Fault(Exception):
    pass


class Flaky:
    """A function whose k-th call from now on fails."""

    def __init__(self):
        self.left = None
        self.fired = False

    def hit(self):
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                self.left = None
                self.fired = True
                raise Fault()

    def over(self, c):
        def value(x, y):
            self.hit()
            return y
        return c.map(value)

    def wrap(self, f):
        def call(*args):
            self.hit()
            return f(*args)
        return call






OWN = {
    'map': lambda c, fl: c.map(lambda x, y: (fl.hit(), y)[1]),
    'generic': lambda c, fl: Generic(lambda x: (fl.hit(), c.y(x))[1], domain=c.domain),
    'accumulator': lambda c, fl: Accumulator(c, lambda x, y, last: (fl.hit(), (last or 0) + (y or 0))[1], uniform=False),
    'amap': lambda c, fl: c.accumulator_map(lambda ys: (fl.hit(), sum(y or 0 for y in ys))[1], 2, uniform=False),
    'aggregate': lambda c, fl: Aggregate([c, c.offset(1)], tfm=lambda x, ys: (fl.hit(), ys[0])[1]),
    'ema of init': lambda c, fl: c.ema(0.5, init=fl.over(c), uniform=False),
    'extrema of ref': lambda c, fl: Extremas(c, fl.over(c.sma(2, uniform=False))),
    'window twice': lambda c, fl: c.accumulator_map(lambda x, ys: (fl.hit(), ys[-1])[1], 3, uniform=False).accumulator_map(
        lambda ys: (fl.hit(), ys[-1])[1], 2, uniform=False),
}
FIRST = ['y(2.75)', 'all', 'd_y(2)', 'y(7)', 'domain', 'walk']
AFTER = ['y(2.75)', 'y(0.5)', 'all', 'y(7)', 'd_y(2)', 'x_next(1.25)', 'x_previous(3)', 'domain']
DATA = {'uneven': BASES['uneven'], 'even': BASES['even'], 'hole': BASES['hole']}


TRENDS = [
    [2, 1, 2, 1, 2, 1, 3, 1, 2], [1, 1, 1, 2, 1, 0, 1], [3, 2, 1, 2, 1, 2, 1, 0], [0, 1, 2, 3, 2, 4, 2, 5, 3], [20, 19, 20, 19, 20, 19, 21, 20, 23],
]
# edits which are refused: curve of points (uniform or not) -> arguments
REJECT = [
    ('append at the end', lambda p: p.append((p.domain.end, 1))),
    ('append before', lambda p: p.append((-1, 1))),
    ('append_list overlapping', lambda p: p.append_list([(3, 1), (9, 1)])),
    ('replace outside', lambda p: p.replace((9, 1))),
    ('replace before', lambda p: p.replace((-1, 1))),
    ('append irregularly', lambda p: p.is_uniform and p.append((4.5, 1))),
    ('append_list irregularly', lambda p: p.is_uniform and p.append_list([(5, 1), (7, 1)])),
    ('replace between', lambda p: p.is_uniform and p.replace((1.5, 1))),
    ('replace_or_append irregularly', lambda p: p.is_uniform and p.replace((7.5, 1), or_append=True)),
    ('set irregularly', lambda p: p.is_uniform and p.set([(0, 1), (1, 2), (5, 3)])),
]


def items(tier):
    out = []
    for b in DATA:
        out += [['own', t, b] for t in OWN]
        out += [['tree', t, b] for t in U]
    out += [['two', t, 'uneven'] for t in B]
    out += [['trend', i, 'flat'] for i in range(len(TRENDS))]
    out += [['reject', t, b] for t in U for b in ('even', 'uneven')]
    out += [['stacked', t, 'uneven'] for t in U]
    if tier == 'thorough':
        out += [['stacked', t, 'even'] for t in U]
    return [[*i, tier] for i in out]


def run_item(item, rec):
    kind, t, b, tier = item
    if kind == 'trend':
        for first in (2, 4, 100):
            k = 1
            case = {'fired': True}
            while case['fired'] and k < 200:
                case = {'kind': kind, 'trend': t, 'first': first, 'k': k}
                if not rec.run(case):
                    break
                k += 1
        return
    if kind == 'reject':
        for name, _ in REJECT:
            for read in (False, True):
                rec.run({'kind': kind, 'tree': t, 'over': None, 'base': b, 'edit': name, 'read': read})
        return
    for first in FIRST[:3] if kind == 'stacked' and tier == 'quick' else FIRST:
        for over in (U if kind == 'stacked' else [None]):
            if over in SCANS and t in NO_POINTS:
                continue
            k = 1
            while k < 60:
                case = {'kind': kind, 'tree': t, 'over': over, 'base': b, 'first': first, 'k': k, 'again': tier == 'thorough'}
                if not rec.run(case) or not case['fired']:
                    break
                k += 1
    rec.outcome(json.dumps(item))


def points(b):
    return Points(list(zip(*DATA[b])), uniform=False)


def build(case, fl):
    p = points(case['base'])
    if case['kind'] == 'own':
        return p, OWN[case['tree']](p, fl)
    if case['kind'] == 'two':
        q = Points([(0, 1), (1.5, -1), (2, 2), (4, 0)], uniform=False)
        return p, B[case['tree']](fl.over(p), fl.over(q), False)
    c = U[case['tree']](fl.over(p), False)
    if case['over']:
        c = U[case['over']](c, False)
    return p, c


def result(c, name):
    try:
        return READS[name](c)
    except Fault:
        raise
    except Exception as e:
        return f'raises {type(e).__name__}'


good = {}


def expected(case, edited):
    key = (case['kind'], case['tree'], case['over'], case['base'], edited)
    if key not in good:
        out = {}
        for name in set(AFTER + FIRST):
            p, c = build(case, Flaky())
            if edited:
                p.append((6, 2.5))
            out[name] = result(c, name)
        good[key] = out
    return good[key]


def lines(t):
    t(100)
    return [[l.is_upper_trend, [list(p) for p in l.trend_points], [list(p) for p in l.intersections], l.prediction_phase, [list(p) for p in l.tangent_points],
             [list(p) for p in l.extremas], l.search_interval.start, l.search_interval.end] for l in t.lines]


def check_trend(case, rec):
    ys = TRENDS[case['trend']]
    fl = Flaky()
    p = Points(list(enumerate(ys)))
    t = Trend(fl.over(p), 2)
    fl.left = case['k']
    try:
        t(case['first'])
    except Fault:
        pass
    fl.left = None
    rec.step()
    rec.eq(lines(t), lines(Trend(p, 2)), f'trend of {ys}: call {case["k"]} fails when read at {case["first"]}, then the lines')
    rec.state(json.dumps(case))
    case['fired'] = fl.fired


def check_reject(case, rec):
    xs, ys = BASES[case['base']]
    u = case['base'] == 'even'
    p = Points(list(zip(xs, ys)), uniform=u)
    c = U[case['tree']](p, u)
    told = []
    p.add_observer(begin=lambda d: told.append(d), end=lambda d: told.append(d))
    c.add_observer(begin=lambda d: told.append(d), end=lambda d: told.append(d))
    if case['read']:
        for name in AFTER:
            result(c, name)
    edit = dict(REJECT)[case['edit']]
    what = f'{case["tree"]} over {case["base"]}: {case["edit"]}'
    try:
        ret = edit(p)
    except Exception:
        ret = False
        rec.step()
    else:
        rec.true(ret is False, what + ' is refused')
    rec.eq(told, [], what + ' announces nothing')
    rec.true(not p.is_updating and not c.is_updating, what + ' leaves no update behind')
    rec.eq([list(q) for q in p.sample_points()], [list(q) for q in zip(xs, ys)], what + ' leaves the points alone')
    for name in AFTER:
        rec.step()
        fresh = U[case['tree']](Points(list(zip(xs, ys)), uniform=u), u)
        rec.eq(result(c, name), result(fresh, name), what + f', then {name}')
    rec.state(json.dumps(case))


def check_case(case, rec):
    if case['kind'] == 'trend':
        return check_trend(case, rec)
    if case['kind'] == 'reject':
        return check_reject(case, rec)
    what = f'{case["over"] or ""} {case["tree"]} over {case["base"]}: call {case["k"]} fails in {case["first"]}'
    fired = False
    for edited in (False, True):
        for after in ([AFTER, AFTER[::-1]] if not edited else [AFTER]):
            fl = Flaky()
            p, c = build(case, fl)
            n = 2 if case['again'] and not edited else 1
            for _ in range(n):
                fl.left, fl.fired = case['k'], False
                got = None
                try:
                    got = result(c, case['first'])
                except Fault:
                    got = 'fault'
                if fl.fired:
                    rec.eq(got, 'fault', what + ': the failure reaches the caller')
                fl.left = None
                if fl.fired:
                    fired = True
            if edited:
                p.append((6, 2.5))
            want = expected(case, edited)
            for name in after:
                rec.step()
                try:
                    got = result(c, name)
                except Fault:
                    rec.fail(what + f', then {name} fails as well')
                rec.eq(got, want[name], what + f', then{" a point appended, then" if edited else ""} {name}')
    rec.state(json.dumps(case))
    case['fired'] = fired
