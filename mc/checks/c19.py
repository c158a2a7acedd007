"""C19 - extremas: the extreme points between crossings of a reference, and the lines joining them."""
import itertools
import json
import math
from curvepy import Points, Line, Constant
from curvepy.extremas import Extremas
from intervalpy import Interval
from mc.ref import LIN, interp

PROPERTY = 'C19'
BOUNDS = {
    'quick': 'every list of up to 4 points with 5 values (missing ones included) against 6 references x 4 deviations, of 5 points '
             'against 2 references with one deviation, of 7 points with 3 values against 2 references; each read in 6 orders, sampled over 9 intervals (also in 2 steps), and navigated '
             'from 20 positions (also up to limits)',
    'thorough': 'lists of up to 6 points with 5 values against all references and of 9 points with 3 values',
}
ASSUMPTIONS = ['extreme points are looked for at the points of the curve']
X = [0, 1, 2, 3.5, 5, 5.5, 7, 8, 9.25]
V5 = [-2, 0, 1, 3, None]
V3 = [0, 2, 3]


def ref_points():
    return Points([(0.5, 1), (2, 0), (4, None), (5, 2), (8, -1)], uniform=False)


REFS = {
    'zero': (lambda: Constant(0), lambda x: 0),
    'one': (lambda: Constant(1), lambda x: 1),
    'number': (lambda: -1, lambda x: -1),
    'line': (lambda: Line(const=-1.5, slope=1), lambda x: x - 1.5),
    'short': (lambda: Points([(1, 1), (3.5, 0.5)], uniform=False), lambda x: interp([1, 3.5], [1, 0.5], x, LIN)),
    'hole': (ref_points, lambda x: interp([0.5, 2, 4, 5, 8], [1, 0, None, 2, -1], x, LIN)),
}
DEVS = [0, 0.5, -1, 2]
DOMAINS = [None, [0, 9, 0, 0], [1, 5, 0, 0], [1, 5, 1, 1], [0.5, 4, 0, 0], [2, 2, 0, 0], [3, 9, 1, 0], [-5, 2, 0, 1], [20, 30, 0, 0]]
ORDERS = ['forward', 'backward', 'last', 'middle', 'sampled', 'navigated']


def items(tier):
    n5, n7 = (5, 7) if tier == 'quick' else (6, 9)
    out = []
    for ref in REFS:
        for n in range(1, n5 + 1):
            if tier == 'quick' and n == n5 and ref not in ('one', 'hole'):
                continue
            for head in itertools.product(V5, repeat=max(0, n - 4)):
                out.append(['five', ref, n, list(head)])
    for ref in ('one', 'line'):
        for head in itertools.product(V3, repeat=n7 - 5):
            out.append(['three', ref, n7, list(head)])
    return out


def run_item(item, rec):
    kind, ref, n, head = item
    vs = V5 if kind == 'five' else V3
    for tail in itertools.product(vs, repeat=n - len(head)):
        for dev in DEVS if kind == 'five' and n < 5 else DEVS[1:2] if kind == 'five' else DEVS[:1]:
            rec.run({'ys': head + list(tail), 'ref': ref, 'deviation': dev})


def extremes(xs, ys, ref, dev):
    """The extreme point of every run of points on one side of the reference, but for the last run."""
    runs = []
    for x, y in zip(xs, ys):
        r = ref(x)
        if y is None or r is None or abs(y - r) <= abs(dev) * abs(r):
            continue
        side = 1 if y > r else -1
        if runs and runs[-1][0] == side:
            if (y - runs[-1][2]) * side > 0:
                runs[-1] = (side, x, y)
        else:
            runs.append((side, x, y))
    return [(x, y) for _, x, y in runs[:-1]]


def check_case(case, rec):
    ys = case['ys']
    xs = X[:len(ys)]
    ref = REFS[case['ref']]
    ps = extremes(xs, ys, ref[1], case['deviation'])
    ex, ey = [p[0] for p in ps], [p[1] for p in ps]

    def want(x):
        return interp(ex, ey, x, LIN) if ex else None
    ask = sorted(xs + [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [-1, xs[-1] + 1, xs[-1] - 2 ** -18] + [x + 2 ** -18 for x in xs])
    values = [want(x) for x in ask]
    for order in ORDERS:
        what = f'extremas of {list(zip(xs, ys))} about {case["ref"]} (deviation {case["deviation"]}), read {order},'
        e = Extremas(Points(list(zip(xs, ys)), uniform=False), ref[0](), min_deviation=case['deviation'])
        if order == 'sampled':
            for d in DOMAINS:
                sampled(rec, e, d, xs, ex, want, what)
        elif order == 'navigated':
            navigated(rec, e, ask, ex, what)
        idx = list(range(len(ask)))
        if order == 'backward':
            idx.reverse()
        elif order == 'last':
            idx = idx[-2:] + idx
        elif order == 'middle':
            idx = idx[len(ask) // 2:] + idx[:len(ask) // 2]
        for i in idx:
            rec.eq(e.y(ask[i]), values[i], f'{what} at {ask[i]}')
        rec.step(len(idx))
        rec.eq([tuple(p) for p in e.extremas], ps, f'{what} extreme points')
        sampled(rec, e, None, xs, ex, want, what)
        navigated(rec, e, ask, ex, what)
    rec.eq([e.domain.start, e.domain.end], [xs[0], xs[-1]], f'{what} domain')
    rec.state(json.dumps(case))
    rec.outcome(str(ps))


def sampled(rec, e, d, xs, ex, want, what):
    a, b, ao, bo = (xs[0], xs[-1], 0, 0) if d is None else d
    inside = Interval(d[0], d[1], start_open=bool(d[2]), end_open=bool(d[3])) if d else None
    if a < xs[0]:
        a, ao = xs[0], 0
    if b > xs[-1]:
        b, bo = xs[-1], 0
    pts = []
    if a <= b:
        pos = sorted({x for x in ex if a < x < b} | ({a} if not ao else set()) | ({b} if not bo else set()))
        pts = [(x, want(x)) for x in pos if want(x) is not None]
    rec.eq([tuple(p) for p in e.sample_points(domain=inside)], pts, f'{what} points in {d}')
    if pts:
        r = e.get_range(domain=inside)
        rec.eq([r.start, r.end], [min(p[1] for p in pts), max(p[1] for p in pts)], f'{what} range in {d}')
    rec.step(2)
    if a <= b:
        for step in (0.75, 2):
            x, pts = a, []
            while x <= b:
                if not (ao and x == a) and not (bo and x == b) and want(x) is not None:
                    pts.append((x, want(x)))
                x += step
            rec.eq([tuple(p) for p in e.sample_points(domain=inside, step=step)], pts, f'{what} samples in {d} every {step}')


def navigated(rec, e, ask, ex, what):
    for x in ask:
        if ex and ex[0] <= x and x + 1e-5 <= ex[-1]:
            rec.step()
            rec.eq(e.x_next(x), next(p for p in ex if p >= x + 1e-5), f'{what} next after {x}')
        if ex and ex[0] <= x - 1e-5 and x <= ex[-1]:
            rec.step()
            rec.eq(e.x_previous(x), next(p for p in reversed(ex) if p <= x - 1e-5), f'{what} previous before {x}')
        for s in (1, 1.5):
            if ex and ex[0] <= x and x + s <= ex[-1]:
                n = next(p for p in ex if p >= x + s)
                rec.eq(e.x_next(x, min_step=s), n, f'{what} next at least {s} after {x}')
                rec.eq(e.x_next(x, min_step=s, limit=x + 2), min(n, x + 2), f'{what} next at least {s} after {x} up to {x + 2}')
            if ex and ex[0] <= x - s and x <= ex[-1]:
                n = next(p for p in reversed(ex) if p <= x - s)
                rec.eq(e.x_previous(x, min_step=s), n, f'{what} previous at least {s} before {x}')
                rec.eq(e.x_previous(x, min_step=s, limit=x - 2), max(n, x - 2), f'{what} previous at least {s} before {x} down to {x - 2}')
