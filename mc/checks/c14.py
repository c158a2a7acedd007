"""C14 - extensions continue a curve beyond its ends."""
import math
from curvepy import Constant, Line, Points
from curvepy.generic import Generic
from intervalpy import Interval
from mc.ref import LIN, MODES, interp
from mc import acc

PROPERTY = 'C14'
BOUNDS = {
    'quick': 'every base curve: ascending subsets (length 0..5) of 6 positions with 3 value patterns, a missing value at '
             'every place, 4 scalings, 3 interpolations, 5 base shapes; x constant, tangent, tangent of a regression (3 degrees, '
             '2 periods) and sine (2 periods) x start, end and both; 9 positions inside and outside, both reading orders; '
             'steps of 3 sizes, whether every interval between 7 positions is in the extension, extensions which must not be '
             'empty read in 3 orders; every history of 3 of 7 edits of the extended curve; 6 functions which are infinite or open on one side, sampled in 6 '
             'intervals with 3 steps and stepped through with 3 limits',
    'thorough': 'as quick with 7 positions, length 6 and 5 value patterns, histories of 4 edits',
}
ASSUMPTIONS = ['regressions over a period are compared for point curves only']
KINDS = [['constant', {}], ['tangent', {}], ['tangent', {'regression_degree': 1}], ['tangent', {'regression_degree': 2}],
         ['tangent', {'regression_degree': 3}], ['tangent', {'regression_period': 1}], ['tangent', {'regression_period': 2.5}],
         ['sin', {'period': 4}], ['sin', {'period': 7.5}]]
SIDES = [(False, True), (True, False), (True, True)]


def items(tier):
    return [[tier, k] for k in range(48)] + [['functions']] + [['edits', k, 3 if tier == 'quick' else 4] for k in range(len(KINDS))]


def run_item(item, rec):
    if item[0] == 'functions':
        for f in FUNCS:
            for kind in KINDS:
                for side in SIDES:
                    rec.run({'func': f, 'kind': kind, 'side': list(side)})
        return
    if item[0] == 'edits':
        def go(ops):
            for side in SIDES:
                for strict in (False, True):
                    rec.run({'edits': ops, 'kind': KINDS[item[1]], 'side': list(side), 'strict': strict})
            if len(ops) < item[2]:
                for i in range(len(EDITS)):
                    go(ops + [i])
        for i in range(len(EDITS)):
            go([i])
        return
    tier, k = item
    for b in acc.chunks(acc.bases(tier, holes=True), 48)[k]:
        for i, kind in enumerate(KINDS):
            if 'regression_period' in kind[1] and b['shape'] != 'points':
                continue
            for side in SIDES:
                rec.run({**b, 'kind': kind, 'side': list(side)})


def fit(pts):
    """Least squares line through the points as (value function, slope)."""
    if len(pts) < 2 or any(y is None for _, y in pts):
        return None
    n = len(pts)
    mx = sum(x for x, _ in pts) / n
    my = sum(y for _, y in pts) / n
    sxx = sum((x - mx) ** 2 for x, _ in pts)
    m = sum((x - mx) * (y - my) for x, y in pts) / sxx
    return (lambda x: my + m * (x - mx)), m


def tangent(ks, ys, end, args, s):
    """(value, slope) which continues the end of the points; None when there is none."""
    pts = list(zip(ks, ys))
    if not end:
        pts.reverse()
    x = pts[-1][0]
    if 'regression_degree' in args:
        f = fit(pts[-args['regression_degree'] - 1:])
    elif 'regression_period' in args:
        f = fit([p for p in pts if abs(p[0] - x) <= args['regression_period'] * s])
    else:
        f = fit(pts[-2:])
    if f is None:
        return None
    return f[0](x), f[1]


def continuation(kind, args, x0, edge, y, slope, s):
    if kind == 'constant':
        return None if edge is None else lambda x: edge
    if y is None:
        return None
    if kind == 'tangent':
        return lambda x: y + slope * (x - x0)
    w = 2 * math.pi / (args['period'] * s)
    return lambda x: y * math.cos(w * (x - x0)) + slope / w * math.sin(w * (x - x0))


def check_case(case, rec):
    if 'func' in case:
        return check_function(case, rec)
    if 'edits' in case:
        return check_edits(case, rec)
    c, ks, ys, f = acc.make_base(case)
    kind, args = case['kind']
    start, end = case['side']
    s = case['scale'][1]
    kw = dict(args)
    for k in ('regression_period', 'period'):
        if k in kw:
            kw[k] = kw[k] * s

    def make():
        return c.extension(kind, start=start, end=end, **kw)
    what = f'{kind} extension {args} start={start} end={end}'
    if not ks:
        e = make()
        rec.true(e.domain.is_empty, f'{what} of an empty curve: domain {e.domain}')
        rec.eq([e.y(0), e.y(5)], [None, None], f'{what} of an empty curve')
        return
    lo = hi = None
    if start:
        t = tangent(ks, ys, False, args, s) or (None, None)
        lo = continuation(kind, args, ks[0], ys[0], *t, s)
    if end:
        t = tangent(ks, ys, True, args, s) or (None, None)
        hi = continuation(kind, args, ks[-1], ys[-1], *t, s)

    def want(x):
        if x < ks[0]:
            return lo(x) if lo else None
        if x > ks[-1]:
            return hi(x) if hi else None
        return f(x)
    ask = [ks[0] - 3 * s, ks[0] - s, ks[0] - 0.25 * s, ks[0] - s / 2 ** 18, ks[0], ks[-1] + s / 2 ** 18, (ks[0] + ks[-1]) / 2, ks[-1], ks[-1] + 0.5 * s, ks[-1] + s,
           ks[-1] + 4 * s]
    tol = 1e-6 if case['scale'][0] > 1e6 else 1e-9
    big = max([abs(y) for y in ys if y is not None] + [1])
    if kind == 'sin' and case['scale'][0] > 1e6:
        big *= 100      # the phase is rounded at large positions
    for order in (ask, ask[::-1]):
        e = make()
        for x in order:
            rec.step()
            rec.eq(e.y(x), want(x), f'{what} of {ks} at {x}', tol, tol * big)
    e = make()
    d = e.domain
    rec.true(d.start == (-math.inf if lo else ks[0]), f'{what}: domain {d}')
    rec.true(d.end == (math.inf if hi else ks[-1]), f'{what}: domain {d}')
    rec.eq(e.y(ask[-1]), want(ask[-1]), f'{what}: after reading the domain', tol, tol * big)
    # the extension is stepped through with the spacing of the end which it continues
    if len(ks) > 1:
        if end:
            rec.eq(e.x_next(ks[-1]), ks[-1] + (ks[-1] - ks[-2]), f'{what}: next after the end')
            rec.eq(e.x_next(ks[-1] + s), ks[-1] + s + (ks[-1] - ks[-2]), f'{what}: next in the extension')
        if start:
            rec.eq(e.x_previous(ks[0]), ks[0] - (ks[1] - ks[0]), f'{what}: previous before the start')
            rec.eq(e.x_previous(ks[0] - s), ks[0] - s - (ks[1] - ks[0]), f'{what}: previous in the extension')
    check_steps(make(), c, ks, start, end, case, s, rec, what)
    check_inside(make, ks, lo, hi, s, rec, what)

    def strict():
        return c.extension(kind, start=start, end=end, raise_on_empty=True, **kw)
    check_strict(strict, want, ask, ks, not (start and not lo or end and not hi), rec, what, tol, tol * big)
    rec.state(str(case))
    rec.outcome(str([want(x) for x in ask]))


def check_steps(e, c, ks, start, end, case, s, rec, what):
    """Inside, the positions of the curve; beyond, the last step which is at least the least one."""
    for x in ks[:-1]:
        rec.eq(e.x_next(x), min(k for k in ks if k > x), f'{what}: next after {x}')
    for x in ks[1:]:
        rec.eq(e.x_previous(x), max(k for k in ks if k < x), f'{what}: previous to {x}')
    if not end:
        rec.eq(e.x_next(ks[-1]), None, f'{what}: next after the last')
    if not start:
        rec.eq(e.x_previous(ks[0]), None, f'{what}: previous to the first')
    if case['shape'] != 'points':
        return
    for ms in (1.25 * s, 2.5 * s):
        rec.step()
        for x in ks:
            n = min((k for k in ks if k >= x + ms), default=None)
            if n is None and end:
                b = max((k for k in ks if k <= ks[-1] - ms), default=None)
                n = None if b is None else x + (ks[-1] - b)
            rec.eq(e.x_next(x, min_step=ms), n, f'{what} of {ks}: next after {x} by {ms}')
            n = max((k for k in ks if k <= x - ms), default=None)
            if n is None and start:
                b = min((k for k in ks if k >= ks[0] + ms), default=None)
                n = None if b is None else x - (b - ks[0])
            rec.eq(e.x_previous(x, min_step=ms), n, f'{what} of {ks}: previous to {x} by {ms}')


def check_inside(make, ks, lo, hi, s, rec, what):
    """Which positions and intervals are in an extension, asked of an extension which nobody has read."""
    marks = [ks[0] - 2 * s, ks[0] - s, ks[0], (ks[0] + ks[-1]) / 2, ks[-1], ks[-1] + s, ks[-1] + 2 * s]
    e = make()
    for i, a in enumerate(marks):
        for b in marks[i:]:
            rec.step()
            want = bool(b < ks[0] and lo or a > ks[-1] and hi)
            iv = a if a == b else Interval.closed(a, b)
            rec.eq(bool(e.is_in_extension(iv)), want, f'{what} of {ks}: {iv} in the extension')
            if b == marks[-1]:
                rec.eq(bool(make().is_in_extension(iv)), want, f'{what} of {ks}: {iv} in the unread extension')


def check_strict(make, want, ask, ks, possible, rec, what, rel, abs_):
    """An extension which has to be possible fails whenever it is read, or is as any other."""
    outside = [x for x in ask if not ks[0] <= x <= ks[-1]]
    reads = [lambda e, x=x: e.y(x) for x in outside[:1] + outside[-1:]] + [lambda e: e.domain.start]
    for i, first in enumerate(reads):
        e = make()
        for read in (first, reads[i - 1], first):
            rec.step()
            try:
                read(e)
                ok = True
            except Exception:
                ok = False
            rec.true(ok == possible, f'{what} of {ks} which must not be empty: {"read" if ok else "refused"}')
        if possible:
            rec.eq([e.y(x) for x in ask], [want(x) for x in ask], f'{what} of {ks} which must not be empty', rel, abs_)


EDITS = [('append',), ('set', [2]), ('set', [0, 1]), ('set', [1, 2, 4]), ('set', []), ('first missing', [0, 1, 3]), ('last missing', [0, 1, 3])]


def check_edits(case, rec):
    """One extension, read after every edit of its curve."""
    kind, args = case['kind']
    start, end = case['side']
    p = Points([], uniform=False)
    e = p.extension(kind, start=start, end=end, raise_on_empty=case['strict'], **args)
    pts = []
    what = f'{kind} extension {args} start={start} end={end} must={case["strict"]}'
    seen = []
    e.add_observer(end=lambda iv: seen.append(iv))
    for i, op in enumerate(case['edits']):
        op = EDITS[op]
        if op[0] == 'append':
            new = (pts[-1][0] + 1 + i % 2 if pts else 1, 3 - i * 2)
            pts = pts + [new]
            p.append(new)
        else:
            pts = [(x, (x * 3 + i * 5) % 7) for x in op[1]]
            if op[0] != 'set':
                k = 0 if op[0] == 'first missing' else -1
                pts[k] = (pts[k][0], None)
            p.set(pts)
        rec.step()
        ks, ys = [q[0] for q in pts], [q[1] for q in pts]
        lo = hi = None
        if ks and start:
            lo = continuation(kind, args, ks[0], ys[0], *(tangent(ks, ys, False, args, 1) or (None, None)), 1)
        if ks and end:
            hi = continuation(kind, args, ks[-1], ys[-1], *(tangent(ks, ys, True, args, 1) or (None, None)), 1)
        possible = not case['strict'] or not (start and not lo or end and not hi)
        ask = [-2, -0.5, -2 ** -18, 0, 0.5, 1, 1 + 2 ** -18, 1.75, 2, 3, 4, 5.5, 6, 7, 9]
        for x in ask:
            inside = bool(ks) and ks[0] <= x <= ks[-1]
            want = None
            if inside:
                want = interp(ks, ys, x, LIN)
            elif ks:
                side = lo if x < ks[0] else hi
                want = side(x) if side else None
            try:
                got, ok = e.y(x), True
            except Exception:
                got, ok = None, False
            if inside and not possible:
                continue
            rec.true(ok == possible, f'{what} of {pts} at {x}: {"read" if ok else "refused"}')
            if ok:
                rec.eq(got, want, f'{what} of {pts} at {x} after edits')
                rec.eq(bool(e.is_in_extension(x)), bool(not inside and ks and (lo if x < ks[0] else hi)),
                       f'{what} of {pts}: {x} in the extension after edits')
        if possible and ks:
            d = e.domain
            rec.eq([d.start, d.end], [-math.inf if lo else ks[0], math.inf if hi else ks[-1]], f'{what} of {pts}: domain after edits')
        rec.state((kind, str(args), str(pts)))


FUNCS = {
    'line': (lambda: Line(const=1, slope=2), lambda x: 1 + 2 * x, -math.inf, math.inf, None),
    'const': (lambda: Constant(3), lambda x: 3, -math.inf, math.inf, None),
    'constdom': (lambda: Constant(3, domain=Interval.closed(0, 2)), lambda x: 3, 0, 2, lambda x: 0),
    'right': (lambda: Generic(lambda x: x * x, domain=Interval.gte(1)), lambda x: x * x, 1, math.inf, lambda x: 2 * x),
    'left': (lambda: Generic(lambda x: x * x, domain=Interval.lt(3)), lambda x: x * x, -math.inf, 3, lambda x: 2 * x),
    'open': (lambda: Generic(lambda x: x * x, domain=Interval.open(-1, 2)), lambda x: x * x, -1, 2, lambda x: 2 * x),
}


def check_function(case, rec):
    make, f, a, b, df = FUNCS[case['func']]
    kind, args = case['kind']
    start, end = case['side']
    e = make().extension(kind, start=start, end=end, **args)
    w = 2 * math.pi / args.get('period', 1)
    if any(k.startswith('regression') for k in args):
        return      # regressions of functions are samples at the minimum step
    for k in (0.25, 1, 3):
        for x, edge, on in ((a - k, a, start), (b + k, b, end)):
            if math.isinf(edge):
                continue
            rec.step()
            if not on:
                want = None
            elif kind == 'constant':
                want = f(edge)
                if case['func'] in ('left', 'open') and not (case['func'] == 'left' and edge == a):
                    continue    # an open end has no value
            elif kind == 'tangent':
                want = f(edge) + df(edge) * (x - edge)
            else:
                want = f(edge) * math.cos(w * (x - edge)) + df(edge) / w * math.sin(w * (x - edge))
            rec.eq(e.y(x), want, f'{kind} extension of {case["func"]} at {x}', 1e-3, 1e-3)
    for x in (0.5, 1.5, 1.75):
        rec.eq(e.y(x), f(x) if a <= x <= b else None if not (start and x < a or end and x > b) else e.y(x), f'inside at {x}')
    if case['func'] == 'right' or case['func'] in ('left', 'open') and kind != 'constant':
        # Samples and steps go on beyond the ends as inside. A constant extension of an open end is none.
        for lo, hi in ((-3, 5), (-2, 1.5), (1.5, 4), (-4, -2), (3.5, 6), (2.25, 3.75)):
            for m in (0.25, 0.5, 1.25):
                lo_, hi_ = lo if start or math.isinf(a) else max(lo, a), hi if end or math.isinf(b) else min(hi, b)
                if lo_ >= hi_ or case['func'] != 'right' and (lo_ <= a or hi_ == b):
                    continue    # an open end
                want = []
                while lo_ + len(want) * m < hi_:
                    want.append(lo_ + len(want) * m)
                want.append(hi_)
                rec.step()
                e = make().extension(kind, start=start, end=end, **args)
                got = e.sample_points(Interval.closed(lo, hi), min_step=m)
                rec.eq([x for x, _ in got], want, f'{kind} extension start={start} end={end} of {case["func"]}: samples of [{lo}, {hi}] by {m}', 1e-4, 1e-4)
                rec.eq([y for _, y in got], [e.y(x) for x, _ in got], f'{kind} extension of {case["func"]}: values of samples of [{lo}, {hi}] by {m}')
                for x in want[1:-1]:
                    for by in (0.1, m / 2, m + 0.1):
                        rec.eq(e.x_next(x, min_step=m, limit=x + by), x + min(m, by), f'{kind} extension of {case["func"]}: next after {x} by {m}, at most {by}', 1e-4, 1e-4)
                        rec.eq(e.x_previous(x, min_step=m, limit=x - by), x - min(m, by), f'{kind} extension of {case["func"]}: previous to {x} by {m}, at most {by}', 1e-4, 1e-4)
    for edge, on, side in ((a, start, 'start'), (b, end, 'end')):
        if math.isinf(edge):
            continue
        rec.true(math.isinf(getattr(e.domain, side)) == on or kind == 'constant', f'domain {e.domain}')
    rec.state(str(case))
