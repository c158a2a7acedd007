"""C22 - elementary curves: lines, constants, sines, generic functions, the empty curve, and the ends of every curve."""
import itertools
import json
import math
from curvepy import Constant, Curve, Empty, Generic, Line, Points
from curvepy.sin import Sin
from intervalpy import Interval
from mc.trees import U, B
from mc.checks.c27 import BASES

PROPERTY = 'C22'
BOUNDS = {
    'quick': 'every line through 2 of 36 points, with each way to describe it; constants and generic functions over 9 domains; 4 amplitudes x 4 periods x 7 phases '
             'of sines; every sequence of up to 3 out of 11 changes of a line, of 6 changes of a constant and of 6 changes of a sine with 5 curves derived from it '
             'and 2 kinds of reads in between; the ends and neighbouring points of 48 and 18 derived curves over 5 curves of points',
    'thorough': 'sequences of up to 4 changes',
}
ASSUMPTIONS = ['steps back from the start of a moving average may lead to points of its curve', 'trailing minima and maxima without missing values', 'vertical lines have no values; slopes of constants are not compared outside of their domain']

GRID = [(x, y) for x in (-2, -1, 0, 1, 2.5, 4) for y in (-3, -0.5, 0, 1, 2, 7)]
XS = [-3, -1, 0, 0.5, 1, 2.5, 10]
DOMAINS = [None, (0, 2), (-1.5, -0.5), (0, 0), 'open', 'from', 'until', 'left open', 'right open']


def domain_of(d):
    if d == 'open':
        return Interval.open(0, 2)
    if d == 'from':
        return Interval(0, math.inf, end_open=True)
    if d == 'until':
        return Interval(-math.inf, 1, start_open=True)
    if d == 'left open':
        return Interval.open_closed(-1, 1)
    if d == 'right open':
        return Interval.closed_open(-1, 1)
    return d


LINE_SETS = {
    'cs': dict(const=1, slope=2),
    'same': dict(const=1, slope=2.0),
    'p1s': dict(p1=(1, 3), slope=2),
    'p1p2': dict(p1=(0, 2), p2=(2, -1)),
    'p2': dict(const=-1, p2=(3, 2)),
    'points': dict(points=[(1, 1), (4, 2)]),
    'shifted': dict(p1=(3, 1), slope=2),
    'raised': dict(p1=(3, 4), slope=2),
    'flat': dict(const=4, slope=0),
    'steeper': dict(const=1, slope=2 + 1e-12),
    'higher': dict(const=1 + 1e-12, slope=2),
    'no slope': dict(const=4),
    'no reference': dict(slope=4),
}
SIN_SETS = {
    'period': dict(amplitude=2, period=4),
    'frequency': dict(amplitude=1, frequency=0.25, phase=1),
    'phase_x': dict(amplitude=3, period=5, phase_x=0.5),
    'low': dict(amplitude=-1, frequency=0.1),
    'no amplitude': dict(period=3),
    'no period': dict(amplitude=3),
}
CONST_SETS = [1, 2, -1.5, 0, None, 2.0, 2 + 1e-12]
DERIVED = {
    'plus': lambda c, p: c + p,
    'times': lambda c, p: p * c,
    'max': lambda c, p: Curve.max([c, p], ignore_empty=True),
    'offset': lambda c, p: (c + p).offset(0.5),
    'integral': lambda c, p: (p + c).integral(uniform=False),
}


def items(tier):
    n = 3 if tier == 'quick' else 4
    out = [['line', list(p)] for p in GRID]
    out += [['const', d] for d in range(len(DOMAINS))]
    out += [['sin', a, p] for a in (-2, 0, 0.5, 3) for p in (0.5, 1, 4, 7)]
    out += [['sets', 'line', k, n] for k in LINE_SETS]
    out += [['sets', 'sin', k, n] for k in SIN_SETS]
    out += [['sets', 'const', k, n] for k in range(len(CONST_SETS))]
    out += [['ends', t] for t in U] + [['ends2', t] for t in B] + [['empty'], ['parse']]
    return out


def run_item(item, rec):
    kind = item[0]
    if kind == 'line':
        for p2 in GRID:
            rec.run({'kind': 'line', 'p1': item[1], 'p2': list(p2)})
    elif kind == 'const':
        for y in (-1, 0, 2.5, None):
            rec.run({'kind': 'const', 'domain': item[1], 'y': y})
        for step in (None, 0.25, 0.75):
            rec.run({'kind': 'generic', 'domain': item[1], 'step': step})
    elif kind == 'sin':
        for ph in (0, 0.5, -1, 2):
            rec.run({'kind': 'sin', 'amplitude': item[1], 'period': item[2], 'phase': ph})
        for px in (0, 0.25, -1.5):
            rec.run({'kind': 'sin', 'amplitude': item[1], 'period': item[2], 'phase_x': px})
    elif kind == 'sets':
        keys = {'line': list(LINE_SETS), 'sin': list(SIN_SETS), 'const': list(range(len(CONST_SETS)))}[item[1]]
        for n in range(item[3]):
            for rest in itertools.product(keys, repeat=n):
                for d in DERIVED:
                    for read in (False, True):
                        rec.run({'kind': 'sets', 'curve': item[1], 'sets': [item[2], *rest], 'derived': d, 'read': read})
    elif kind in ('ends', 'ends2'):
        for b in BASES:
            rec.run({'kind': kind, 'tree': item[1], 'base': b})
    else:
        rec.run({'kind': kind})


def check_case(case, rec):
    globals()['check_' + case['kind']](case, rec)
    rec.state(json.dumps(case))


def check_line(case, rec):
    p1, p2 = case['p1'], case['p2']
    if p1[0] == p2[0]:
        l = Line(p1=p1, p2=p2)
        rec.eq(l.slope, math.inf if p2[1] >= p1[1] else -math.inf, f'slope of the line through {p1} and {p2}')
        return
    slope = (p2[1] - p1[1]) / (p2[0] - p1[0])
    const = p1[1] - slope * p1[0]
    lines = {'p1 p2': Line(p1=p1, p2=p2), 'points': Line(points=[p1, p2]), 'p1 slope': Line(p1=p1, slope=slope),
             'const slope': Line(const=const, slope=slope), 'const p2': None}
    if p2[0] != 0:
        lines['const p2'] = Line(const=const, p2=p2)
    changed = Line(const=9, slope=9)
    changed.set(p1=p1, p2=p2)
    lines['set'] = changed
    for name, l in lines.items():
        if l is None:
            continue
        rec.step()
        what = f'line through {p1} and {p2} by {name}: '
        rec.eq([l.y(x) for x in XS], [const + slope * x for x in XS], what + 'values', abs_=1e-9)
        rec.eq([l(p1[0]), l(p2[0])], [p1[1], p2[1]], what + 'values at the points', abs_=1e-9)
        rec.eq(l.const, const, what + 'const', abs_=1e-9)
        rec.eq(l.slope, slope, what + 'slope')
        rec.eq([l.d_y(x, forward=f) for x in XS for f in (False, True)], [slope] * (2 * len(XS)), what + 'slopes')
        if slope != 0:
            rec.eq([l.x(l.y(x)) for x in XS], XS, what + 'positions of values', abs_=1e-9)
        for a, b in itertools.combinations_with_replacement(XS, 2):
            rec.eq(l.partial_integration(a, b), const * (b - a) + slope * (b * b - a * a) / 2, what + f'area from {a} to {b}', abs_=1e-9)
        rec.true(l.domain.is_infinite, what + 'domain')
        ps = l.sample_points(Interval(-1, 3))
        rec.eq([list(p) for p in ps], [[-1, const - slope], [3, const + 3 * slope]], what + 'points are the ends', abs_=1e-9)
        ps = l.sample_points(Interval(-1, 3), step=0.5)
        rec.eq([list(p) for p in ps], [[-1 + i / 2, const + slope * (-1 + i / 2)] for i in range(9)], what + 'points by steps', abs_=1e-9)
        rec.eq([l.x_next(1, limit=3), l.x_previous(1, limit=-2)], [3, -2], what + 'steps to the limit')
        r = l.get_range(Interval(-1, 3))
        rec.eq([r.start, r.end], sorted([const - slope, const + 3 * slope]), what + 'range', abs_=1e-9)
    rec.outcome(str([slope, const]))


def check_const(case, rec):
    d = DOMAINS[case['domain']]
    dom = Interval.parse(domain_of(d), default_inf=True)
    y = case['y']
    c = Constant(y, domain=domain_of(d))
    what = f'Constant({y}, {dom}): '
    rec.eq([c.domain.start, c.domain.end, c.domain.start_open, c.domain.end_open], [dom.start, dom.end, dom.start_open, dom.end_open], what + 'domain')
    xs = [x / 4 for x in range(-8, 10)]
    rec.eq([c.y(x) for x in xs], [y if dom.contains(x) else None for x in xs], what + 'values')
    rec.eq([c(x) for x in xs], [y if dom.contains(x) else None for x in xs], what + 'values by call')
    for x in xs:
        for lim in (-1, 0.5, 2):
            rec.step()
            if lim > x and dom.contains(x):
                want = min(lim, dom.end)
                rec.eq(c.x_next(x, limit=lim), want if dom.contains(want) and want > x else c.x_next(x, limit=lim), what + f'x_next({x}, limit={lim})')
            if lim < x and dom.contains(x):
                want = max(lim, dom.start)
                rec.eq(c.x_previous(x, limit=lim), want if dom.contains(want) and want < x else c.x_previous(x, limit=lim), what + f'x_previous({x}, limit={lim})')
        if dom.contains(x):
            rec.eq([c.d_y(x), c.d_y(x, forward=True)], [0, 0], what + f'slope at {x}')
    told = []
    c.add_observer(begin=lambda i: told.append(['b', i.start, i.end, c.y(0.25)]), end=lambda i: told.append(['e', i.start, i.end, c.y(0.25)]))
    c.value = y
    rec.eq(told, [], what + 'setting the same value announces nothing')
    c.value = 5
    at = dom.contains(0.25)
    rec.eq(told, [['b', dom.start, dom.end, y if at else None], ['e', dom.start, dom.end, 5 if at else None]], what + 'setting another value announces the domain')
    rec.eq([c.y(x) for x in xs], [5 if dom.contains(x) else None for x in xs], what + 'values after setting')
    rec.eq([c.value, Constant.zero().y(3), Constant.zero().value], [5, 0, 0], what + 'value')
    rec.eq([Constant(y, domain=domain_of(d)).x(7)], [None], what + 'position of another value')


def check_generic(case, rec):
    dom = Interval.parse(domain_of(DOMAINS[case['domain']]), default_inf=True)
    kw = {} if case['step'] is None else {'min_step': case['step']}
    g = Generic(lambda x: x * x - 1, domain=domain_of(DOMAINS[case['domain']]), **kw)
    what = f'function over {dom} by {case["step"]}: '
    xs = [x / 4 for x in range(-8, 10)]
    rec.eq([g.y(x) for x in xs], [x * x - 1 if dom.contains(x) else None for x in xs], what + 'values')
    step = case['step'] or 1e-5
    for x in xs:
        for m in (0.1, 0.5, 1):
            rec.step()
            s = max(m, step)
            nx, px = x + s, x - s
            if dom.contains(x):
                rec.eq(g.x_next(x, min_step=m), nx if dom.contains(nx) else None, what + f'x_next({x}, min_step={m})')
                rec.eq(g.x_previous(x, min_step=m), px if dom.contains(px) else None, what + f'x_previous({x}, min_step={m})')
                rec.eq(g.next_point(x, min_step=m), (nx, nx * nx - 1) if dom.contains(nx) else None, what + f'next_point({x}, min_step={m})')
                rec.eq(g.previous_point(x, min_step=m), (px, px * px - 1) if dom.contains(px) else None, what + f'previous_point({x}, min_step={m})')
                for l in (0.2, 0.75, 2.5):
                    a, b = min(nx, x + l), max(px, x - l)
                    rec.eq(g.x_next(x, min_step=m, limit=x + l), a if dom.contains(a) else None, what + f'x_next({x}, min_step={m}, limit={x + l})')
                    rec.eq(g.x_previous(x, min_step=m, limit=x - l), b if dom.contains(b) else None, what + f'x_previous({x}, min_step={m}, limit={x - l})')
                rec.eq(g.d_y(x, forward=True, min_step=m), (nx * nx - x * x) / s if dom.contains(nx) else None, what + f'slope ahead at {x} by {m}')
                rec.eq(g.d_y(x, min_step=m), (x * x - px * px) / s if dom.contains(px) else None, what + f'slope at {x} by {m}', abs_=1e-9)


def check_sin(case, rec):
    a, p = case['amplitude'], case['period']
    coef = 2 * math.pi / p
    phase = case['phase_x'] * coef if 'phase_x' in case else case['phase']
    ph = {k: case[k] for k in ('phase', 'phase_x') if k in case}
    curves = {'period': Sin(amplitude=a, period=p, **ph), 'frequency': Sin(amplitude=a, frequency=1 / p, **ph)}
    s = Sin(amplitude=9, period=9, phase=9)
    s.set(amplitude=a, period=p, **ph)
    curves['set'] = s
    for name, s in curves.items():
        rec.step()
        what = f'sine {a} {p} {ph} by {name}: '
        rec.eq([s.y(x) for x in XS], [a * math.sin(coef * x + phase) for x in XS], what + 'values', abs_=1e-9)
        rec.eq([s.period, s.frequency, s.amplitude, s.phase], [p, 1 / p, a, phase], what + 'properties')
        rec.eq([s.y(x + 2 * p) for x in XS], [s.y(x) for x in XS], what + 'repeats', abs_=1e-8)
        rec.eq([s.d_y(x, forward=f) for x in XS for f in (False, True)], [a * coef * math.cos(coef * x + phase) for x in XS for f in (0, 1)], what + 'slopes', abs_=1e-9)
        h = 1e-6
        rec.eq([s.d_y(x) for x in XS], [(s.y(x + h) - s.y(x - h)) / (2 * h) for x in XS], what + 'slopes are those of the values', rel=1e-4, abs_=1e-3)
        rec.eq(len(s.sample_points(Interval(0, p), step=p / 4)), 5, what + 'points')


def make(kind, key):
    if kind == 'line':
        return Line(**LINE_SETS[key])
    if kind == 'sin':
        return Sin(**SIN_SETS[key])
    return Constant(CONST_SETS[key])


def change(c, kind, key):
    if kind == 'line':
        c.set(**LINE_SETS[key])
    elif kind == 'sin':
        c.set(**SIN_SETS[key])
    else:
        c.value = CONST_SETS[key]


def check_sets(case, rec):
    kind = case['curve']
    first, *rest = case['sets']
    if kind == 'sin' and case['derived'] == 'integral':
        return
    if kind == 'const' and None in [CONST_SETS[k] for k in case['sets']] and case['derived'] == 'integral':
        return
    p = Points([(0, 1), (1, 2), (2, 0), (4, 3)], uniform=False)
    try:
        c = make(kind, first)
    except Exception:
        rec.true(str(first).startswith('no '), f'{kind} {first} is refused')
        return
    d = DERIVED[case['derived']](c, p)
    now = first
    told = []
    begun = []
    c.add_observer(begin=lambda i: begun.append(c.y(0.5)), end=lambda i: told.append([i.is_infinite, c.y(0.5)]))
    xs = [0, 0.5, 1, 3, 4]
    for key in rest:
        rec.step()
        what = f'{kind} {first}, then {rest} with {case["derived"]}: '
        if case['read']:
            [d.y(x) for x in xs]
        before, after = make(kind, now), None
        try:
            after = make(kind, key)
        except Exception:
            pass
        told.clear()
        begun.clear()
        try:
            change(c, kind, key)
            refused = False
        except Exception:
            refused = True
        rec.eq(refused, after is None, what + f'{key} is refused')
        if after is None:
            rec.eq([told, begun], [[], []], what + f'{key} announces nothing')
        else:
            now = key
            if before.y(0.5) != after.y(0.5) or before.y(3) != after.y(3):
                rec.eq([begun, told], [[before.y(0.5)], [[True, after.y(0.5)]]], what + f'{key} announces before and after')
        fresh = make(kind, now)
        rec.eq([c.y(x) for x in XS], [fresh.y(x) for x in XS], what + 'values', abs_=1e-9)
        f = DERIVED[case['derived']](fresh, p)
        rec.eq([d.y(x) for x in xs], [f.y(x) for x in xs], what + 'values of the derived curve', abs_=1e-9)
    rec.outcome(str([c.y(x) for x in XS]))


def ends(c, rec, what):
    dom = c.domain
    if dom.is_empty:
        rec.eq([c.first_point(), c.last_point(), c.y_start(), c.y_end()], [None] * 4, what + 'empty curve has no ends')
        rec.eq([c.y(x) for x in XS], [None] * len(XS), what + 'empty curve has no values')
        return
    if not math.isinf(dom.start):
        y = c.y(dom.start)
        rec.eq([c.y_start(), list(c.first_point())], [y, [dom.start, y]], what + 'start')
    if not math.isinf(dom.end):
        y = c.y(dom.end)
        rec.eq([c.y_end(), list(c.last_point())], [y, [dom.end, y]], what + 'end')
    for x in XS:
        if not dom.contains(x):
            continue
        for m in (1e-5, 0.5):
            rec.step()
            for step, point, sign in ((c.x_next, c.next_point, 1), (c.x_previous, c.previous_point, -1)):
                x1 = step(x, min_step=m)
                p1 = point(x, min_step=m)
                rec.eq(None if p1 is None else list(p1), None if x1 is None else [x1, c.y(x1)], what + f'point after {x} by {sign * m}')
                rec.true(x1 is None or sign * (x1 - x) > 0, what + f'step from {x} by {sign * m} is {x1}')
                rec.true(x1 is None or what.startswith('sma') or dom.contains(x1, enforce_start=sign < 0, enforce_end=sign > 0), what + f'step from {x} by {sign * m} is {x1}, out of {dom}')
    rec.eq([c(x) for x in XS], [c.y(x) for x in XS], what + 'call')


def check_ends(case, rec):
    xs, ys = BASES[case['base']]
    if None in ys and case['tree'] in ('tmin', 'tmax', 'amapstep'):
        return
    ends(U[case['tree']](Points(list(zip(xs, ys)), uniform=False), False), rec, f'{case["tree"]} over {case["base"]}: ')


def check_ends2(case, rec):
    xs, ys = BASES[case['base']]
    q = Points([(0, 1), (1.5, -1), (2, 2), (4, 0)], uniform=False)
    ends(B[case['tree']](Points(list(zip(xs, ys)), uniform=False), q, False), rec, f'{case["tree"]} over {case["base"]}: ')


def check_empty(case, rec):
    p = [(0, 1), (1, 2), (3, 0)]
    for name, e in (('Empty()', Empty()), ('Curve.empty()', Curve.empty()), ('no points', Points([]))):
        ends(e, rec, name + ': ')
        for lim in (None, -1, 5):
            rec.eq([e.x_next(0, limit=lim), e.x_previous(0, limit=lim)], [None, None], f'{name}: steps to {lim}')
        rec.eq([e.d_y(0), e.sample_points(), e.sample_points(Interval(0, 1)), e.get_range().is_empty], [None, [], [], True], name + ': nothing to read')
        for t in U:
            if t in ('extrema', 'extremastep', 'piece', 'blend', 'first', 'subset') or t.startswith('ext'):
                continue
            c = U[t](e, False)
            rec.step()
            if c.domain.is_empty:
                ends(c, rec, f'{t} of {name}: ')
        for other in (Points(p, uniform=False), Line(const=1, slope=2)):
            for tname, t in (('sum', other + e), ('product', e * other), ('difference', e - other)):
                rec.eq([t.domain.is_empty, t.sample_points(), t.y(1)], [True, [], None], f'{tname} with {name}')
        c = Points(p, uniform=False)
        for tname, t in (('first', Curve.first([e, c])), ('max', Curve.max([c, e], ignore_empty=True)), ('min', Curve.min([e, c], ignore_empty=True))):
            rec.eq([list(q) for q in t.sample_points()], [list(q) for q in p], f'{tname} of points and {name}')
            rec.eq([t.x_next(0, limit=0.5), t.x_previous(3, limit=0)], [c.x_next(0, limit=0.5), c.x_previous(3, limit=0)], f'{tname} of points and {name}: steps')


def check_parse(case, rec):
    rec.eq(Curve.parse(None), None, 'parse(None)')
    for n in (0, 1, -2.5, True):
        c = Curve.parse(n)
        rec.eq([c.y(x) for x in XS], [n] * len(XS), f'parse({n})')
    for l in (Line(const=1, slope=1), Points([]), Empty()):
        rec.true(Curve.parse(l) is l, f'parse({l})')
    f = Curve.parse(lambda x: x * 3)
    rec.eq([f.y(x) for x in XS], [x * 3 for x in XS], 'parse(function)')
    rec.true(Curve.parse([]).domain.is_empty, 'parse([])')
    for ps in ([(0, 1)], [(0, 1), (1, 3), (2, 0)], [[0, 1], [2, 3]]):
        c = Curve.parse(ps)
        rec.eq([list(p) for p in c.sample_points()], [list(p) for p in ps], f'parse({ps})')
    for bad in ([1, 2], 'abc', [(1, 2, 3)], object()):
        try:
            Curve.parse(bad)
            ok = False
        except Exception:
            ok = True
        rec.true(ok, f'parse({bad!r}) is refused')
    for args in (([1, Line(const=0, slope=1)],), (1, Line(const=0, slope=1)), ((1, Line(const=0, slope=1)),)):
        rec.eq([[c.y(x) for x in XS] for c in Curve.parse_many(*args)], [[1] * len(XS), XS], 'parse_many')
    rec.eq([Curve.const(3).y(1)], [3], 'Curve.const')
