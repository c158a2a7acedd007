"""C04 - navigation: the next and the previous point of a curve."""
import math
from curvepy import Points, Curve
from curvepy.piecewise import Piecewise
from curvepy.quotes import Quotes
from intervalpy import Interval
from mc.ref import MODES, LIN, subsets, is_regular
from mc.trees import U, B

PROPERTY = 'C04'
BOUNDS = {
    'quick': 'all ascending subsets (length 0..6) of 7 grid positions x 5 grids x uniform on/off x 6 minimum steps x 4 limits x every '
             'query at, around and between points; 23 derived curves, every pair of subsets of 4 positions under 7 binary '
             'curves, every two-piece curve, 3 limits for 65 derived curves at every quarter of a step, quotes of 4 durations',
    'thorough': 'as quick with 9 grid positions, 8 grids, and pairs of subsets of 6 positions',
}
ASSUMPTIONS = ['the minimum step is not compared at distances which only rounding decides',
               'positions outside of the domain of a derived curve are only specified for combinations of two curves, without limits']

GRIDS_Q = [(0, 1), (-3, 0.5), (1580000000, 86400), (0.3, 0.1), (7, 10)]
GRIDS_T = GRIDS_Q + [(-1.7, 0.3), (0, 1e-2), (1580000000.5, 60)]
LIMITS = [0.1, 1, 2.5]     # likewise
STEPS = [1e-5, 0.25, 0.75, 1, 1.25, 3]     # in units of the grid
DERIVED = ['neg', 'abs', 'map', 'sq', 'diamond', 'integral', 'integralp', 'ema', 'emap', 'sma2', 'sma3', 'smma', 'tmin',
           'tmax', 'amap', 'diff', 'off1', 'off-.5', 'extc', 'exte', 'extt', 'add2', 'line']
MOVED = {      # by durations, points on hours
    'dur2': lambda c: c.offset(2, duration='1h'),
    'dur-1': lambda c: c.offset(-1, duration='1h'),
    'dur0': lambda c: c.offset(0, duration='1h'),
    'dursum': lambda c: c.offset(1, duration='1h') + c,
    'durema': lambda c: c.ema(0.5, uniform=False).offset(1, duration='1h'),
}
BIN = {
    'sum': lambda p, q: p + q,
    'diff': lambda p, q: p - q,
    'prod': lambda p, q: p * q,
    'max': lambda p, q: Curve.max([p, q], ignore_empty=True),
    'min': lambda p, q: Curve.min([p, q]),
    'first': lambda p, q: Curve.first([p, q]),
    'nested': lambda p, q: -(p + q) * q,
}


def items(tier):
    n = 7 if tier == 'quick' else 9
    out = []
    for g in GRIDS_Q if tier == 'quick' else GRIDS_T:
        for first in range(-1, n):
            out.append(['points', list(g), n, first])
    for name in DERIVED:
        out.append(['derived', name, n if tier == 'thorough' else 6])
    for name in BIN:
        out.append(['binary', name, 4 if tier == 'quick' else 6])
    for name in list(U) + ['2' + k for k in B] + list(MOVED):
        out.append(['limit', name, 5 if tier == 'quick' else 7])
    out.append(['piece'])
    out.append(['quotes'])
    return out


def run_item(item, rec):
    kind = item[0]
    if kind == 'points':
        _, g, n, first = item
        for sub in subsets(n, 0, 6):
            if (sub[0] if sub else -1) != first:
                continue
            xs = [g[0] + i * g[1] for i in sub]
            for u in ((False, True) if is_regular(sub) else (False,)):
                try:
                    Points([(x, 0) for x in xs], uniform=u)
                except Exception:
                    continue    # rounding makes "evenly spaced" ambiguous on this grid (see C01)
                for s in STEPS:
                    rec.run({'kind': 'points', 'xs': xs, 'uniform': u, 'step': s * g[1], 'unit': g[1]})
    elif kind == 'derived':
        _, name, n = item
        for sub in subsets(n, 1, 6):
            for u in ((False, True) if is_regular(sub) else (False,)):
                for s in (1e-5, 0.75, 1.5):
                    rec.run({'kind': 'derived', 'tree': name, 'xs': list(sub), 'uniform': u, 'step': s})
    elif kind == 'binary':
        _, name, n = item
        for a in subsets(n, 1, n):
            for b in subsets(n, 1, n):
                for shift in (0, 0.5):
                    rec.run({'kind': 'binary', 'tree': name, 'a': list(a), 'b': [x + shift for x in b]})
    elif kind == 'limit':
        for sub in subsets(item[2], 2, 4):
            rec.run({'kind': 'limit', 'tree': item[1], 'xs': list(sub)})
    elif kind == 'piece':
        for na in (1, 2, 3):
            for cut in (2, 2.5, 3):
                for a in subsets(4, na, na):
                    if a[0] != 0:
                        continue
                    for b in subsets(4, 1, 4):
                        ax = sorted(set(list(a) + [cut]))
                        bx = [cut] + [cut + 1 + i for i in b]
                        for extra in (False, True):
                            rec.run({'kind': 'piece', 'a': ax, 'b': bx, 'cut': cut, 'extra': extra})
    else:
        for d, unit in (('1d', 86400), ('1h', 3600), ('15m', 900), ('1w', 604800)):
            for n in range(0, 6):
                rec.run({'kind': 'quotes', 'duration': d, 'unit': unit, 'n': n})


def next_of(knots, x):
    return min((k for k in knots if k >= x), default=None)


def prev_of(knots, x):
    return max((k for k in knots if k <= x), default=None)


def queries(xs, unit):
    out = []
    for x in xs:
        out += [x, x - unit * 0.25, x + unit * 0.4, x + unit]
    out += [xs[0] - 5 * unit, xs[-1] + 7 * unit] if xs else [0, 1]
    return sorted(set(out))


def near_tie(knots, x, unit):
    """The reached position coincides with a knot only up to rounding: outcome depends on rounding."""
    return any(0 < abs(k - x) <= 1e-6 * unit for k in knots)


def compare(c, knots, ask, step, unit, rec, strict, iv=None, plain=False, limits=LIMITS):
    """strict: also require None where there is no further point. iv: domain restriction of the comparison."""
    for x in ask:
        if iv is not None and not (iv[0] <= x <= iv[1]):
            continue
        rec.step()
        for name, f, pf, want, probe in (('x_next', c.x_next, c.next_point, next_of(knots, x + step), x + step),
                                         ('x_previous', c.x_previous, c.previous_point, prev_of(knots, x - step), x - step)):
            if near_tie(knots, probe, unit):
                continue
            if want is None:
                if not strict:
                    continue
            elif iv is not None and not (iv[0] <= want <= iv[1]):
                continue
            got = f(x, min_step=step)
            rec.eq(got, want, f'{name}({x}, min_step={step})')
            for far in limits if step != 1e-5 or len(knots) < 5 else ():
                lim = x + far * unit if name == 'x_next' else x - far * unit
                first = want if want is None else min(want, lim) if name == 'x_next' else max(want, lim)
                if want is not None or plain:
                    rec.eq(f(x, min_step=step, limit=lim), first, f'{name}({x}, min_step={step}, limit={lim})')
            pt = pf(x, min_step=step)
            rec.eq(pt, None if want is None else (want, c.y(got)), f'point at {name}({x}, min_step={step})')
            if step == 1e-5:
                rec.eq(f(x), want, f'{name}({x})')


def walk(c, start, knots, what, rec):
    """Walking along a curve visits every point once, in order, and back."""
    x, seen = start, [start]
    for _ in range(len(knots) + 3):
        x = c.x_next(x)
        if x is None or x > knots[-1]:
            break
        seen.append(x)
    rec.eq(seen, knots, f'{what}: points visited by x_next')
    x, back = seen[-1], [seen[-1]]
    for _ in range(len(knots) + 3):
        x = c.x_previous(x)
        if x is None or x < knots[0]:
            break
        back.append(x)
    rec.eq(back, knots[::-1], f'{what}: points visited by x_previous')


def vals(xs):
    return [(x, (i * 5 + 2) % 7 - 2) for i, x in enumerate(xs)]


def check_limit(case, rec):
    """With a limit every curve steps to where it steps without, or to the limit if that comes first."""
    name, xs = case['tree'], case['xs']
    unit = 3600 if name in MOVED else 1
    p = Points([(x * unit, y) for x, y in zip(xs, (1, 3, -2, 4, -5, 6))], uniform=False)
    if name in MOVED:
        def make():
            return MOVED[name](p)
    elif name in U:
        def make():
            return U[name](p, False)
    else:
        q = Points([(0, 2), (2, 1), (3, -1), (5, 2)], uniform=False)

        def make():
            return B[name[1:]](p, q, False)
    used = make()
    d = used.domain
    if d.is_empty or name == '2piece' and xs[-1] < 2:
        return      # the points of the pieces do not cover them
    for k in range(-4, 30):
        x = k * unit / 4
        if not d.contains(x):
            continue
        # a piece has no step beyond its last point, whatever the limit
        for step in (1e-5, 1.5) if name != '2piece' else (1e-5,):
            step *= unit if step > 1e-3 else 1
            for f, sign in (('x_next', 1), ('x_previous', -1)):
                rec.step()
                x1 = getattr(used, f)(x, min_step=step)
                for far in (0.1, 0.5, 1.3):
                    lim = x + sign * far * unit
                    if not d.contains(lim):
                        continue
                    c = used if far == 0.5 else make()
                    got = getattr(c, f)(x, min_step=step, limit=lim)
                    what = f'{name} of {xs}: {f}({x}, min_step={step}, limit={lim})'
                    if x1 is None:
                        rec.true(got in (None, lim), f'{what}: {got}, without limit None')
                    else:
                        rec.eq(got, min(x1, lim) if sign > 0 else max(x1, lim), what)


def check_case(case, rec):
    kind = case['kind']
    if kind == 'points':
        xs, unit, step = case['xs'], case['unit'], case['step']
        p = Points(vals(xs), uniform=case['uniform'])
        compare(p, xs, queries(xs, unit), step, unit, rec, True, plain=True)
        if xs:
            walk(p, xs[0], xs, 'points', rec)
            rec.eq(p.x_next(-math.inf), xs[0], 'x_next(-inf)')
            rec.eq(p.x_previous(math.inf), xs[-1], 'x_previous(inf)')
            rec.eq(p.x_previous(-math.inf), None, 'x_previous(-inf)')
            rec.eq(p.x_next(math.inf), None, 'x_next(inf)')
    elif kind == 'derived':
        xs = case['xs']
        p = Points(vals(xs), uniform=case['uniform'])
        c = U[case['tree']](p, case['uniform'])
        off = {'off1': 1, 'off-.5': -0.5}.get(case['tree'], 0)
        knots = [x + off for x in xs]
        for fresh in (True, False):
            compare(c, knots, queries(knots, 1), case['step'], 1, rec, not case['tree'].startswith('ext'), (knots[0], knots[-1]),
                    plain=not case['tree'].startswith('ext') and case['tree'] not in ('add2', 'line', 'diamond'))
            walk(c, knots[0], knots, case['tree'], rec)
            for x in knots:
                c.y(x)
    elif kind == 'binary':
        a, b = case['a'], case['b']
        p, q = Points(vals(a), uniform=False), Points(vals(b), uniform=False)
        c = BIN[case['tree']](p, q)
        if c.domain.is_empty:
            return
        iv = (c.domain.start, c.domain.end)
        knots = [x for x in sorted(set(a) | set(b)) if iv[0] <= x <= iv[1]]
        inner = knots
        compare(c, inner, queries(sorted(set(a) | set(b)), 0.5), 1e-5, 0.5, rec, True, iv)
        compare(c, inner, queries(sorted(set(a) | set(b)), 0.5), 1e-5, 0.5, rec, True, limits=())
        compare(c, inner, queries(sorted(set(a) | set(b)), 0.5), 0.6, 0.5, rec, True, iv)
        compare(c, inner, queries(sorted(set(a) | set(b)), 0.5), 0.6, 0.5, rec, True, limits=())
        x, seen = knots[0], [knots[0]]
        while x is not None and x < knots[-1]:
            x = c.x_next(x)
            seen.append(x)
        rec.eq(seen, knots, 'points visited by x_next')
        rec.eq([x for x, _ in c.sample_points()], knots, 'positions of sample_points')
    elif kind == 'limit':
        check_limit(case, rec)
    elif kind == 'piece':
        a, b, cut = case['a'], case['b'], case['cut']
        # points of a piece beyond its own domain are not part of the curve
        ax = a + [cut + 0.25] if case['extra'] else a
        bx = [cut - 0.25] + b if case['extra'] else b
        c = Piecewise([Points(vals(ax), uniform=False), Points(vals(bx), uniform=False)],
                      [Interval.closed_open(a[0], cut), Interval.closed(cut, b[-1])])
        knots = sorted(set(x for x in a if x < cut) | set(b))
        if not case['extra']:
            compare(c, knots, queries(knots, 0.5), 1e-5, 0.5, rec, False, (knots[0], knots[-1]))
            walk(c, knots[0], knots, 'pieces', rec)
    else:
        u, n = case['unit'], case['n']
        t0 = 1577836800 + 5 * 86400        # a Monday
        pts = [(t0 + u * i, [i, i + 2, i - 1, i + 1, 5]) for i in range(n)]
        q = Quotes(case['duration'], pts)
        knots = [x for x, _ in pts]
        if not n:
            rec.eq([q.x_next(t0), q.x_previous(t0)], [None, None], 'empty quotes')
            return
        for c in (q, q.close, q.hl2):
            for x in queries(knots, u):
                rec.step()
                rec.eq(c.x_next(x), next_of(knots, x + 1e-5), f'x_next({x})') if c is q else None
                if knots[0] <= x <= knots[-1]:
                    rec.eq(c.x_next(x), next_of(knots, x + 1e-5), f'x_next({x})')
                    rec.eq(c.x_previous(x), prev_of(knots, x - 1e-5), f'x_previous({x})')
            if n > 1:
                walk(c, knots[0], knots, 'quotes', rec)
    rec.state(str(case))
    rec.outcome(tuple(case.get('xs', ())))
