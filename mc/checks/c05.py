"""C05 - sampling a curve over a domain."""
import itertools
from curvepy import Points, Line, Constant, Curve
from curvepy.generic import Generic
from curvepy.sin import Sin
from intervalpy import Interval
from mc.ref import LIN, MODES, RefPoints, Iv, subsets, is_regular, interp
from mc.trees import U

PROPERTY = 'C05'
BOUNDS = {
    'quick': 'point curves: all ascending subsets (length 0..5) of 6 grid positions x 3 grids x uniform on/off x every '
             'domain between 13 boundaries with open and closed ends x (as is, 4 steps, 4 minimum steps); 23 derived '
             'curves; functions with 3 minimum steps, lines, constants; walks of every length from every position, both '
             'directions, open and closed; ranges, missing values included',
    'thorough': 'as quick with 8 grid positions and 5 grids',
}
ASSUMPTIONS = ['steps and grids are exactly representable, so that no position is decided by rounding']

GRIDS_Q = [(0, 1), (-3, 0.5), (1580000000, 3600)]
GRIDS_T = GRIDS_Q + [(0.5, 1), (100, 8)]
DERIVED = ['neg', 'abs', 'map', 'sq', 'diamond', 'integral', 'ema', 'sma2', 'tmin', 'amap', 'diff', 'off1', 'off-.5', 'extc',
           'exte', 'extt', 'add2', 'line', 'max0', 'first', 'mul', 'smma', 'extts']


def domains(o, s):
    """All intervals between the boundaries, with every choice of open ends."""
    b = [o + s * k for k in (-1, 0, 0.5, 1, 1.75, 2, 3, 3.5, 4, 5, 6)]
    for i, j in itertools.combinations_with_replacement(range(len(b)), 2):
        for so in (0, 1):
            for eo in (0, 1):
                if i == j and (so or eo):
                    continue
                yield [b[i], b[j], so, eo]


def items(tier):
    n = 6 if tier == 'quick' else 8
    out = []
    for g in GRIDS_Q if tier == 'quick' else GRIDS_T:
        for first in range(-1, n):
            out.append(['points', list(g), n, first])
    for name in DERIVED:
        out.append(['derived', name])
    out.append(['functions'])
    return out


def run_item(item, rec):
    if item[0] == 'points':
        _, g, n, first = item
        for sub in subsets(n, 0, 5):
            if (sub[0] if sub else -1) != first:
                continue
            for u in ((False, True) if is_regular(sub) else (False,)):
                xs = [g[0] + i * g[1] for i in sub]
                case = {'kind': 'points', 'xs': xs, 'uniform': u, 'grid': g, 'mode': MODES[len(sub) % 3]}
                rec.run(case)
                rec.run({**case, 'kind': 'from_x'})
                rec.run({**case, 'kind': 'from_x', 'hole': len(xs) // 2})
    elif item[0] == 'derived':
        for sub in subsets(5, 1, 5):
            for u in ((False, True) if is_regular(sub) else (False,)):
                rec.run({'kind': 'derived', 'tree': item[1], 'xs': list(sub), 'uniform': u})
    else:
        for name in FUNCS:
            for d in domains(0, 1):
                rec.run({'kind': 'function', 'name': name, 'domain': d})


def ys_of(xs):
    return [(i * 5 + 2) % 7 - 2 for i in range(len(xs))]


def iv(d):
    return Interval(d[0], d[1], start_open=bool(d[2]), end_open=bool(d[3]))


def expect(knots, lo, hi, d, min_step=None, step=None):
    """Positions of the samples of a curve on [lo, hi] over domain d."""
    m = Iv(*d).meet(Iv(lo, hi))
    if m.empty:
        return []
    out = []
    if not m.so:
        out.append(m.a)
    if step is not None:
        x = m.a + step
        while x < m.b or (x == m.b and not m.eo):
            out.append(x)
            x += step
        return out
    x = m.a
    while True:
        x = min((k for k in knots if k >= x + min_step), default=None)
        if x is None or x > m.b:
            break
        out.append(x)
    if out and out[-1] == m.b and m.eo:
        out.pop()
    if not m.eo and (not out or out[-1] != m.b):
        out.append(m.b)
    return out


FUNCS = {
    'gen.5': (lambda: Generic(lambda x: 2 * x + 1, min_step=0.5), lambda x: 2 * x + 1, (-1e9, 1e9), 0.5),
    'gen1': (lambda: Generic(lambda x: x * x, min_step=1), lambda x: x * x, (-1e9, 1e9), 1),
    'gendom': (lambda: Generic(lambda x: x * x, domain=Interval(0.5, 4.5), min_step=0.25), lambda x: x * x, (0.5, 4.5), 0.25),
    'line': (lambda: Line(const=1, slope=2), lambda x: 1 + 2 * x, (-1e9, 1e9), None),
    'const': (lambda: Constant(4), lambda x: 4, (-1e9, 1e9), None),
    'constdom': (lambda: Constant(4, domain=Interval(1, 4)), lambda x: 4, (1, 4), None),
    'offgen': (lambda: Generic(lambda x: x * x, min_step=0.5).offset(1), lambda x: (x - 1) ** 2, (-1e9, 1e9), 0.5),
    'offgen-': (lambda: Generic(lambda x: x * x, min_step=0.5).offset(-2), lambda x: (x + 2) ** 2, (-1e9, 1e9), 0.5),
    'neggen': (lambda: -Generic(lambda x: x * x, min_step=0.5), lambda x: -x * x, (-1e9, 1e9), 0.5),
}


def check_case(case, rec):
    {'points': check_points, 'derived': check_derived, 'function': check_function, 'from_x': check_from_x}[case['kind']](case, rec)


def check_points(case, rec):
    xs, (o, s) = case['xs'], case['grid']
    ys = ys_of(xs)
    u = case['uniform']
    p = Points(list(zip(xs, ys)), uniform=u, interpolation=case['mode'])
    regular = u or is_regular(xs)
    interval = (xs[-1] - xs[0]) / (len(xs) - 1) if len(xs) > 1 else None

    def y(x):
        return interp(xs, ys, x, case['mode'])
    for d in domains(o, s):
        D = Iv(*d)
        rec.step()
        rec.eq(p.sample_points(iv(d)), [(a, b) for a, b in zip(xs, ys) if D.has(a)], f'points within {d}')
        if not xs:
            continue
        got = p.get_range(iv(d))
        inside = [b for a, b in zip(xs, ys) if D.has(a)]
        if inside:
            rec.true(got.start == min(inside) and got.end == max(inside), f'range within {d}: {got}, values {inside}')
        else:
            rec.true(got.is_empty, f'range within {d}: {got}, no values')
        if interval is None:
            continue
        for k in (0.25, 0.5, 1.5, 2):
            step = k * s
            if step == interval and regular:
                continue    # the points themselves
            want = [(x, y(x)) for x in expect(xs, xs[0], xs[-1], d, step=step)]
            rec.eq(p.sample_points(iv(d), step=step), want, f'samples within {d} with step {step}')
        for k in (1e-3, 1, 1.25, 2, 2.5):
            ms = k * s
            if ms <= min(b - a for a, b in zip(xs, xs[1:])):
                rec.eq(p.sample_points(iv(d), min_step=ms), [(a, b) for a, b in zip(xs, ys) if D.has(a)], f'points within {d} at least {ms} apart')
                continue    # every point
            want = [(x, y(x)) for x in expect(xs, xs[0], xs[-1], d, min_step=ms)]
            rec.eq(p.sample_points(iv(d), min_step=ms), want, f'samples within {d} at least {ms} apart')
    rec.eq(p.sample_points(), list(zip(xs, ys)), 'all points')
    if case['mode'] == MODES[1]:
        for holes in [[i] for i in range(len(xs))] + [[0, 1], [0, len(xs) - 1], list(range(len(xs)))][:3 if len(xs) > 1 else 0]:
            vs = [None if i in holes else v for i, v in enumerate(ys)]
            p = Points(list(zip(xs, vs)), uniform=u, interpolation=case['mode'])
            for d in domains(o, s):
                D = Iv(*d)
                rec.step()
                inside = [b for a, b in zip(xs, vs) if D.has(a) and b is not None]
                got = p.get_range(iv(d))
                if inside:
                    rec.true(got.start == min(inside) and got.end == max(inside), f'range within {d}: {got}, values {vs}')
                else:
                    rec.true(got.is_empty, f'range within {d}: {got}, no values')
    rec.state((tuple(xs), u, case['mode']))
    rec.outcome(tuple(xs))


def check_from_x(case, rec):
    xs, (o, s) = case['xs'], case['grid']
    ys = ys_of(xs)
    if case.get('hole') is not None and xs:
        ys[case['hole']] = None
    p = Points(list(zip(xs, ys)), uniform=case['uniform'], interpolation=case['mode'])

    def y(x):
        return interp(xs, ys, x, case['mode'])
    for x in [o + s * k for k in (-1, 0, 0.5, 1, 2, 3, 3.5, 4, 5, 7)]:
        for open_ in (True, False):
            for backward in (True, False):
                walk = [k for k in xs if (k < x if backward else k > x)]
                if backward:
                    walk.reverse()
                pts = [(k, ys[xs.index(k)]) for k in walk]
                if not open_:
                    pts = [(x, y(x))] + pts
                cut = next((i for i, q in enumerate(pts) if q[1] is None), len(pts))
                for limit in (0, 1, 2, 3, 10):
                    want = pts[:cut][:limit]
                    rec.step()
                    rec.eq(p.sample_points_from_x(x, limit, backward=backward, open=open_), want,
                           f'{limit} points from {x} backward={backward} open={open_} without a least step')
                    rec.eq(p.sample_points_from_x(x, limit, backward=backward, open=open_, min_step=1e-5), want,
                           f'{limit} points from {x} backward={backward} open={open_}')
                    if limit:
                        rec.eq(p.sample_points_from_x(x, -limit, backward=not backward, open=open_, min_step=1e-5), want,
                               f'{-limit} points from {x} backward={not backward} open={open_}')
    rec.state((tuple(xs), case['uniform'], case['mode'], case.get('hole')))


def check_derived(case, rec):
    xs = case['xs']
    p = Points(list(zip(xs, ys_of(xs))), uniform=case['uniform'])
    for d in list(domains(0, 1)) + [None]:
        c = U[case['tree']](p, case['uniform'])
        dom = c.domain
        if dom.is_empty:
            rec.eq(c.sample_points(None if d is None else iv(d)), [], 'samples of an empty curve')
            continue
        if d is None:
            if not dom.is_finite:
                try:
                    c.sample_points()
                except Exception:
                    continue
                rec.fail('samples over an infinite domain are not refused')
            d = [dom.start, dom.end, 0, 0]
            got = c.sample_points()
        else:
            got = c.sample_points(iv(d))
        rec.step()
        m = Iv(*d).meet(Iv(dom.start, dom.end, dom.start_open, dom.end_open))
        if m.empty:
            rec.eq(got, [], f'samples within {d}')
            continue
        pos = [x for x, _ in got]
        rec.true(pos == sorted(set(pos)), f'samples within {d} not ascending: {pos}')
        rec.true(all(m.has(x) for x in pos), f'samples within {d} of a curve on {dom} outside: {pos}')
        # the points of the curve and the closed ends are among the samples
        off = {'off1': 1, 'off-.5': -0.5}.get(case['tree'], 0)
        if case['tree'] != 'subset':
            must = sorted(set([x + off for x in xs if m.has(x + off)] + ([m.a] if not m.so else []) + ([m.b] if not m.eo else [])))
            rec.true(all(x in pos for x in must), f'samples within {d}: {pos}, points {must}')
            if not case['tree'].startswith('ext'):
                rec.eq(pos, must, f'positions of the samples within {d}')
        for x, v in got:
            rec.eq(v, c.y(x), f'sample at {x}')
        # order of first reads does not matter
        c2 = U[case['tree']](p, case['uniform'])
        for x in reversed(pos):
            rec.eq(c2.y(x), dict(got)[x], f'y({x}) read backwards')
    rec.state((case['tree'], tuple(xs), case['uniform']))
    rec.outcome(tuple(xs))


def check_function(case, rec):
    make, f, (lo, hi), ms = FUNCS[case['name']]
    d = case['domain']
    c = make()
    for step in (0.25, 0.5, 1, 1.5, None):
        if step is not None:
            want = expect([], lo, hi, d, step=step)
            got = c.sample_points(iv(d), step=step)
        else:
            got = c.sample_points(iv(d))
            m = Iv(*d).meet(Iv(lo, hi))
            if m.empty:
                want = []
            else:
                want = [] if m.so else [m.a]
                x = m.a
                while ms is not None and x + ms < m.b:
                    x += ms
                    want.append(x)
                if not m.eo and (not want or want[-1] != m.b):
                    want.append(m.b)
        rec.step()
        rec.eq(got, [(x, f(x)) for x in want], f'samples within {d} step {step}')
    m = Iv(*d).meet(Iv(lo, hi))
    r = c.get_range(iv(d), step=0.25)
    vs = [f(x) for x in expect([], lo, hi, d, step=0.25)]
    if vs:
        rec.true(abs(r.start - min(vs)) < 1e-9 and abs(r.end - max(vs)) < 1e-9, f'range within {d}: {r}, values {vs}')
    else:
        rec.true(r.is_empty, f'range within {d}: {r}')
    rec.state(str(case))
