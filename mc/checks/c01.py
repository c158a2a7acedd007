"""C01 - a point curve reproduces its points and its interpolation."""
import itertools
from curvepy import Points
from mc.ref import MODES, interp, subsets, is_regular, probes, pattern

PROPERTY = 'C01'
BOUNDS = {
    'quick': 'all ascending subsets (length 0..5) of 6 grid positions x 3 interpolations x both uniform flags x '
             'all value vectors over {None,-2,0,1.5} (length<=3; 12 vectors above) x 8 grid scalings; lists of '
             '6..140 points (uniform, one gap, alternating steps); all probe positions, down to a billionth of a step behind and before a point, in 3 read orders',
    'thorough': 'as quick with subsets of 7 positions up to length 6, all value vectors up to length 4, 11 scalings, '
                'lists of 6..400 points with the gap at every position',
}
ASSUMPTIONS = ['points are strictly ascending in x (documented precondition)']

SCALES_Q = [(0, 1), (-3, 1), (0, 0.1), (0.5, 0.25), (-1.7, 0.3), (1580000000, 86400), (100, 10), (0, 0.5)]
SCALES_T = SCALES_Q + [(-1e6, 7), (1580000000.5, 0.125), (0, 1e-3)]
VALS = [None, -2, 0, 1.5]
VECS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]


def long_xs(kind, n, gap=None):
    if kind == 'u':
        return [i for i in range(n)]
    if kind == 'gap':
        return [i + (1.5 if i >= gap else 0) for i in range(n)]
    if kind == 'alt':
        return [i + (0.5 if i % 2 else 0) for i in range(n)]
    raise AssertionError(kind)


def vec(n, k):
    ys = pattern(n, k)
    if k % 4 == 3 and n > 1:
        ys[k % n] = None
    return ys


def items(tier):
    grid, maxlen = (6, 5) if tier == 'quick' else (7, 6)
    full = 3 if tier == 'quick' else 4
    scales = SCALES_Q if tier == 'quick' else SCALES_T
    out = []
    for s in scales:
        for mode in MODES:
            out.append(['small', grid, maxlen, full, list(s), mode])
    ns = [6, 9, 17, 33, 64, 100, 140] if tier == 'quick' else [6, 9, 17, 33, 64, 100, 140, 257, 400]
    for n in ns:
        for mode in MODES:
            out.append(['long', n, tier, mode])
    return out


def run_item(item, rec):
    if item[0] == 'small':
        _, grid, maxlen, full, (o, s), mode = item
        for sub in subsets(grid, 0, maxlen):
            xs = [o + i * s for i in sub]
            n = len(xs)
            if n <= full:
                vecs = itertools.product(VALS, repeat=n)
            else:
                vecs = (tuple(vec(n, k)) for k in VECS)
            for ys in vecs:
                for uniform in ((False, True) if is_regular(xs) and grid_exact(xs) else (False,)):
                    rec.run({'xs': xs, 'ys': list(ys), 'mode': mode, 'uniform': uniform})
    else:
        _, n, tier, mode = item
        gaps = range(1, n) if tier == 'thorough' and n <= 140 else (1, 2, n // 2, n - 2, n - 1)
        shapes = [('u', None), ('alt', None)] + [('gap', g) for g in gaps]
        for kind, gap in shapes:
            xs = long_xs(kind, n, gap)
            for k in (0, 1, 3):
                rec.run({'xs': xs, 'ys': vec(n, k), 'mode': mode, 'uniform': False})
                if kind == 'u':
                    rec.run({'xs': xs, 'ys': vec(n, k), 'mode': mode, 'uniform': True})


def grid_exact(xs):
    """Equal steps without rounding: only these may be declared uniform without ambiguity."""
    return len(xs) < 3 or all(b - a == xs[1] - xs[0] for a, b in zip(xs, xs[1:])) \
        and xs[0] + (xs[1] - xs[0]) * (len(xs) - 1) == xs[-1]


def check_case(case, rec):
    xs, ys, mode = case['xs'], case['ys'], case['mode']
    given = list(zip(xs, ys))
    p = Points(given, interpolation=mode, uniform=case['uniform'])
    rec.state((tuple(xs), tuple(ys), mode, case['uniform']))
    if not xs:
        rec.true(p.domain.is_empty, 'domain of an empty point curve is not empty')
        rec.eq(p.y_start(), None, 'y_start of an empty curve')
        rec.eq(p.y_end(), None, 'y_end of an empty curve')
        rec.eq(p.first_point(), None, 'first_point of an empty curve')
        rec.eq(p.last_point(), None, 'last_point of an empty curve')
        rec.eq(p.sample_points(), [], 'points of an empty curve')
    else:
        d = p.domain
        rec.true(d.start == xs[0] and d.end == xs[-1] and not d.start_open and not d.end_open, f'domain {d}')
        rec.eq(p.y_start(), ys[0], 'y_start')
        rec.eq(p.y_end(), ys[-1], 'y_end')
        rec.eq(p.first_point(), (xs[0], ys[0]), 'first_point')
        rec.eq(p.last_point(), (xs[-1], ys[-1]), 'last_point')
        rec.eq(p.sample_points(), given, 'sample_points()')
    ask = probes(xs, dense=True) + [x for a, b in zip(xs[:5], xs[1:]) for f in (1e-7, 1e-9) for x in (a + f * (b - a), b - f * (b - a))]
    want = [interp(xs, ys, x, mode) for x in ask]
    n = len(ask)
    for order in (range(n), range(n - 1, -1, -1), range(0, n, 2)):
        for i in order:
            x = ask[i]
            rec.step()
            got = p.y(x)
            own = x in xs
            if own:
                # exact: no rounding is involved in returning a stored value
                if got != want[i]:
                    rec.fail(f'y({x}) at a stored point: got {got!r}, stored {want[i]!r}')
            else:
                rec.eq(got, want[i], f'y({x})')
    rec.eq(p(ask[n // 2]), want[n // 2], f'call({ask[n // 2]})')
    rec.outcome(tuple(want))
