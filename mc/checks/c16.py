"""C16 - curves put together from pieces: piecewise, blends, subsets and tuples of curves."""
import itertools
import math
from curvepy import Points, Line, Constant, Curve
from curvepy.empty import Empty
from curvepy.generic import Generic
from curvepy.piecewise import Piecewise
from curvepy.aggregate import Aggregate
from intervalpy import Interval
from mc.ref import LIN, MODES, Iv, interp, subsets, pattern
from mc import hist

PROPERTY = 'C16'
BOUNDS = {
    'quick': 'every 1 to 3 pieces of every set of 1..5 points, side by side and with gaps, whole and cut short, walked in 5 steps and sampled between '
             'all points; every 1, 2 and 3 of 10 curves over every tiling of [0, 6] (all open/closed joints) and over pieces with gaps, '
             'unbounded pieces included, at 25 positions; every pair of 9 curves blended over 13 ranges; every curve cut to 12 '
             'intervals and cut twice; tuples and defaults; every history of 2 edits of a point curve in a piece, a blend and '
             'a subset',
    'thorough': 'as quick with 4 pieces and histories of 3 edits',
}
ASSUMPTIONS = ['the pieces of a blend are those of the first curve when the blend is made']
X = [0, 1, 2, 3.5, 5]
Y = [3, -1, 4, 0, 2]
YH = [3, None, 4, 0, None]

F = {
    'const': (lambda: Constant(7), lambda x: 7, Iv(-math.inf, math.inf)),
    'constd': (lambda: Constant(8, domain=Interval.closed(1, 3)), lambda x: 8 if 1 <= x <= 3 else None, Iv(1, 3)),
    'line': (lambda: Line(const=1, slope=2), lambda x: 1 + 2 * x, Iv(-math.inf, math.inf)),
    'lin': (lambda: Points(list(zip(X, Y)), uniform=False), lambda x: interp(X, Y, x, LIN), Iv(0, 5)),
    'prev': (lambda: Points(list(zip(X, Y)), uniform=False, interpolation=-1), lambda x: interp(X, Y, x, -1), Iv(0, 5)),
    'next': (lambda: Points(list(zip(X, Y)), uniform=False, interpolation=1), lambda x: interp(X, Y, x, 1), Iv(0, 5)),
    'hole': (lambda: Points(list(zip(X, YH)), uniform=False), lambda x: interp(X, YH, x, LIN), Iv(0, 5)),
    'neg': (lambda: -Points(list(zip(X, Y)), uniform=False), lambda x: None if interp(X, Y, x, LIN) is None else
            -interp(X, Y, x, LIN), Iv(0, 5)),
    'off': (lambda: Points(list(zip(X, Y)), uniform=False).offset(2), lambda x: interp(X, Y, x - 2, LIN), Iv(2, 7)),
    'empty': (lambda: Empty(), lambda x: None, Iv(1, 0)),
}
ASK = [-3, -0.5, 0, 0.25, 0.999, 1 - 2 ** -18, 1, 1 + 2 ** -18, 1.001, 1.5, 1.999, 2, 2.001, 2.5, 3, 3.25, 3.5, 3.75, 4, 4.5, 4.999, 5, 5 + 2 ** -18, 5.25, 5.5, 6, 6.5, 9]


def tilings(n):
    """Adjacent pieces of [0, 6]; every inner joint belongs to the left or to the right piece."""
    for joints in itertools.combinations((1, 2, 3.5, 5), n - 1):
        for left in itertools.product((False, True), repeat=n - 1):
            out = []
            for i in range(n):
                a = joints[i - 1] if i else 0
                b = joints[i] if i < n - 1 else 6
                out.append([a, b, bool(i and left[i - 1]), bool(i < n - 1 and not left[i])])
            yield out


GAPS = [
    [[0, 1, 0, 0], [2, 3, 0, 0]], [[0, 1, 0, 1], [2, 3, 1, 0]], [[0, 2, 0, 1], [2, 4, 1, 0]], [[-math.inf, 1, 1, 0], [2, 4, 0, 0]],
    [[-math.inf, 2, 1, 1], [2, math.inf, 0, 1]], [[0, 1, 1, 1], [3.5, math.inf, 1, 1]], [[1, 1, 0, 0], [2, 2, 0, 0]],
    [[0, 1, 0, 0], [1, 2, 1, 0], [4, 5, 0, 1]], [[-1, 0, 0, 1], [0, 0, 0, 0], [0, 6, 1, 0]],
    [[-math.inf, 0, 1, 0], [1, 2, 0, 0], [3, math.inf, 1, 1]],
]
CUTS = [[0, 5, 0, 0], [0, 5, 1, 1], [1, 3.5, 0, 1], [1, 3.5, 1, 0], [1.5, 2.5, 0, 0], [-2, 9, 0, 0], [2, 2, 0, 0], [6, 8, 0, 0],
        [-math.inf, 2, 1, 0], [2, math.inf, 1, 1], [-math.inf, math.inf, 1, 1], [4, 9, 1, 0]]
RANGES = [[1, 2], [0, 5], [0, 1], [1.5, 3], [2, 2.25], [3.5, 5], [0.5, 4.5], [1, 3], [2, 3.5], [0.25, 0.5],
          [-1000, 1000], [4, 7], [7, 8]]


def items(tier):
    names = list(F)
    out = [['pieces', 1, a] for a in names] + [['pieces', 2, a] for a in names] + [['pieces', 3, a] for a in names]
    if tier == 'thorough':
        out += [['pieces', 4, a] for a in names]
    out += [['gaps', i] for i in range(len(GAPS))]
    out += [['walk', k] for k in range(8)]
    out += [['blend', a] for a in names] + [['cut', a] for a in names] + [['tuple', a] for a in names]
    out += [['edits', kind, m, 2 if tier == 'quick' else 3] for kind in EDITED for m in MODES]
    return out


def run_item(item, rec):
    names = list(F)
    if item[0] == 'pieces':
        _, n, a = item
        for rest in itertools.product(names, repeat=n - 1):
            for t in tilings(n):
                rec.run({'pieces': [a] + list(rest), 'domains': t})
    elif item[0] == 'gaps':
        t = GAPS[item[1]]
        for fs in itertools.product(names, repeat=len(t)):
            rec.run({'pieces': list(fs), 'domains': t})
    elif item[0] == 'walk':
        n = 0
        for ks in subsets(7, 1, 5):
            for joints in splits(len(ks)):
                n += 1
                if n % 8 == item[1]:
                    for tiled in (False, True):
                        for form in ('points', 'neg', 'off'):
                            case = {'walk': list(ks), 'joints': list(joints), 'tiled': tiled, 'form': form, 'mode': MODES[n % 3]}
                            rec.run(case)
                            last = len(ks) - (joints[-1] if joints else 0)
                            first = joints[0] if joints else len(ks)
                            if last > 1:
                                rec.run({**case, 'short': 'end'})
                            if first > 1:
                                rec.run({**case, 'short': 'start'})
    elif item[0] == 'blend':
        for b in names:
            for r in RANGES:
                rec.run({'blend': [item[1], b], 'range': r})
    elif item[0] == 'cut':
        for c in CUTS:
            rec.run({'cut': item[1], 'to': [c]})
            for c2 in CUTS:
                rec.run({'cut': item[1], 'to': [c, c2]})
    elif item[0] == 'tuple':
        for b in names:
            for union in (False, True):
                for default in (None, -7):
                    rec.run({'tuple': [item[1], b], 'union': union, 'default': default})
                    rec.run({'tuple': [item[1], b, 'lin'], 'union': union, 'default': default})
    else:
        _, kind, mode, depth = item
        ops = EDITS

        def go(h):
            if h:
                rec.run({'edited': kind, 'mode': mode, 'ops': h})
            if len(h) < depth:
                for op in ops:
                    go(h + [op])
        go([])


def splits(n):
    """Ways to cut n points into up to three pieces."""
    for k in range(min(n, 3)):
        yield from itertools.combinations(range(1, n), k)


def check_walk(case, rec):
    """From point to point through the pieces, and samples of all of them."""
    ks, mode = case['walk'], case['mode']
    cuts = [0] + case['joints'] + [len(ks)]
    vals = pattern(len(ks), 1)
    parts, doms, f = [], [], {}
    for a, b in zip(cuts, cuts[1:]):
        xs, ys = ks[a:b], vals[a:b]
        sign = -1 if case['form'] == 'neg' else 1
        by = 2.5 if case['form'] == 'off' else 0
        p = Points([(x - by, sign * y) for x, y in zip(xs, ys)], uniform=False, interpolation=mode)
        parts.append(-p if case['form'] == 'neg' else p.offset(by) if by else p)
        last = b == len(ks)
        doms.append(Interval(xs[0], xs[-1] if last or not case['tiled'] else ks[b], end_open=not last and case['tiled']))
        f.update(zip(xs, ys))
    if case.get('short') == 'end':
        # the last piece ends between its last two points, the first begins between its first two
        d, x = doms[-1], (ks[-2] + ks[-1]) / 2
        doms[-1] = Interval(d.start, x)
        ks = ks[:-1] + [x]
    elif case.get('short'):
        d, x = doms[0], (ks[0] + ks[1]) / 2
        doms[0] = Interval(x, d.end, end_open=d.end_open)
        ks = [x] + ks[1:]
    if 'short' in case:
        f[x] = interp(case['walk'], vals, x, mode)
    c = Piecewise(parts, doms)
    what = f'pieces {doms} over {ks}'
    for x in [ks[0] - 1] + [k + d for k in ks for d in (0, 0.5)] + [ks[-1] + 1]:
        for ms in (None, 0.5, 1, 1.5, 3):
            rec.step(2)
            if 'short' in case and not ks[0] <= x <= ks[-1]:
                continue
            kw = {} if ms is None else {'min_step': ms}
            n = min((k for k in ks if (k > x if ms is None else k >= x + ms)), default=None)
            # the end of a piece which is no point is found from within the piece
            if 'short' not in case or n != ks[-1] or doms[-1].contains(x):
                rec.eq(c.x_next(x, **kw), n, f'{what}: next after {x} by {ms}')
            n = max((k for k in ks if (k < x if ms is None else k <= x - ms)), default=None)
            if 'short' not in case or n != ks[0] or doms[0].contains(x):
                rec.eq(c.x_previous(x, **kw), n, f'{what}: previous to {x} by {ms}')
    rec.eq(c.sample_points(), [(k, f[k]) for k in ks], f'{what}: samples')
    r = c.get_range()
    rec.eq([r.start, r.end], [min(f[k] for k in ks), max(f[k] for k in ks)], f'{what}: range')
    for a in range(len(ks)):
        for b in range(a, len(ks)):
            rec.step()
            got = c.sample_points(Interval.closed(ks[a], ks[b]))
            rec.eq(got, [(k, f[k]) for k in ks[a:b + 1]], f'{what}: samples from {ks[a]} to {ks[b]}')
            got = c.sample_points_from_x(ks[a], b - a + 1)
            rec.eq(got, [(k, f[k]) for k in ks[a:b + 1]], f'{what}: {b - a + 1} samples from {ks[a]}')
            got = c.sample_points_from_x(ks[b], b - a + 1, backward=True)
            rec.eq(got, [(k, f[k]) for k in ks[a:b + 1][::-1]], f'{what}: {b - a + 1} samples back from {ks[b]}')
    rec.state(str(case))


def iv(j):
    return Interval(j[0], j[1], start_open=bool(j[2]), end_open=bool(j[3]))


def hull(ds):
    ds = [d for d in ds if not d.empty]
    if not ds:
        return None
    a = min(d.a for d in ds)
    b = max(d.b for d in ds)
    return Iv(a, b, all(d.so for d in ds if d.a == a), all(d.eo for d in ds if d.b == b))


def same_domain(rec, got, want, what):
    if want is None or want.empty:
        rec.true(got.is_empty, f'{what}: domain {got} instead of none')
        return
    rec.eq([got.start, got.end], [want.a, want.b], f'{what}: domain')
    for edge, o, w in ((want.a, got.start_open, want.so), (want.b, got.end_open, want.eo)):
        if not math.isinf(edge):
            rec.eq(bool(o), bool(w), f'{what}: domain {got} open at {edge}')


def check_pieces(case, rec):
    fs = case['pieces']
    ds = [Iv(float(d[0]), float(d[1]), bool(d[2]), bool(d[3])) for d in case['domains']]
    c = Piecewise([F[f][0]() for f in fs], [iv([d.a, d.b, d.so, d.eo]) for d in ds])

    def want(x):
        for f, d in zip(fs, ds):
            if d.has(x):
                return F[f][1](x)
        return None
    same_domain(rec, c.domain, hull(ds), f'pieces {fs} over {case["domains"]}')
    ref = [want(x) for x in ASK]
    for i, x in enumerate(ASK):
        rec.step()
        rec.eq(c.y(x), ref[i], f'pieces {fs} over {case["domains"]} at {x}')
    if c.domain.is_finite and not c.domain.is_empty:
        d = hull(ds)
        xs = []
        x = d.a
        while x <= d.b:
            xs.append(x)
            x += 0.5
        if d.so:
            xs = xs[1:]
        if d.eo and xs and xs[-1] == d.b:
            xs = xs[:-1]
        rec.eq(c.sample_points(step=0.5), [(x, want(x)) for x in xs], f'points of pieces {fs} over {case["domains"]}')
    rec.state(str(case))
    rec.outcome(str(ref))


def check_blend(case, rec):
    a, b = case['blend']
    s, e = case['range']
    dom = F[a][2]
    c = F[a][0]().blend(F[b][0](), s, e)

    def want(x):
        if not dom.has(x):
            return None
        if x < s:
            return F[a][1](x)
        if x >= e:
            return F[b][1](x)
        y0, y1 = F[a][1](x), F[b][1](x)
        if y0 is None or y1 is None:
            return None
        u = (x - s) / (e - s)
        return (1 - u) * y0 + u * y1
    ask = ASK + [s, e, (s + e) / 2, s + (e - s) * 0.9]
    for x in ask:
        rec.step()
        rec.eq(c.y(x), want(x), f'blend of {a} and {b} over {s} to {e} at {x}')
    same_domain(rec, c.domain, dom, f'blend of {a} and {b}')
    rec.state(str(case))
    rec.outcome(str([want(x) for x in ask]))


def check_cut(case, rec):
    f = case['cut']
    c = F[f][0]()
    ds = []
    for j in case['to']:
        j = [float(j[0]), float(j[1]), j[2], j[3]]
        c = c.subset(iv(j))
        ds.append(Iv(j[0], j[1], bool(j[2]), bool(j[3])))
    for x in ASK:
        rec.step()
        want = F[f][1](x) if all(d.has(x) for d in ds) else None
        rec.eq(c.y(x), want, f'{f} cut to {case["to"]} at {x}')
    rec.state(str(case))
    rec.outcome(str([c.y(x) for x in ASK]))


def check_tuple(case, rec):
    fs = case['tuple']
    c = Aggregate([F[f][0]() for f in fs], union=case['union'], default=case['default'])
    doms = [F[f][2] for f in fs]
    if case['union']:
        dom = hull(doms)
    else:
        dom = doms[0]
        for d in doms[1:]:
            dom = dom.meet(d)
    for x in ASK:
        rec.step()
        want = [F[f][1](x) for f in fs] if dom is not None and dom.has(x) else case['default']
        rec.eq(c.y(x), want, f'tuple of {fs} at {x}')
    rec.state(str(case))


# ------------------------------------------------------------------ edits of a part

EDITS = [['append', [4, 0]], ['append', [4.5, 0]], ['append_list', [[4, 0], [6, 0]]], ['replace', [2, 0], False],
         ['replace', [0, 0], False], ['replace', [2.5, 0], False], ['reset', [0.5, 1.5, 0, 0]], ['reset', [2, 9, 0, 0]],
         ['reset', None], ['set', [[1, 0], [3, 0]]], ['set', []], ['append', [2, 0]]]


def piece_first(p):
    return Piecewise([p, Constant(9)], [Interval.open_closed(-1, 2), Interval.open_closed(2, 6)])


def piece_twice(p):
    return Piecewise([p, -p], [iv([0, 2, 0, 1]), iv([2, 9, 0, 0])])


def blend_with_line(p):
    return Line(const=0, slope=1).blend(p, 1, 2)


EDITED = {
    'first': (piece_first, lambda f, x: f(x) if -1 < x <= 2 else 9 if 2 < x <= 6 else None),
    'twice': (piece_twice, lambda f, x: None if f(x) is None else f(x) if 0 <= x < 2 else -f(x) if x <= 9 else None),
    'nested': (lambda p: Piecewise([piece_first(p), Constant(1)], [iv([0, 4, 0, 1]), iv([4, 5, 0, 0])]),
               lambda f, x: None if not 0 <= x <= 5 else 1 if x >= 4 else 9 if x > 2 else f(x)),
    'blend': (blend_with_line, lambda f, x: x if x < 1 else f(x) if x >= 2 else None if f(x) is None else
              (2 - x) * x + (x - 1) * f(x)),
    'later': (lambda p: Piecewise([Constant(0), p], [iv([0, 4, 0, 1]), iv([4, 9, 0, 0])]),
              lambda f, x: 0 if 0 <= x < 4 else f(x) if 4 <= x <= 9 else None),
    'cut': (lambda p: p.subset(Interval.closed_open(1, 4)), lambda f, x: f(x) if 1 <= x < 4 else None),
    'tuple': (lambda p: Aggregate([p, p.offset(1)], union=True), None),
}


def check_edits(case, rec):
    make, value = EDITED[case['edited']]
    start = [(0, 5), (1, 2), (2, 7), (3, -1)]
    p = Points(start, uniform=False, interpolation=case['mode'])
    m = hist.RefPoints(start, case['mode'], False)
    c = make(p)
    regions = {'begin': [], 'end': []}
    c.add_observer(begin=lambda d: regions['begin'].append(d), end=lambda d: regions['end'].append(d))

    def ref(m, x):
        if value is not None:
            return value(m.y, x)
        if not m.xs or not m.xs[0] <= x <= m.xs[-1] + 1:
            return None
        return [m.y(x), m.y(x - 1)]
    before = [ref(m, x) for x in ASK]
    rec.eq([c.y(x) for x in ASK], before, 'at first')
    for i, op in enumerate(case['ops']):
        op = hist.stamp(op, i)
        m1 = hist.model_apply(m, op)
        regions['begin'].clear()
        regions['end'].clear()
        ok = hist.impl_apply(p, op)
        rec.step()
        if m1 is hist.REFUSED:
            rec.true(not ok, f'{op} accepted')
            m1 = m
        after = [ref(m1, x) for x in ASK]
        rec.eq([c.y(x) for x in ASK], after, f'after edit {i} {op}')
        for x, a, b in zip(ASK, before, after):
            if a != b and not (value is None and b == [None, None]):
                rec.true(all(any(d.contains(x) for d in ds) for ds in regions.values()),
                         f'{op} changed {x}, announced {regions}')
        m, before = m1, after
        rec.state((case['edited'], m.key()))
    rec.outcome(str(before))


def check_case(case, rec):
    if 'walk' in case:
        return check_walk(case, rec)
    for k, f in (('pieces', check_pieces), ('blend', check_blend), ('cut', check_cut), ('tuple', check_tuple),
                 ('edited', check_edits)):
        if k in case:
            return f(case, rec)
