"""C15 - a shifted curve is the curve moved along the axis, by a distance or by calendar durations."""
import math
from datetime import datetime, timedelta, timezone
from curvepy import Points, Line, Constant
from curvepy.quotes import Quotes
from intervalpy import Interval
from mc.ref import MODES, LIN, subsets, is_regular, interp, pattern
from mc.trees import U
from mc import hist

PROPERTY = 'C15'


def remember_spans():
    """The calendar of the duration library is slow and has no state: each span is asked for once."""
    from pyduration import Duration
    ask = Duration.span_date
    spans = {}

    def span_date(self, date, start_open=False):
        k = (self.degree, self.unit, date, start_open)
        if k not in spans:
            spans[k] = ask(self, date, start_open=start_open)
        return spans[k]
    Duration.span_date = span_date


remember_spans()
BOUNDS = {
    'quick': 'shifts by 5 distances of 36 derived curves over every ascending subset (length 0..4) of 5 positions: values, '
             'domain, navigation, slopes and samples, also shifted twice; shifts by -3..3 units of 9 durations (second to '
             'year, uneven ones included) of curves with points on every contiguous or scattered subset of 6 unit boundaries, with and without a missing value, '
             'of curves with points between the boundaries, functions, quotes and averages, at every boundary and between; '
             'every history of length <= 2 of edits of a curve shifted by durations, with notifications monitored',
    'thorough': 'as quick with subsets of 6 positions and 7 boundaries, and histories of length 3',
}
ASSUMPTIONS = ['next and previous positions of a curve shifted by durations are compared inside its domain and next to it']
KS = [0, 1, -0.5, 2.75, -1000]
T0 = 1580000000     # 2020-01-26 00:53:20
DURATIONS = ['1s', '10s', '1m', '1h', '20h', '1d', '1w', '1M', '1y']
NAMES = [n for n in U if n not in ('exts', 'subset')]


def utc(*a):
    return datetime(*a, tzinfo=timezone.utc)


def boundaries(d, n):
    """n consecutive boundaries of a duration, by calendar."""
    out = []
    if d == '1y':
        out = [utc(2017 + i, 1, 1) for i in range(n)]
    elif d == '1M':
        out = [utc(2019 + (9 + i) // 12, (9 + i) % 12 + 1, 1) for i in range(n)]
    elif d == '1w':
        out = [utc(2020, 1, 6) + timedelta(days=7 * i) for i in range(n)]
    elif d == '1d':
        out = [utc(2020, 2, 24) + timedelta(days=i) for i in range(n)]
    elif d == '20h':
        for i in range((n + 1) // 2):
            day = utc(2020, 2, 27) + timedelta(days=i)
            out += [day, day + timedelta(hours=20)]
        out = out[:n]
    else:
        s = {'1s': 1, '10s': 10, '1m': 60, '1h': 3600}[d]
        out = [utc(2020, 2, 28, 21, 0, 0) + timedelta(seconds=s * i) for i in range(n)]
    return [x.timestamp() for x in out]


def items(tier):
    out = [['shift', name, 5 if tier == 'quick' else 6] for name in NAMES]
    out += [['duration', d, n, 6 if tier == 'quick' else 7] for d in DURATIONS for n in range(-3, 4)]
    out += [['history', d, n, tier] for d in ('1h', '1d', '20h', '1M') for n in (-2, 1, 3)]
    return out


def run_item(item, rec):
    if item[0] == 'shift':
        for i, sub in enumerate(subsets(item[2], 0, 4)):
            for mode in MODES if i % 5 == 0 else (LIN,):
                for u in ((True, False) if is_regular(sub) else (False,)):
                    for k in KS:
                        rec.run({'tree': item[1], 'xs': list(sub), 'mode': mode, 'uniform': u, 'k': k})
    elif item[0] == 'duration':
        _, d, n, size = item
        for i, sub in enumerate(subsets(size, 0, 5)):
            for mode in MODES if i % 7 == 0 else (LIN,):
                rec.run({'duration': d, 'n': n, 'idx': list(sub), 'mode': mode, 'fine': 0})
            for hole in range(len(sub)):
                rec.run({'duration': d, 'n': n, 'idx': list(sub), 'mode': LIN, 'fine': 0, 'hole': hole})
        for a in range(0, 4):
            for ln in range(1, 9):
                for every in (2, 4):
                    rec.run({'duration': d, 'n': n, 'idx': [a * 0.5 + j / every for j in range(ln)], 'mode': LIN, 'fine': 1})
        for kind in ('line', 'const', 'quotes', 'avg'):
            rec.run({'duration': d, 'n': n, 'curve': kind})
    else:
        _, d, n, tier = item
        depth = 2 if tier == 'quick' else 3
        ops = alphabet()
        for start, mode in (([], LIN), ([0, 1, 2], LIN), ([0.5, 1, 1.5, 2, 2.5], LIN), ([0, 1, 2], -1),
                            ([0.5, 1, 1.5, 2, 2.5], 1)):
            def rec_hist(h):
                if h:
                    rec.run({'edits': d, 'n': n, 'start': start, 'mode': mode, 'ops': h})
                if len(h) < depth:
                    for op in ops:
                        rec_hist(h + [op])
            rec_hist([])


def alphabet():
    return [['append', [2.5, 0]], ['append', [3, 0]], ['append', [3.25, 0]], ['append', [4, 0]],
            ['append_list', [[3, 0], [4, 0]]], ['append_list', [[2.75, 0], [3.5, 0], [4.5, 0]]],
            ['set', [[0, 0], [1, 0]]], ['set', [[0.5, 0], [1.5, 0], [2.25, 0]]],
            ['replace', [1, 0], False], ['replace', [1.25, 0], False], ['replace', [0, 0], False],
            ['reset', [1.5, 9, 0, 0]], ['reset', [0.5, 1.5, 1, 1]], ['reset', None]]


# ------------------------------------------------------------------ by a distance

def check_shift(case, rec):
    xs = case['xs']
    k = case['k']
    if case['tree'] == 'blend' and not (xs and xs[0] < 1 and xs[-1] > 2):
        return      # not defined
    pts = list(zip(xs, pattern(len(xs), 1)))

    def make():
        return U[case['tree']](Points(pts, uniform=case['uniform'], interpolation=case['mode']), case['uniform'])
    c = make()
    o = make().offset(k)
    ask = sorted(set([x + d for x in xs for d in (-0.25, 0, 2 ** -18, 0.5)] + [-1, 1.5, 2.5, 6]))
    d = c.domain
    od = o.domain
    if d.is_empty:
        rec.true(od.is_empty, f'domain {od} of a shifted empty curve')
    else:
        rec.eq([od.start, od.end, od.start_open, od.end_open], [d.start + k, d.end + k, d.start_open, d.end_open],
               f'domain shifted by {k}')
    twice = make().offset(k).offset(1.5)
    for x in ask:
        rec.step(2)
        y = c.y(x)
        rec.eq(o.y(x + k), y, f'shifted by {k}: value at {x + k}', 1e-7, 1e-7)
        rec.eq(twice.y(x + k + 1.5), y, f'shifted by {k} and 1.5: value at {x + k + 1.5}', 1e-7, 1e-7)
    if d.is_empty:
        return
    for x in ask:
        if not d.start <= x <= d.end:
            continue
        for ms in (1e-5, 0.75):
            for name, get in (('next', 'x_next'), ('previous', 'x_previous')):
                a = getattr(c, get)(x, min_step=ms)
                if a is not None and not d.start <= a <= d.end:
                    a = None
                rec.eq(getattr(o, get)(x + k, min_step=ms), None if a is None else a + k,
                       f'{name} of {x + k} (at least {ms})', 1e-7, 1e-7)
                far = 0.3 if name == 'next' else -0.3
                a = getattr(c, get)(x, min_step=ms, limit=x + far)
                if a is not None and not d.start <= a <= d.end:
                    continue
                rec.eq(getattr(o, get)(x + k, min_step=ms, limit=x + k + far), None if a is None else a + k,
                       f'{name} of {x + k} (at least {ms}, at most {far})', 1e-7, 1e-7)
        for fw in (False, True):
            rec.eq(o.d_y(x + k, forward=fw), c.d_y(x, forward=fw), f'slope at {x + k} forward={fw}', 1e-5, 1e-5)
            far = 0.3 if fw else -0.3
            for ms in (1e-5, 0.25):
                rec.eq(o.d_y(x + k, forward=fw, min_step=ms, limit=x + k + far), c.d_y(x, forward=fw, min_step=ms, limit=x + far),
                       f'slope at {x + k} forward={fw} (at least {ms}, at most {far})', 1e-5, 1e-5)
    if d.is_finite:
        want = [(x + k, y) for x, y in c.sample_points()]
        got = o.sample_points()
        if case['tree'] in ('extrema', 'extremastep'):
            got = [p for p in got if p[1] is not None]
        rec.eq(got, want, f'points shifted by {k}', 1e-7, 1e-7)
    rec.state(str(case))
    rec.outcome(str([c.y(x) for x in ask]))


# ------------------------------------------------------------------ by durations

SIZE = 14
FIRST = 4       # index of the boundary which case positions count from


def place(bs, i):
    """Position of a fractional boundary index."""
    j = math.floor(i)
    if j == i:
        return bs[FIRST + j]
    return bs[FIRST + j] + (bs[FIRST + j + 1] - bs[FIRST + j]) * (i - j)


def shifted(bs, n, f, x):
    """Value at x of f (a value function) shifted by n boundaries."""
    if n == 0:
        return f(x)
    for j in range(len(bs)):
        if bs[j] == x:
            return f(bs[j - n])
        if j + 1 < len(bs) and bs[j] < x < bs[j + 1]:
            a, b = f(bs[j - n]), f(bs[j + 1 - n])
            if a is None or b is None:
                return None
            u = (x - bs[j]) / (bs[j + 1] - bs[j])
            return a * (1 - u) + b * u
    raise AssertionError(x)


def want_domain(bs, n, lo, hi):
    if n == 0:
        return (lo, hi)
    idx = [j for j in range(len(bs)) if lo <= bs[j] <= hi]
    if not idx:
        return None
    return bs[idx[0] + n], bs[idx[-1] + n]


def positions(bs):
    out = []
    for j in range(3, SIZE - 4):
        out += [bs[j], bs[j] + (bs[j + 1] - bs[j]) * 0.25, bs[j] + (bs[j + 1] - bs[j]) * 0.75]
    return out


def check_duration(case, rec):
    d = case['duration']
    n = case['n']
    bs = boundaries(d, SIZE)
    if 'curve' in case:
        kind = case['curve']
        inner = bs[4:10]
        vals = pattern(6, 2)
        if kind == 'line':
            c, f, lo, hi = Line(p1=(bs[5], 1), slope=0.5), lambda x: 1 + 0.5 * (x - bs[5]), -math.inf, math.inf
        elif kind == 'const':
            c, lo, hi = Constant(3, domain=Interval.closed(bs[4], bs[8])), bs[4], bs[8]
            f = lambda x: 3 if bs[4] <= x <= bs[8] else None
        elif kind == 'quotes':
            q = Quotes(d, [(x, (y, y + 1, y - 1, y + 0.5, 1)) for x, y in zip(inner, vals)])
            c, lo, hi = q.high, inner[0], inner[-1]
            f = lambda x: interp(inner, [y + 1 for y in vals], x, -1)
        else:
            from pyduration import Duration
            u = Duration.parse(d).is_uniform
            c, lo, hi = Points(list(zip(inner, vals)), uniform=u).sma(2, uniform=u), inner[1], inner[-1]
            means = [(a + b) / 2 for a, b in zip(vals, vals[1:])]
            f = lambda x: interp(inner[1:], means, x, LIN)
    else:
        xs = [place(bs, i) for i in case['idx']]
        ys = pattern(len(xs), 1)
        if 'hole' in case:
            ys[case['hole']] = None
        c = Points(list(zip(xs, ys)), uniform=False, interpolation=case['mode'])
        f = lambda x: interp(xs, ys, x, case['mode'])
        lo, hi = (xs[0], xs[-1]) if xs else (1, 0)
    o = c.offset(n, duration=d)
    what = f'{n} x {d}'
    dom = want_domain(bs, n, lo, hi) if not math.isinf(lo) else (-math.inf, math.inf)
    got = o.domain
    if dom is None or dom[0] > dom[1]:
        rec.true(got.is_empty, f'{what}: domain {got} although no boundary has a value')
    else:
        rec.eq([got.start, got.end], list(dom), f'{what}: domain', 0, 1e-6)
    ref = []
    for x in positions(bs):
        rec.step()
        y = shifted(bs, n, f, x)
        rec.eq(o.y(x), y, f'{what}: value at {x}', 1e-7, 1e-6)
        ref.append(y)
    if n and dom is not None and dom[0] <= dom[1] and not math.isinf(lo):
        marks = [b for b in bs if dom[0] <= b <= dom[1]]
        near = (bs[bs.index(dom[0]) - 1], bs[bs.index(dom[1]) + 1])
        for x in positions(bs):
            if near[0] <= x <= near[1]:
                rec.step(2)
                rec.eq(o.x_next(x), min([b for b in marks if b > x], default=None), f'{what}: next of {x}', 0, 1e-6)
                rec.eq(o.x_previous(x), max([b for b in marks if b < x], default=None), f'{what}: previous of {x}', 0, 1e-6)
        unit = bs[5] - bs[4]
        for x in positions(bs):
            if dom[0] <= x <= dom[1]:
                for m in (1.25 * unit, 2.5 * unit):
                    after, before = min([b for b in marks if b >= x + m], default=None), max([b for b in marks if b <= x - m], default=None)
                    rec.step(2)
                    rec.eq(o.x_next(x, min_step=m), after, f'{what}: next of {x} by {m}', 0, 1e-6)
                    rec.eq(o.x_previous(x, min_step=m), before, f'{what}: previous of {x} by {m}', 0, 1e-6)
                    for far in (0.3 * unit, 1.4 * unit):
                        if after is not None:
                            rec.eq(o.x_next(x, min_step=m, limit=x + far), min(after, x + far), f'{what}: next of {x} by {m}, at most {far}', 0, 1e-6)
                        if before is not None:
                            rec.eq(o.x_previous(x, min_step=m, limit=x - far), max(before, x - far), f'{what}: previous of {x} by {m}, at most {far}', 0, 1e-6)
        rec.eq(o.sample_points(), [(b, shifted(bs, n, f, b)) for b in marks], f'{what}: points', 1e-15, 1e-6)
        if len(marks) > 2:
            mid = (marks[0] + marks[1]) / 2
            rec.eq(o.sample_points(Interval.closed(mid, marks[-1])),
                   [(x, shifted(bs, n, f, x)) for x in [mid] + marks[1:]], f'{what}: points from {mid}', 1e-15, 1e-6)
    rec.state(str(case))
    rec.outcome(str(ref))


def at(bs, op):
    kind = op[0]
    if kind in ('append', 'replace'):
        return [kind, [place(bs, op[1][0]), op[1][1]]] + op[2:]
    if kind in ('append_list', 'set'):
        return [kind, [[place(bs, p[0]), p[1]] for p in op[1]]]
    if op[1] is None:
        return op
    return [kind, [place(bs, op[1][0]), place(bs, op[1][1])] + op[1][2:]]


def check_edits(case, rec):
    bs = boundaries(case['edits'], SIZE)
    n = case['n']
    start = [(place(bs, i), float(3 * j - 1)) for j, i in enumerate(case['start'])]
    mode = case['mode']
    p = Points(start, uniform=False, interpolation=mode)
    m = hist.RefPoints(start, mode, False)
    o = p.offset(n, duration=case['edits'])
    ask = positions(bs)

    def model(m):
        return [shifted(bs, n, m.y, x) for x in ask]
    before = model(m)
    seen = []
    o.add_observer(begin=lambda d: seen.append(('begin', d, [o.y(x) for x in ask])),
                   end=lambda d: seen.append(('end', d, [o.y(x) for x in ask])))
    total = o.integral(interpolation=LIN, uniform=False)
    total.y(ask[-1])
    for i, op in enumerate(case['ops']):
        op = at(bs, hist.stamp(op, i))
        m1 = hist.model_apply(m, op)
        del seen[:]
        ok = hist.impl_apply(p, op)
        rec.step()
        if m1 is hist.REFUSED:
            rec.true(not ok, f'{op} was accepted')
            m1 = m
        else:
            rec.true(ok, f'{op} was refused')
        after = model(m1)
        rec.eq([o.y(x) for x in ask], after, f'values after edit {i} {op}', 1e-7, 1e-6)
        changed = [x for x, a, b in zip(ask, before, after) if not hist_same(a, b)]
        if changed:
            rec.true([s[0] for s in seen] == ['begin', 'end'], f'notifications {[s[0] for s in seen]} for {op}')
            rec.eq(seen[0][2], before, f'values at the begin of {op}', 1e-7, 1e-6)
            rec.eq(seen[1][2], after, f'values at the end of {op}', 1e-7, 1e-6)
            for x in changed:
                for name, d, _ in seen:
                    rec.true(d.contains(x), f'{name} announced {d} although the value at {x} changes')
        lo = min(m1.xs, default=None)
        dom = want_domain(bs, n, m1.xs[0], m1.xs[-1]) if m1.xs else None
        got = o.domain
        if dom is None or dom[0] > dom[1]:
            rec.true(got.is_empty, f'domain {got} after {op}')
        else:
            rec.eq([got.start, got.end], list(dom), f'domain after {op}', 0, 1e-6)
            fresh = Points(m1.points, uniform=False, interpolation=mode).offset(n, duration=case['edits']).integral(interpolation=LIN, uniform=False)
            xs = [x for x in ask if dom[0] <= x <= dom[1]]
            rec.eq([total.y(x) for x in xs], [fresh.y(x) for x in xs], f'integral of the shifted curve after {op}', 1e-7, 1e-3)
        m, before = m1, after
        rec.state((m.key(), n, case['edits']))
    rec.outcome(str(before))


def hist_same(a, b):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= 1e-9


def check_case(case, rec):
    if 'tree' in case:
        return check_shift(case, rec)
    if 'duration' in case:
        return check_duration(case, rec)
    return check_edits(case, rec)
