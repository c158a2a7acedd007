"""C17 - quotes and the curves and indicators made of them."""
import math
from curvepy import Points
from curvepy.quotes import Quotes
from intervalpy import Interval
from mc.ref import LIN, interp
from mc.checks import c15
from mc.checks.c10 import average

PROPERTY = 'C17'
BOUNDS = {
    'quick': 'quotes of 8 durations (even and uneven), 0..6 quotes, 3 value patterns, with and without encoder, as tuples and '
             'lists: all parts at every position; listed quotes, range and samples over every interval between 11 positions '
             'with all open/closed ends; all samples in 5 steps over every span, next and previous quotes by 5 steps; trailing highs and lows over 1..4 quotes and 2 periods; every history of 3 of 9 edits '
             'with all parts, listing, range and trailing extremes re-read; oscillator, alligator and averages over 3 patterns '
             'of 60 quotes of 3 durations, built at once, one by one and in blocks',
    'thorough': 'as quick with 0..8 quotes, 5 value patterns and histories of 4 edits',
}
ASSUMPTIONS = ['volumes are present when they are read']
DUR = ['1s', '1m', '1h', '20h', '1d', '1w', '1M', '1y']
PARTS = ['open', 'high', 'low', 'close', 'volume', 'hl2']
SIZE = 16
FIRST = 4


def quote(i, k):
    """Quote number i of pattern k."""
    mid = 20 + ((i * i * (k + 3) + 5 * i * (k + 1)) % 17)
    up = 1 + (i * 7 + k) % 5
    down = 1 + (i * 5 + 2 * k) % 4
    o = mid + ((i + k) % 3 - 1) * 0.5
    c = mid + ((2 * i + k) % 3 - 1) * 0.5
    return (o, mid + up, mid - down, c, 10 + i * 3 % 7)


def part(name, q):
    if name == 'hl2':
        return (q[1] + q[2]) / 2
    return q[['open', 'high', 'low', 'close', 'volume'].index(name)]


def items(tier):
    n = 7 if tier == 'quick' else 9
    k = 3 if tier == 'quick' else 5
    out = [['static', d, n, k] for d in DUR]
    out += [['history', d, 3 if tier == 'quick' else 4, f] for d in ('1h', '20h', '1M') for f in range(9)]
    out += [['long', d, p] for d in ('1h', '1d', '1M') for p in range(3)]
    return out


def run_item(item, rec):
    if item[0] == 'static':
        _, d, n, k = item
        for c in range(n):
            for p in range(k):
                for form in ('tuple', 'list', 'encoder'):
                    rec.run({'duration': d, 'count': c, 'pattern': p, 'form': form})
    elif item[0] == 'history':
        _, d, depth, first = item
        for warm in (False, True):
            def go(h):
                rec.run({'edits': d, 'ops': h, 'warm': warm})
                if len(h) < depth:
                    for op in OPS:
                        go(h + [op])
            go([OPS[first]])
    else:
        for build in ('set', 'one', 'blocks'):
            rec.run({'long': item[1], 'pattern': item[2], 'build': build})


def encoder(d):
    return (d['t'], (d['o'], d['h'], d['l'], d['c'], d['v']))


def give(points, form):
    if form == 'tuple':
        return points
    if form == 'list':
        return [[x, list(q)] for x, q in points]
    return [dict(zip('tohlcv', (x,) + tuple(q))) for x, q in points]


def inside(bs, lo, hi, lo_open, hi_open):
    """Positions of the quotes whose time span [b, next) meets the interval."""
    out = []
    for a, b in zip(bs, bs[1:]):
        if b > lo and (a < hi or (a == hi and not hi_open)) and not (lo_open and hi_open and lo == hi):
            out.append(a)
    return out


def plain(v):
    if v is None:
        return None
    return list(v)


def check_parts(q, pts, bs, ask, rec, what):
    xs = [p[0] for p in pts]
    for x in ask:
        rec.step()
        w = interp(xs, [p[1] for p in pts], x, -1)
        rec.eq(plain(q.y(x)), plain(w), f'{what}: quote at {x}')
        for name in PARTS:
            rec.eq(getattr(q, name).y(x), None if w is None else part(name, w), f'{what}: {name} at {x}')
    for name in PARTS:
        c = getattr(q, name)
        rec.true(c is getattr(q, name), f'{name} is another curve when asked for again')
        rec.eq(c.sample_points(), [(x, part(name, v)) for x, v in pts], f'{what}: points of {name}', 1e-15, 1e-9)
        rec.eq(c.x_next(2 * bs[FIRST] - bs[FIRST + 2]), xs[0] if xs else None, f'{what}: first position of {name}', 1e-15)
    got = q.sample_points()
    rec.eq([[x, plain(v)] for x, v in got], [[x, plain(v)] for x, v in pts], f'{what}: all quotes', 1e-15, 1e-9)
    rec.eq([plain(v) for v in q.sample()], [plain(v) for _, v in pts], f'{what}: all sampled quotes')
    rec.eq(plain(q.first_quote()), plain(pts[0][1]) if pts else None, f'{what}: first quote')
    rec.eq(plain(q.last_quote()), plain(pts[-1][1]) if pts else None, f'{what}: last quote')
    dom = q.domain
    span = q.get_quote_domain()
    r = q.get_range()
    if not pts:
        rec.true(dom.is_empty and span.is_empty and r.is_empty, f'{what}: domain {dom}, span {span}, range {r}')
        return
    rec.eq([dom.start, dom.end], [xs[0], xs[-1]], f'{what}: domain', 0, 1e-6)
    rec.eq([span.start, span.end], [xs[0], bs[bs.index(xs[-1]) + 1]], f'{what}: time span', 0, 1e-6)
    rec.true(not span.start_open and span.end_open, f'{what}: time span {span}')
    rec.eq([r.start, r.end], [min(v[2] for _, v in pts), max(v[1] for _, v in pts)], f'{what}: range')


def check_windows(q, pts, bs, rec, what):
    xs = [p[0] for p in pts]
    marks = []
    for j in range(3, SIZE - 5, 2):
        marks += [bs[j], bs[j] + (bs[j + 1] - bs[j]) / 2]
    marks = marks[:11]
    for i, lo in enumerate(marks):
        for hi in marks[i:]:
            for so in (False, True):
                for eo in (False, True):
                    if lo == hi and (so or eo):
                        continue
                    rec.step()
                    iv = Interval(lo, hi, start_open=so, end_open=eo)
                    sel = set(inside(bs, lo, hi, so, eo))
                    want = [p for p in pts if p[0] in sel]
                    got = q.sample_points(domain=iv)
                    rec.eq([[x, plain(v)] for x, v in got], [[x, plain(v)] for x, v in want], f'{what}: quotes of {iv}', 1e-15, 1e-9)
                    r = q.get_range(domain=iv)
                    if not want:
                        rec.true(r.is_empty, f'{what}: range {r} of {iv}')
                    else:
                        rec.eq([r.start, r.end], [min(v[2] for _, v in want), max(v[1] for _, v in want)],
                               f'{what}: range of {iv}')


def check_steps(q, pts, bs, rec, what):
    """Sampling in steps, and walks from quote to quote."""
    xs = [p[0] for p in pts]
    vs = [p[1] for p in pts]
    gap = bs[FIRST + 1] - bs[FIRST]
    doms = [(None, xs[0], None)]
    for a in range(FIRST - 1, FIRST + len(xs)):
        for b in range(a, FIRST + len(xs) + 1):
            lo = bs[a] + (bs[a + 1] - bs[a]) / 4
            hi = bs[b] + (bs[b + 1] - bs[b]) / 2
            doms.append((Interval(lo, hi), bs[a], bs[b + 1]))
    for dom, lo, hi in doms:
        a = max(lo, xs[0])
        inside_ = (lambda x: x <= xs[-1]) if hi is None else (lambda x: x <= xs[-1] and x < hi)
        for k in (0.5, 1, 1.5, 2, 3):
            rec.step()
            step = k * gap
            x, want = a, []
            while inside_(x):
                want.append([x, plain(interp(xs, vs, x, -1))])
                x += step
            if k == 1 and len(xs) > 1 and not q.duration.is_uniform:
                continue
            if len(xs) < 2:
                want = [[x, plain(v)] for x, v in pts if inside_(x)] if a == xs[0] else []
            got = q.sample_points(domain=dom, step=step)
            rec.eq([[x, plain(v)] for x, v in got], want, f'{what}: quotes of {dom} every {step}', 1e-15, 1e-9)
            rec.eq([plain(v) for v in q.sample(domain=dom, step=step)], [w[1] for w in want],
                   f'{what}: sampled quotes of {dom} every {step}')
            if want:
                r = q.get_range(domain=dom, step=step)
                rec.eq([r.start, r.end], [min(w[1][2] for w in want), max(w[1][1] for w in want)],
                       f'{what}: range of {dom} every {step}')
    for x in positions(bs):
        for k in (0, 0.25, 1, 1.5, 2):
            rec.step(2)
            ms = k * gap
            if k == 0:
                n = min((b for b in xs if b > x), default=None)
                p = max((b for b in xs if b < x), default=None)
                rec.eq(q.x_next(x), n, f'{what}: next after {x}', 1e-15)
                rec.eq(q.x_previous(x), p, f'{what}: previous to {x}', 1e-15)
            else:
                n = min((b for b in xs if b >= x + ms), default=None)
                p = max((b for b in xs if b <= x - ms), default=None)
                rec.eq(q.x_next(x, min_step=ms), n, f'{what}: next after {x} by {ms}', 1e-15)
                rec.eq(q.x_previous(x, min_step=ms), p, f'{what}: previous to {x} by {ms}', 1e-15)
            for far in (0.3, 1, 1.7):
                rec.step(2)
                top, low = x + far * gap, x - far * gap
                kw = {'min_step': ms} if k else {}
                rec.eq(q.x_next(x, limit=top, **kw), None if n is None else min(n, top), f'{what}: next after {x} by {ms} up to {top}', 1e-15)
                rec.eq(q.x_previous(x, limit=low, **kw), None if p is None else max(p, low),
                       f'{what}: previous to {x} by {ms} down to {low}', 1e-15)


def trailing(pts, degree, period, pick, best, x):
    """Extreme of the last quotes up to x."""
    i = max((j for j, p in enumerate(pts) if p[0] <= x), default=None)
    if i is None or x > pts[-1][0]:
        return None
    if period:
        sel = [p for p in pts[:i + 1] if p[0] >= pts[i][0] - degree]
    else:
        sel = pts[max(0, i + 1 - degree):i + 1]
    return best(pick(p[1]) for p in sel)


def check_trailing(q, pts, ask, rec, what, curves=None):
    for degree in (1, 2, 3, 4):
        hi, lo = (q.trailing_high(degree), q.trailing_low(degree)) if curves is None else curves[degree]
        for x in ask:
            rec.step(2)
            rec.eq(hi.y(x), trailing(pts, degree, False, lambda v: v[1], max, x), f'{what}: high of {degree} quotes at {x}')
            rec.eq(lo.y(x), trailing(pts, degree, False, lambda v: v[2], min, x), f'{what}: low of {degree} quotes at {x}')


def positions(bs):
    out = []
    for j in range(2, SIZE - 4):
        out += [bs[j], bs[j] + (bs[j + 1] - bs[j]) * 0.4]
    return out


def check_static(case, rec):
    d = case['duration']
    bs = c15.boundaries(d, SIZE)
    pts = [(bs[FIRST + i], quote(i, case['pattern'])) for i in range(case['count'])]
    form = case['form']
    q = Quotes(d, give(pts, form), encoder=encoder if form == 'encoder' else None)
    what = f'{case["count"]} quotes of {d}'
    for g, (x, v) in zip(give(pts, form), pts):
        x1, v1 = q.encode_one(g)
        rec.eq([x1, plain(v1)], [x, plain(v)], 'encoded quote')
    check_parts(q, pts, bs, positions(bs), rec, what)
    if form == 'tuple' or case['pattern'] == 0:
        check_windows(q, pts, bs, rec, what)
        check_trailing(q, pts, positions(bs), rec, what)
        if pts:
            check_steps(q, pts, bs, rec, what)
        if q.duration.is_uniform and pts:
            s = bs[1] - bs[0]
            for k in (1, 2):
                hi, lo = q.trailing_high(k * s, is_period=True), q.trailing_low(k * s, is_period=True)
                for x, _ in pts:
                    w = trailing(pts, k * s, True, lambda v: v[1], max, x)
                    rec.eq(hi.y(x), w, f'{what}: high of the period {k} at {x}')
                    w = trailing(pts, k * s, True, lambda v: v[2], min, x)
                    rec.eq(lo.y(x), w, f'{what}: low of the period {k} at {x}')
    rec.state(str(case))
    rec.outcome(str(pts))


# edits: (kind, boundary indices relative to FIRST)
OPS = [['append', [0]], ['append', [1]], ['append', [2]], ['append_list', [1, 2]], ['append_list', [2, 3, 4]], ['append_list', []],
       ['set', [0, 1, 2]], ['set', [1]], ['set', []]]


def check_history(case, rec):
    d = case['edits']
    bs = c15.boundaries(d, SIZE)
    q = Quotes(d, encoder=encoder)
    pts = []
    ask = positions(bs)
    seen = []
    curves = {k: (q.trailing_high(k), q.trailing_low(k)) for k in (1, 2, 3, 4)}
    q.hl2.add_observer(end=lambda iv: seen.append(iv))
    for i, op in enumerate(case['ops']):
        new = [(bs[FIRST + j], quote(j + 2 * i, i)) for j in op[1]]
        uniform = q.duration.is_uniform
        if op[0] == 'set':
            want = new
        elif not pts or not new:
            want = pts + new
        elif new[0][0] <= pts[-1][0]:
            want = None
        else:
            want = pts + new
            idx = [bs.index(p[0]) for p in want]
            if uniform and any(b - a != idx[1] - idx[0] for a, b in zip(idx, idx[1:])):
                want = None
        if case['warm']:
            check_parts(q, pts, bs, ask[::-1], rec, 'before an edit')
            check_trailing(q, pts, ask, rec, 'before an edit', curves)
        if op[0] == 'set' and uniform and len(pts) > 1 and len(want) > 1 and want[1][0] - want[0][0] != pts[1][0] - pts[0][0]:
            return      # another spacing: not specified
        del seen[:]
        try:
            given = give(new, 'encoder')
            if op[0] == 'append':
                q.append(given[0])
            elif op[0] == 'append_list':
                q.append_list(given)
            else:
                q.set(given)
            ok = True
        except Exception:
            ok = False
        rec.step()
        rec.true(ok == (want is not None), f'{op} on {len(pts)} quotes was {"accepted" if ok else "refused"}')
        if want is not None:
            changed = want != pts
            pts = want
            if changed and op[0] != 'set':
                rec.true(len(seen) == 1, f'{len(seen)} updates of a part for {op}')
                rec.true(all(seen[0].contains(p[0]) for p in new), f'update {seen} for {op}')
        else:
            rec.true(not seen, f'update {seen} although {op} was refused')
        check_parts(q, pts, bs, ask, rec, f'after {case["ops"][:i + 1]}')
        check_trailing(q, pts, ask, rec, f'after {case["ops"][:i + 1]}', curves)
        rec.state((d, str(pts)))
    rec.outcome(str(pts))


LONG = 60


def check_long(case, rec):
    d = case['long']
    bs = c15.boundaries(d, LONG + 30)
    pts = [(bs[8 + i], quote(i, case['pattern'])) for i in range(LONG)]
    q = Quotes(d)
    ao = q.ao()
    jaw, teeth, lips = q.alligator()
    uniform = q.duration.is_uniform
    rsi = q.close.rsi(5, uniform=uniform)
    smma = q.hl2.smma(6, uniform=uniform)
    if case['build'] == 'set':
        q.set(pts)
    elif case['build'] == 'one':
        for i, p in enumerate(pts):
            q.append(p)
            if i % 7 == 0:
                ao.y(p[0]), jaw.y(p[0]), rsi.y(p[0]), smma.y(p[0])
    else:
        for i in range(0, LONG, 9):
            q.append_list(pts[i:i + 9])
            ao.y(pts[i][0]), lips.y(bs[8 + i + 3])
    mid = [part('hl2', p[1]) for p in pts]

    def mean(n, i):
        # by the area below the straight lines between the quotes
        return average(bs[8:], mid, i - n + 1, i) if i - n + 1 >= 0 and 0 <= i < LONG else None
    for i in range(-1, LONG + 12):
        x = bs[8 + i]
        rec.step(4)
        a, b = mean(5, i), mean(34, i)
        rec.eq(ao.y(x), None if a is None or b is None else a - b, f'awesome oscillator at quote {i}')
        for name, c, n, k in (('jaw', jaw, 13, 8), ('teeth', teeth, 8, 5), ('lips', lips, 5, 3)):
            rec.eq(c.y(x), mean(n, i - k), f'{name} at quote {i}')
        if i >= 0 and bs[8 + i] < bs[8 + LONG]:
            h = x + (bs[9 + i] - x) / 2
            for name, c, n, k in (('jaw', jaw, 13, 8), ('teeth', teeth, 8, 5), ('lips', lips, 5, 3)):
                a, b = mean(n, i - k), mean(n, i + 1 - k)
                rec.eq(c.y(h), None if a is None or b is None else (a + b) / 2, f'{name} after quote {i}')
    # smoothed average: starts with the mean, then moves by a sixth of the distance
    s = None
    for i in range(LONG):
        if i == 5:
            s = mean(6, 5)
        elif i > 5:
            s = s + (mid[i] - s) / 6
        rec.eq(smma.y(pts[i][0]), s, f'smoothed average at quote {i}')
    close = [p[1][3] for p in pts]
    u = dn = None
    for i in range(LONG):
        # moves per second; the first quote has none
        m = (close[i] - close[i - 1]) / (pts[i][0] - pts[i - 1][0]) if i else 0
        a, b = max(m, 0), max(-m, 0)
        u = a if u is None else u + (a - u) / 5
        dn = b if dn is None else dn + (b - dn) / 5
        x = pts[i][0]
        if u + dn > 0:
            rec.eq(rsi.y(x), 100 * u / (u + dn), f'relative strength at quote {i}')
    rec.state(str(case))


def check_case(case, rec):
    if 'long' in case:
        return check_long(case, rec)
    if 'edits' in case:
        return check_history(case, rec)
    return check_static(case, rec)
