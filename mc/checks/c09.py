"""C09 - exponential averages: EMA, smoothed moving average, RSI."""
import math
from curvepy import Points, Constant
from mc.ref import LIN, interp
from mc import acc

PROPERTY = 'C09'
BOUNDS = {
    'quick': 'every base curve: ascending subsets (length 0..5) of 6 positions with 3 value patterns, a missing value at '
             'every place, 4 scalings, 5 base shapes; x 3 weights, 2 periods, 4 initial curves, SMMA of 3 degrees, RSI of '
             '2 degrees; every position as first read',
    'thorough': 'as quick with 7 positions, length 6 and 5 value patterns',
}
ASSUMPTIONS = ['smoothed averages and RSI over missing values are not specified']
INIT = {'none': None, 'const': 10, 'points': ([0, 2, 9], [3, -1, 5]), 'late': ([1.5, 3, 9], [4, 8, -3])}


def items(tier):
    return [[tier, k] for k in range(48)]


def run_item(item, rec):
    tier, k = item
    for b in acc.chunks(acc.bases(tier, holes=True), 48)[k]:
        for w in (0.5, 0.2, 1):
            for init in INIT if w == 0.5 else ('none',):
                rec.run({**b, 'kind': 'ema', 'w': w, 'init': init})
        for p in (2, 5):
            for init in INIT if p == 2 else ('none',):
                rec.run({**b, 'kind': 'emap', 'w': p * b['scale'][1], 'init': init})
        if None not in b['ys']:
            for d in (1, 2, 3):
                if b['shape'] != 'maxq':
                    rec.run({**b, 'kind': 'smma', 'w': d})
            for d in (2, 5):
                if b['shape'] == 'points':
                    rec.run({**b, 'kind': 'rsi', 'w': d})


def ema(ks, ys, weight, init):
    out, e = [], None
    for i, (x, y) in enumerate(zip(ks, ys)):
        if y is not None:
            if e is None:
                e = y if init is None else init(x)
            else:
                e = e + weight(i) * (y - e)
        out.append(e)
    return out


def check_case(case, rec):
    c, ks, ys, f = acc.make_base(case)
    kind, w, u = case['kind'], case['w'], case['uniform']
    ask = acc.ask_of(ks)
    what = f'{kind}({w})'
    if kind in ('ema', 'emap'):
        o, s = case['scale']
        init = INIT[case['init']]
        if case['init'] in ('points', 'late'):
            ix, iy = [o + x * s for x in init[0]], init[1]

            def start(x):
                return interp(ix, iy, x, LIN)
            init = Points(list(zip(ix, iy)), uniform=False)
        elif init is not None:
            start = lambda x: INIT['const']     # noqa
        else:
            start = None
        if kind == 'ema':
            e = ema(ks, ys, lambda i: w, start)
            make = lambda: c.ema(w, init=init, uniform=u)   # noqa
        else:
            e = ema(ks, ys, lambda i: (ks[i] - ks[i - 1]) / w, start)
            make = lambda: c.ema(w, is_period=True, init=init, uniform=u)   # noqa
    elif kind == 'smma':
        d = w

        def sma(x):
            i = ks.index(x)
            if i < d - 1:
                return None
            a = ks[i - d + 1:i + 1]
            b = ys[i - d + 1:i + 1]
            if d == 1:
                return b[0]
            return sum((p + q) / 2 * (t - r) for p, q, r, t in zip(b, b[1:], a, a[1:])) / (a[-1] - a[0])
        e = ema(ks, ys, lambda i: 1 / d, sma)
        make = lambda: c.smma(d, uniform=u)   # noqa
    else:
        d = w
        slope = [None] + [(b - a) / (t - r) for a, b, r, t in zip(ys, ys[1:], ks, ks[1:])]
        up = ema(ks, [max(v or 0, 0) for v in slope], lambda i: 1 / d, None)
        dn = ema(ks, [max(-(v or 0), 0) for v in slope], lambda i: 1 / d, None)
        r = c.rsi(d, uniform=u)
        for x, a, b in zip(ks, up, dn):
            rec.step()
            if a + b > 0:
                rec.eq(r.y(x), 100 * a / (a + b), f'RSI at {x}')
            v = r.y(x)
            rec.true(-1e-9 <= v <= 100 + 1e-9, f'RSI at {x} is {v}')
        # downwards on a fresh curve
        r = c.rsi(d, uniform=u)
        for x, a, b in reversed(list(zip(ks, up, dn))):
            if a + b > 0:
                rec.eq(r.y(x), 100 * a / (a + b), f'RSI at {x} read downwards')
        rec.state(str(case))
        return
    ref = acc.compare(make, lambda x: interp(ks, e, x, LIN), ask, rec, what)
    m = make()
    if ks:
        rec.true(m.domain.start == ks[0] and m.domain.end == ks[-1], f'domain {m.domain}')
        rec.eq([p for p in m.sample_points() if p[0] in ks], list(zip(ks, e)), f'{what} samples')
        known = [y for y in ys if y is not None]
        if kind == 'ema' and case['init'] == 'none' and known:
            rec.true(all(min(known) - 1e-9 <= v <= max(known) + 1e-9 for v in e if v is not None), 'average out of range')
    else:
        rec.true(m.domain.is_empty, f'domain {m.domain}')
    rec.state(str(case))
    rec.outcome(str(ref))
