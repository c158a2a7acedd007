"""C10 - simple moving averages."""
from mc.ref import LIN, interp
from mc import acc

PROPERTY = 'C10'
BOUNDS = {
    'quick': 'every base curve: ascending subsets (length 0..5) of 6 positions with 3 value patterns, 4 scalings, 5 base '
             'shapes; x 5 degrees and 6 periods; every position as first read; uniform lists of 7..17 points x 8 windows',
    'thorough': 'as quick with 7 positions, length 6 and 5 value patterns; lists up to 120 points',
}
ASSUMPTIONS = ['curves without missing values',
               'periods over unevenly spaced points are compared at the points only']


def items(tier):
    return [[tier, k] for k in range(48)] + [['long', n] for n in ((7, 12, 17) if tier == 'quick' else (7, 12, 23, 40, 77, 120))]


def run_item(item, rec):
    if item[0] == 'long':
        n = item[1]
        for k in range(4):
            for u in (True, False):
                b = {'xs': list(range(n)), 'ys': acc.pattern(n, k), 'uniform': u, 'mode': LIN, 'scale': acc.SCALES[k], 'shape': 'points'}
                for d in (2, 3, 5, 6):
                    rec.run({**b, 'degree': d})
                    rec.run({**b, 'period': d})
        return
    tier, k = item
    for b in acc.chunks(acc.bases(tier), 48)[k]:
        for d in (1, 2, 3, 4, 6):
            rec.run({**b, 'degree': d})
        for p in (0.5, 1, 2, 2.5, 3, 7):
            rec.run({**b, 'period': p})


def average(ks, ys, i, j):
    if i == j:
        return ys[j]
    area = sum((ys[k] + ys[k + 1]) / 2 * (ks[k + 1] - ks[k]) for k in range(i, j))
    return area / (ks[j] - ks[i])


def check_case(case, rec):
    c, ks, ys, f = acc.make_base(case)
    if None in ys:
        return
    u = case['uniform']
    s = case['scale'][1]
    n = len(ks)
    ask = acc.ask_of(ks)
    if 'degree' in case:
        d = case['degree']
        first = d - 1
        avg = [average(ks, ys, i - d + 1, i) if i >= first else None for i in range(n)]
        make = lambda: c.sma(d, uniform=u)      # noqa
        between = True
        what = f'sma({d})'
        plain = d == 1
    else:
        P = case['period'] * s
        first = max([i for i in range(n) if ks[i] < ks[0] + P], default=0)
        avg = [average(ks, ys, min(j for j in range(i + 1) if ks[j] > ks[i] - P), i) for i in range(n)]
        make = lambda: c.sma(P, is_period=True, uniform=u)      # noqa
        gaps = [b - a for a, b in zip(ks, ks[1:])]
        between = bool(gaps) and all(g == gaps[0] for g in gaps) and P >= 2 * gaps[0]
        what = f'sma(period {P})'
        plain = False
    if first >= n:
        m = make()
        rec.true(m.domain.is_empty, f'{what}: domain {m.domain} without a single window')
        for x in ask:
            rec.eq(m.y(x), None, f'{what} at {x}')
        return
    if not between:
        ask = [x for x in ask if x in ks or x < ks[0] or x > ks[-1]]

    def want(x):
        if x < ks[first] or x > ks[-1]:
            return None
        if plain:
            return f(x)
        return interp(ks[first:], avg[first:], x, LIN)
    ref = acc.compare(make, want, ask, rec, what)
    m = make()
    rec.true(m.domain.start == ks[first] and m.domain.end == ks[-1], f'{what}: domain {m.domain}, expected {ks[first]}..{ks[-1]}')
    rec.eq(m.y_end(), avg[-1], f'{what}: last value')
    rec.state(str(case))
    rec.outcome(str(ref))
