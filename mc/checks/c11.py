"""C11 - trailing minimum, maximum and accumulated windows."""
from curvepy import Points
from mc.ref import LIN, MODES, interp, is_regular, pattern
from mc import acc

PROPERTY = 'C11'
BOUNDS = {
    'quick': 'every base curve: ascending subsets (length 0..5) of 6 positions with 3 value patterns, 4 scalings, 5 base '
             'shapes; x 4 degrees and 4 periods x minimum, maximum and 4 window functions x 3 interpolations; every '
             'position as first read; lists of 7..12 points',
    'thorough': 'as quick with 7 positions, length 6 and 5 value patterns; lists of 7..40 points',
}
ASSUMPTIONS = ['curves without missing values; periods over composed curves are not compared']

FUNCS = {
    'min': (min, lambda x, w: min(w)),
    'max': (max, lambda x, w: max(w)),
    'newest': (lambda ys: ys[0], lambda x, w: w[0]),
    'weighted': (lambda ys: sum((i + 1) * y for i, y in enumerate(ys)), lambda x, w: sum((i + 1) * y for i, y in enumerate(w))),
    'withx': (lambda x, ys: x + len(ys), lambda x, w: x + len(w)),
    'oldest': (lambda ys: ys[-1], lambda x, w: w[-1]),
}


def items(tier):
    return [[tier, k] for k in range(48)] + [['long', n] for n in ((7, 12) if tier == 'quick' else (7, 12, 23, 40))]


def run_item(item, rec):
    if item[0] == 'long':
        n = item[1]
        for k in range(4):
            for u in (True, False):
                b = {'xs': list(range(n)), 'ys': pattern(n, k), 'uniform': u, 'mode': LIN, 'scale': acc.SCALES[k], 'shape': 'points'}
                for d in (2, 3, 5, 6):
                    for f in ('min', 'max', 'weighted'):
                        rec.run({**b, 'func': f, 'degree': d, 'interp': -1})
                        rec.run({**b, 'func': f, 'period': d, 'interp': 0})
        return
    tier, k = item
    i = 0
    for b in acc.chunks(acc.bases(tier), 48)[k]:
        for f in FUNCS:
            for d in (1, 2, 3, 5):
                i += 1
                rec.run({**b, 'func': f, 'degree': d, 'interp': MODES[i % 3]})
            if b['shape'] == 'points':
                for p in (0.5, 1, 2.5, 3):
                    i += 1
                    rec.run({**b, 'func': f, 'period': p, 'interp': MODES[i % 3]})


def check_case(case, rec):
    c, ks, ys, f = acc.make_base(case)
    if None in ys:
        return
    u = case['uniform']
    s = case['scale'][1]
    func, ref = FUNCS[case['func']]
    win = []
    for i in range(len(ks)):
        if 'degree' in case:
            lo = max(0, i - case['degree'] + 1)
        else:
            lo = next(j for j in range(len(ks)) if ks[j] >= ks[i] - case['period'] * s)
        win.append(ref(ks[i], ys[lo:i + 1][::-1]))
    kw = {'is_period': 'period' in case, 'interpolation': case['interp'], 'uniform': u}
    arg = case['degree'] if 'degree' in case else case['period'] * s
    makes = [lambda: c.accumulator_map(func, arg, **kw)]
    if case['func'] == 'min':
        makes.append(lambda: c.trailing_min(arg, **kw))
    if case['func'] == 'max':
        makes.append(lambda: c.trailing_max(arg, **kw))
    ask = acc.ask_of(ks)
    for make in makes:
        out = acc.compare(make, lambda x: interp(ks, win, x, case['interp']), ask, rec, f'{case["func"]} over {arg}')
        m = make()
        if ks:
            rec.true(m.domain.start == ks[0] and m.domain.end == ks[-1], f'domain {m.domain}')
            rec.eq([p for p in m.sample_points() if p[0] in ks], list(zip(ks, win)), 'samples')
        else:
            rec.true(m.domain.is_empty, f'domain {m.domain}')
    rec.state(str(case))
    rec.outcome(str(out))
