"""C08 - the integral of a curve."""
from mc.ref import LIN, PREV, NEXT, MODES, interp
from mc import acc

PROPERTY = 'C08'
BOUNDS = {
    'quick': 'every base curve: ascending subsets (length 0..5) of 6 positions with 3 value patterns, a missing value at '
             'every place, 4 scalings, 5 base shapes; x 3 integration rules x 2 constants; every position as first read',
    'thorough': 'as quick with 7 positions, length 6 and 5 value patterns',
}
ASSUMPTIONS = []


def items(tier):
    return [[tier, k] for k in range(48)]


def run_item(item, rec):
    tier, k = item
    for b in acc.chunks(acc.bases(tier, holes=True), 48)[k]:
        for rule in MODES:
            for const in (0, -2.5):
                rec.run({**b, 'rule': rule, 'const': const})


def model(ks, ys, rule):
    """Area from the first known value to every point; gaps of missing values add nothing."""
    out, total = [], None
    for i, (x, y) in enumerate(zip(ks, ys)):
        if y is not None:
            total = 0.0 if total is None else total
            if i and ys[i - 1] is not None:
                dx = x - ks[i - 1]
                h = {LIN: (ys[i - 1] + y) / 2, PREV: ys[i - 1], NEXT: y}[rule]
                total += h * dx
        out.append(total)
    return out


def check_case(case, rec):
    c, ks, ys, f = acc.make_base(case)
    total = [None if t is None else t + case['const'] for t in model(ks, ys, case['rule'])]
    ask = acc.ask_of(ks)
    scale = case['scale'][1]

    def make():
        return c.integral(const=case['const'], interpolation=case['rule'], uniform=case['uniform'])
    tol = 1e-9
    ref = acc.compare(make, lambda x: interp(ks, total, x, LIN), ask, rec, 'integral', tol, tol * max(1, scale))
    m = make()
    if ks:
        rec.true(m.domain.start == ks[0] and m.domain.end == ks[-1], f'domain {m.domain}')
        rec.eq(m.y_end(), total[-1], 'whole integral', tol, tol * max(1, scale))
        if case['rule'] == LIN and case['const'] == 0:
            d = c.integral(uniform=case['uniform'])
            rec.eq(d.y(ks[-1]), total[-1], 'default integral', tol, tol * max(1, scale))
    else:
        rec.true(m.domain.is_empty, f'domain {m.domain}')
    rec.state(str(case))
    rec.outcome(str(ref))
