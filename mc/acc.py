"""Base curves with known points, for the running (scanning) curves: averages, integrals, ..."""
from curvepy import Points, Curve
from mc.ref import LIN, PREV, MODES, subsets, is_regular, interp, pattern

VALS = [-2, 0, 1.5, 4]


def base_cases(grid, max_len, nvec, holes=False):
    """JSON-able descriptions of bases over integer grid positions."""
    for sub in subsets(grid, 0, max_len):
        n = len(sub)
        for k in range(nvec if n > 1 else min(nvec, 2)):
            ys = pattern(n, k)
            variants = [ys]
            if holes and n:
                for i in range(n):
                    v = list(ys)
                    v[i] = None
                    variants.append(v)
                if n > 2:
                    variants.append([None, None] + ys[2:])
            for v in variants:
                yield {'xs': list(sub), 'ys': v}


SCALES = [(0, 1), (-2, 0.5), (3, 2), (1580000000, 3600)]
SHAPES = ['points', 'neg', 'off', 'sum', 'maxq']
Q = ([0, 1.5, 2, 4, 6], [1, -1, 2, 0, 3])


def make_base(case):
    """(curve, knots, values, value function) of a base."""
    o, s = case.get('scale', (0, 1))
    xs = [o + x * s for x in case['xs']]
    ys = case['ys']
    mode = case.get('mode', LIN)
    u = case['uniform']
    p = Points(list(zip(xs, ys)), uniform=u, interpolation=mode)
    shape = case.get('shape', 'points')

    def f(x):
        return interp(xs, ys, x, mode)
    if shape == 'points':
        return p, xs, ys, f
    if shape == 'neg':
        return -p, xs, [None if y is None else -y for y in ys], lambda x: None if f(x) is None else -f(x)
    if shape == 'off':
        d = 1.5 * s
        return p.offset(d), [x + d for x in xs], ys, lambda x: f(x - d)
    qx = [o + x * s for x in Q[0]]
    qy = Q[1]
    q = Points(list(zip(qx, qy)), uniform=False)

    def g(x):
        return interp(qx, qy, x, LIN)
    if shape == 'sum':
        c = p + q

        def h(x):
            return None if f(x) is None or g(x) is None else f(x) + g(x)
    else:
        c = Curve.max([p, q], ignore_empty=True)

        def h(x):
            v = [y for y in (f(x), g(x)) if y is not None]
            return max(v) if v else None
    ks = sorted(set(xs) | set(qx))
    if shape == 'sum':
        if not xs:
            return c, [], [], h
        lo, hi = max(xs[0], qx[0]), min(xs[-1], qx[-1])
        if lo > hi:
            return c, [], [], h
        ks = [k for k in ks if lo <= k <= hi]
    return c, ks, [h(k) for k in ks], h


def bases(tier, grid=6, max_len=5, nvec=3, holes=False):
    """All base cases of a tier: every subset with the plain shape, smaller sets for the composed shapes."""
    if tier == 'thorough':
        grid, max_len, nvec = grid + 1, max_len + 1, nvec + 2
    n = 0
    for b in base_cases(grid, max_len, nvec, holes):
        for u in ((False, True) if is_regular(b['xs']) else (False,)):
            n += 1
            yield {**b, 'uniform': u, 'mode': MODES[n % 3], 'scale': SCALES[(n // 3) % 4], 'shape': 'points'}
    for b in base_cases(5, 4, 2, False):
        for shape in SHAPES[1:]:
            u = shape in ('neg', 'off') and is_regular(b['xs'])
            yield {**b, 'uniform': u, 'mode': LIN, 'scale': SCALES[0], 'shape': shape}


def chunks(gen, k):
    out = [[] for _ in range(k)]
    for i, c in enumerate(gen):
        out[i % k].append(c)
    return out


def ask_of(knots):
    if not knots:
        return [0, 1]
    s = knots[1] - knots[0] if len(knots) > 1 else 1
    out = [knots[0] - s]
    for a, b in zip(knots, knots[1:]):
        out += [a, a + (b - a) / 2 ** 18, a + (b - a) * 0.25, a + (b - a) * 0.75]
    return out + [knots[-1], knots[-1] + s]


def compare(make, want, ask, rec, what, rel=1e-9, abs_=1e-9):
    """Every first read, then all positions upwards and downwards."""
    ref = [want(x) for x in ask]
    for i in range(len(ask)):
        c = make()
        rec.step()
        rec.eq(c.y(ask[i]), ref[i], f'{what} at {ask[i]} (first read)', rel, abs_)
        if i % 2:
            order = range(len(ask))
        else:
            order = range(len(ask) - 1, -1, -1)
        for j in order:
            rec.step()
            rec.eq(c.y(ask[j]), ref[j], f'{what} at {ask[j]} (first read at {ask[i]})', rel, abs_)
    return ref
