"""C06 - arithmetic on curves is arithmetic on their values."""
import itertools
import math
from curvepy import Points, Line, Constant, Curve
from curvepy.generic import Generic
from intervalpy import Interval
from mc.ref import LIN, PREV, NEXT, Iv, interp

PROPERTY = 'C06'
BOUNDS = {
    'quick': 'every expression with one operator (15 operators, both operand orders) over 14 operand curves and numbers; '
             'every expression with two operators over 8 binary operators and 6 operands; every 3-operand aggregate; each '
             'at 17 positions',
    'thorough': 'as quick with two-operator expressions over all 14 operands and three-operator chains over 5 operands',
}
ASSUMPTIONS = ['powers and logarithms which are not real numbers are not compared',
               'min/max over missing values without ignore_empty are not compared']

INF = math.inf
ASK = [-4, -1, -0.5, 0, 0.25, 0.5, 1, 1.25, 1.5, 2, 2.5, 3, 3.5, 4, 5, 6, 40]


class Leaf:
    def __init__(self, make, f, iv):
        self.make, self.f, self.iv = make, f, iv

    def y(self, x):
        return self.f(x) if self.iv.has(x) else None


def pts(xs, ys, mode=LIN):
    return Leaf(lambda: Points(list(zip(xs, ys)), uniform=False, interpolation=mode),
                lambda x: interp(xs, ys, x, mode), Iv(xs[0], xs[-1]) if xs else Iv(INF, -INF))


ALL = Iv(-INF, INF, True, True)
LEAVES = {
    'p': pts([0, 1, 2, 3], [1, -2, 0, 4]),
    'q': pts([1, 2.5, 4, 5], [3, 0, -1, 2], PREV),
    'late': pts([4, 5, 6], [2, 0, 5], NEXT),
    'one': pts([2], [7]),
    'none': pts([], []),
    'hole': pts([0, 1, 2, 3, 4], [1, None, 3, 2, -1]),
    'zero': pts([0, 3], [0, 0]),
    'line': Leaf(lambda: Line(const=1, slope=-2), lambda x: 1 - 2 * x, ALL),
    'const': Leaf(lambda: Constant(3), lambda x: 3, ALL),
    'cdom': Leaf(lambda: Constant(-2, domain=Interval(0.5, 2, start_open=True, end_open=False)), lambda x: -2, Iv(0.5, 2, True, False)),
    'gen': Leaf(lambda: Generic(lambda x: x * x, domain=Interval(-1, 2.5, end_open=True)), lambda x: x * x, Iv(-1, 2.5, False, True)),
    'num': Leaf(lambda: 2, lambda x: 2, ALL),
    'num0': Leaf(lambda: 0, lambda x: 0, ALL),
    'neg': Leaf(lambda: -1.5, lambda x: -1.5, ALL),
}
NUMBERS = {'num', 'num0', 'neg'}


def none_any(f):
    return lambda vs: None if any(v is None for v in vs) else f(vs)


def div(vs):
    r = vs[0]
    for v in vs[1:]:
        r = (INF if r >= 0 else -INF) if v == 0 else r / v
    return r


def power(vs):
    r = vs[0]
    for v in vs[1:]:
        r = r ** v
        if isinstance(r, complex):
            raise ValueError('complex')
    return r


def prod(vs):
    r = 1.0
    for v in vs:
        r *= v
    return r


def logs(vs):
    r = vs[0]
    for v in vs[1:]:
        r = math.log(r, v)
    return r


def minus(vs):
    r = vs[0]
    for v in vs[1:]:
        r -= v
    return r


def refuse_none(f):
    def g(vs):
        if any(v is None for v in vs):
            raise ValueError('not specified')
        return f(vs)
    return g


def known(f):
    return lambda vs: f([v for v in vs if v is not None]) if any(v is not None for v in vs) else None


# name: (binary constructor, n-ary constructor, value, union?)
OPS = {
    'add': (lambda a, b: a + b, Curve.add_many, none_any(sum), False),
    'sub': (lambda a, b: a - b, Curve.subtract_many, none_any(minus), False),
    'mul': (lambda a, b: a * b, Curve.multiply_many, none_any(prod), False),
    'div': (lambda a, b: a / b, Curve.divide_many, none_any(div), False),
    'pow': (lambda a, b: a ** b, Curve.pow_many, none_any(power), False),
    'min': (lambda a, b: Curve.min([a, b]), Curve.min, refuse_none(min), False),
    'max': (lambda a, b: Curve.max(a, b), Curve.max, refuse_none(max), False),
    'mine': (lambda a, b: Curve.min(a, b, ignore_empty=True), lambda l: Curve.min(l, ignore_empty=True), known(min), True),
    'maxe': (lambda a, b: Curve.max([a, b], ignore_empty=True), lambda l: Curve.max(l, ignore_empty=True), known(max), True),
    'first': (lambda a, b: Curve.first(a, b), Curve.first, known(lambda v: v[0]), True),
    'log': (lambda a, b: Curve.log_many([a, b]), Curve.log_many, none_any(logs), False),
}
METHODS = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'div': 'divide', 'pow': 'pow', 'log': 'log'}
UN = {
    'neg': (lambda c: -c, lambda x, y: None if y is None else -y),
    'pos': (lambda c: +c, lambda x, y: y),
    'abs': (lambda c: abs(c), lambda x, y: None if y is None else abs(y)),
    'inv': (lambda c: c.multiplicative_inverse(), lambda x, y: None if y is None else 1 / y),
    'map1': (lambda c: c.map(lambda y: 5 if y is None else y + 1), lambda x, y: 5 if y is None else y + 1),
    'map2': (lambda c: c.map(lambda x, y: 5 if y is None else y - x), lambda x, y: 5 if y is None else y - x),
    'skip': (lambda c: c.map(lambda y: y * 3, skip_none=True), lambda x, y: None if y is None else y * 3),
}


def items(tier):
    out = []
    for a in LEAVES:
        out.append(['unary', a])
        for op in OPS:
            out.append(['binary', op, a])
    small = ['p', 'q', 'hole', 'cdom', 'num', 'line'] if tier == 'quick' else list(LEAVES)
    bins = ['add', 'sub', 'mul', 'div', 'min', 'maxe', 'first', 'pow']
    for o1 in bins:
        for o2 in bins:
            for a in small:
                out.append(['two', o1, o2, a, small])
        for a in small:
            out.append(['many', o1, a, small])
    if tier == 'thorough':
        for o1, o2, o3 in itertools.product(bins, repeat=3):
            out.append(['three', o1, o2, o3, ['p', 'q', 'cdom', 'num', 'line']])
    return out


def run_item(item, rec):
    kind = item[0]
    if kind in ('two', 'three') and item[1:].count('pow') > 1 or kind == 'many' and item[1] == 'pow':
        return      # towers of powers leave the real numbers
    if kind == 'unary':
        a = item[1]
        if a in NUMBERS:
            return
        for u in UN:
            rec.run({'expr': [u, a], 'form': 'op'})
            for v in UN:
                rec.run({'expr': [v, [u, a]], 'form': 'op'})
    elif kind == 'binary':
        _, op, a = item
        for b in LEAVES:
            if a in NUMBERS and b in NUMBERS:
                continue
            rec.run({'expr': [op, a, b], 'form': 'op'})
            rec.run({'expr': [op, a, b], 'form': 'many'})
            if op in METHODS and a not in NUMBERS:
                rec.run({'expr': [op, a, b], 'form': 'method'})
            rec.run({'expr': [op, a, b], 'form': 'sequence'})
            if op == 'pow' and b not in NUMBERS:
                rec.run({'expr': [op, a, b], 'form': 'raised'})
            for u in ('neg', 'abs', 'map2'):
                rec.run({'expr': [u, [op, a, b]], 'form': 'op'})
    elif kind == 'two':
        _, o1, o2, a, small = item
        for b in small:
            for c in small:
                if not ({a, b} <= NUMBERS):
                    rec.run({'expr': [o2, [o1, a, b], c], 'form': 'op'})
                if not ({b, c} <= NUMBERS):
                    rec.run({'expr': [o2, a, [o1, b, c]], 'form': 'op'})
    elif kind == 'many':
        _, op, a, small = item
        for b in small:
            for c in small:
                if not ({a, b, c} <= NUMBERS):
                    rec.run({'expr': [op, a, b, c], 'form': 'many'})
    else:
        _, o1, o2, o3, small = item
        for a, b, c, d in itertools.product(small, repeat=4):
            if not ({a, b} <= NUMBERS or {c, d} <= NUMBERS):
                rec.run({'expr': [o3, [o1, a, b], [o2, c, d]], 'form': 'op'})


def build(e, form, top=True):
    if isinstance(e, str):
        return LEAVES[e].make()
    args = [build(x, form, False) for x in e[1:]]
    if e[0] in UN:
        return UN[e[0]][0](args[0])
    if top and form == 'many':
        return OPS[e[0]][1](args)
    if top and form == 'method':
        return getattr(args[0], METHODS[e[0]])(args[1])
    if top and form == 'raised':
        return args[1].raised(args[0])
    if top and form == 'sequence':
        return OPS[e[0]][1](tuple(args))
    return OPS[e[0]][0](*args)


def domain(e):
    if isinstance(e, str):
        return LEAVES[e].iv
    ds = [domain(x) for x in e[1:]]
    if e[0] in UN:
        return ds[0]
    if not OPS[e[0]][3]:
        r = ds[0]
        for d in ds[1:]:
            r = r.meet(d)
        return r
    ds = [d for d in ds if not d.empty]
    if not ds:
        return Iv(INF, -INF)
    a, b = min(d.a for d in ds), max(d.b for d in ds)
    return Iv(a, b, all(d.so for d in ds if d.a == a), all(d.eo for d in ds if d.b == b))


class Undefined(Exception):
    pass


def value(e, x):
    if isinstance(e, str):
        return LEAVES[e].y(x)
    vs = [value(a, x) for a in e[1:]]
    try:
        if e[0] in UN:
            return UN[e[0]][1](x, vs[0])
        if not domain(e).has(x):
            return None
        r = OPS[e[0]][2](vs)
    except Undefined:
        raise
    except Exception:
        raise Undefined()
    if isinstance(r, float) and math.isnan(r):
        raise Undefined()
    return r


def check_case(case, rec):
    e = case['expr']
    c = build(e, case['form'])
    d = domain(e)
    if d.empty:
        rec.true(c.domain.is_empty, f'domain {c.domain}, expected an empty one')
    else:
        D = c.domain
        rec.true(not D.is_empty and D.start == d.a and D.end == d.b, f'domain {D}, expected {d.a}..{d.b}')
        if not math.isinf(d.a):
            rec.true(bool(D.start_open) == bool(d.so), f'domain {D}: start open {d.so} expected')
        if not math.isinf(d.b):
            rec.true(bool(D.end_open) == bool(d.eo), f'domain {D}: end open {d.eo} expected')
    out = []
    for x in ASK:
        rec.step()
        try:
            want = value(e, x)
        except Undefined:
            continue
        got = c.y(x)
        rec.eq(got, want, f'{e} at {x}')
        rec.eq(c(x), want, f'{e} called at {x}')
        out.append(want)
    if not d.empty and not math.isinf(d.a) and not math.isinf(d.b):
        try:
            a, b = value(e, d.a), value(e, d.b)
        except Undefined:
            pass
        else:
            rec.eq([c.y_start(), c.y_end()], [a, b], f'{e}: first and last value')
            rec.eq([c.first_point(), c.last_point()], [(d.a, a), (d.b, b)], f'{e}: first and last point')
    rec.state(str(e))
    rec.outcome(str(out))
