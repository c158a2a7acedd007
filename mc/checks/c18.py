"""C18 - curves written down as JSON, dates and anything else Curve.parse takes for a curve."""
import calendar
import copy
import fractions
import itertools
import json
import math
import os
import time
import numpy as np
from curvepy import Points, Line, Constant, Curve
from mc.ref import LIN, interp

PROPERTY = 'C18'
BOUNDS = {
    'quick': 'every descriptor of the grammar to depth 2 (9 list functions x 5 ways to write arguments, 9 functions of one '
             'curve, lines, constants, curves), every chain of up to 2 links out of 26, under every log decorator at '
             'every place, at 7 positions; 5 time zones x 40 dates x 9 ways to write them; 40 other inputs of Curve.parse',
    'thorough': 'as quick with pairs of nested descriptors in every function and chains of 3 links',
}
ASSUMPTIONS = ['numbers passed by name (base, slope, ...) and numeric positions of lines inside of a log decorator and a log decorator inside of another are '
               'not specified', 'time zones without ambiguous or missing local times in the dates used']
ASK = [-1, 0, 0.5, 1, 2.25, 3, 4]
PX, PY = [0, 1, 2], [2, 5, 1]
LEAF = {
    'line': (lambda: Line(const=2, slope=0.5), lambda x: 2 + 0.5 * x),
    'pts': (lambda: Points(list(zip(PX, PY)), uniform=False), lambda x: interp(PX, PY, x, LIN)),
}
NARY = ['add', 'subtract', 'multiply', 'divide', 'pow', 'min', 'max', 'first']
BASES = {'@log': math.e, '@log2': 2, '@log10': 10}


class Unspecified(Exception):
    pass


# ------------------------------------------------------------------ what a descriptor means

def fold(op, ys):
    if op == 'first':
        return next((y for y in ys if y is not None), None)
    if any(y is None for y in ys):
        return None
    r = ys[0] if op != 'multiply' else 1.0 * ys[0]
    for y in ys[1:]:
        if op == 'add':
            r += y
        elif op == 'subtract':
            r -= y
        elif op == 'multiply':
            r *= y
        elif op == 'divide':
            if y == 0:
                raise Unspecified
            r /= y
        elif op == 'pow':
            if r == 0 and y < 0 or r < 0 and y != int(y) or abs(y) > 60:
                raise Unspecified
            r = r ** y
        elif op == 'min':
            r = min(r, y)
        elif op == 'max':
            r = max(r, y)
    return r


def no_none(f, g):
    def h(x):
        y = f(x)
        return None if y is None else g(y)
    return h


def log(y, base):
    if y <= 0:
        raise Unspecified
    return math.log(y, base)


def power(base, y):
    if abs(y) > 300:
        raise Unspecified
    return base ** y


def number(v, base):
    return v if base is None else log(v, base)


def arg(a, base):
    """An argument: a number, or a curve as a function of x."""
    if isinstance(a, dict):
        if 'curve' in a:
            return LEAF[a['curve']][1]
        return meaning(a, base)
    if isinstance(a, (int, float)):
        n = number(a, base)
        return lambda x: n
    return [arg(b, base) for b in a]


def meaning(d, base=None, cur=None):
    for k, v in d.items():
        name = k[1:]
        if k in BASES:
            nb = BASES[k]
            inner = meaning(v, nb, cur)
            cur = (lambda f, b: no_none(f, lambda y: power(b, y)))(inner, nb)
            continue
        if k == '@date':
            cur = meaning(v, base, cur)
            continue
        if name in ('const', 'constant'):
            v = v['@args'] if isinstance(v, dict) else v
            cur = arg(v[0] if isinstance(v, list) else v, base)
            continue
        if name == 'line':
            cur = line(v, base)
            continue
        named = {}
        if isinstance(v, dict) and '@args' in v:
            named = {n: w for n, w in v.items() if n != '@args'}
            args = v['@args']
        elif isinstance(v, dict) and v and all(n[0] not in '@$' and n != 'curve' for n in v):
            named, args = v, []
        elif isinstance(v, dict) and not v:
            args = []
        else:
            args = v if isinstance(v, list) else [v]
        fs = [arg(a, base) for a in args]
        if name in NARY:
            if fs and isinstance(fs[0], list):
                fs = fs[0]
            if cur is not None:
                fs = [cur] + fs
            ignore = named.get('ignore_empty')
            cur = (lambda op, gs, ig: lambda x: fold(op, [y for y in (g(x) for g in gs) if not (ig and y is None)]))(name, fs, ignore)
            continue
        if cur is None:
            cur, fs = fs[0], fs[1:]
        if name.startswith('log'):
            b = named.get('base', fs[0](0) if fs else float(name[3:]) if name[3:] else math.e)
            cur = (lambda f, b: no_none(f, lambda y: log(y, b)))(cur, b)
        elif name == 'raised':
            b = named['base'] if 'base' in named else fs[0](0)
            cur = (lambda f, b: no_none(f, lambda y: power(b, y)))(cur, b)
        elif name == 'abs':
            cur = no_none(cur, abs)
        elif name == 'additive_inverse':
            cur = no_none(cur, lambda y: -y)
        elif name == 'multiplicative_inverse':
            cur = no_none(cur, inverse)
        elif name == 'offset':
            n = named['x'] if 'x' in named else fs[0](0)
            cur = (lambda f, n: lambda x: f(x - n))(cur, n)
        else:
            raise KeyError(k)
    return cur


def inverse(y):
    if y == 0:
        raise Unspecified
    return 1 / y


def line(v, base):
    if 'points' in v:
        (x0, y0), (x1, y1) = v['points']
        return line_through(position(x0), number(y0, base), position(x1), number(y1, base))
    if 'p1' in v:
        x0, y0 = v['p1']
        if 'slope' in v:
            return lambda x: number(y0, base) + v['slope'] * (x - x0)
        x1, y1 = v['p2']
        return line_through(position(x0), number(y0, base), position(x1), number(y1, base))
    return lambda x: v['const'] + v['slope'] * x


def line_through(x0, y0, x1, y1):
    return lambda x: y0 + (y1 - y0) * (x - x0) / (x1 - x0)


def position(x):
    return x if isinstance(x, (int, float)) else seconds(x['@date'] if isinstance(x, dict) else x)


def seconds(s):
    """'2020-05-08 11:01' read as UTC: the zone of the examples is UTC."""
    return calendar.timegm(time.strptime(s, '%Y-%m-%d %H:%M'))


# ------------------------------------------------------------------ the grammar

def named_scalar(d):
    if isinstance(d, dict) and '$line' in d:
        return True
    if isinstance(d, dict):
        return any((not k.startswith(('@', '$')) and isinstance(v, (int, float))) or named_scalar(v) for k, v in d.items())
    return isinstance(d, list) and any(named_scalar(v) for v in d)


def no_logarithm(d):
    if isinstance(d, dict):
        return any(no_logarithm(v) for v in d.values())
    if isinstance(d, list):
        return any(no_logarithm(v) for v in d)
    return isinstance(d, (int, float)) and d <= 0


def has_log(d):
    if isinstance(d, dict):
        return any(k in BASES or has_log(v) for k, v in d.items())
    return isinstance(d, list) and any(has_log(v) for v in d)


def level1():
    out = []
    for op in NARY:
        k = '$' + op
        out += [{k: [5, 2]}, {k: [5, 2, 3]}, {k: {'@args': [2, 5]}}, {k: [[5, 3]]}, {k: [{'curve': 'line'}, 2]},
                {k: [4, {'curve': 'pts'}]}, {k: {'@args': [{'curve': 'pts'}, {'curve': 'line'}]}}, {k: 4}]
    for a in (4, {'curve': 'line'}, {'curve': 'pts'}):
        out += [{'$log': a}, {'$log2': [a]}, {'$log10': a}, {'$log': {'@args': [a], 'base': 3}}, {'$abs': a}, {'$raised': [a, 2]},
                {'$raised': {'@args': [a], 'base': 3}}, {'$additive_inverse': [a]}, {'$multiplicative_inverse': a},
                {'$offset': [a, 1]}, {'$offset': {'@args': [a], 'x': 1}}, {'$log': [a, 7]}]
    out += [{'$const': 6}, {'$constant': [7]}, {'$line': {'points': [[1, 2], [2, 3]]}}, {'$line': {'p1': [1, 2], 'p2': [3, 8]}},
            {'$line': {'const': 1, 'slope': 2}}, {'$line': {'p1': [1, 2], 'slope': 0.5}},
            {'$min': {'@args': [4, {'curve': 'pts'}], 'ignore_empty': True}},
            {'$max': {'@args': [4, {'curve': 'pts'}], 'ignore_empty': True}}, {'$subtract': [-7, -2]}, {'$abs': -4}]
    return out


LINKS = [('$add', [3]), ('$add', 3), ('$subtract', {'@args': [3]}), ('$subtract', [[4, 1]]), ('$multiply', [[2]]), ('$divide', [4]),
         ('$pow', [2]), ('$max', 4), ('$min', [4, 7]), ('$abs', []), ('$log', {'base': 3}), ('$log2', []), ('$log', []),
         ('$log10', {}), ('$raised', {'base': 2}), ('$raised', [2]), ('$offset', 1), ('$offset', {'x': -2}),
         ('$additive_inverse', []), ('$multiplicative_inverse', {}), ('@log2', {'$add': [4]}), ('@log10', {'$max': 2}),
         ('$add', [{'$const': 2}]), ('$first', [5]), ('@log', {'$multiply': {'@args': [3]}}), ('$divide', {'curve': 'pts'})]
STARTS = [{'$const': 16}, {'$constant': -16}, {'$add': [1, 2]}, {'$line': {'points': [[0, 1], [2, 4]]}}, {'@log': {'$const': 16}},
          {'@log2': {'$add': {'@args': [16, 16]}}}, {'$log': 10}, {'$abs': -4}, {'$max': [{'curve': 'pts'}, 3]}]


def chains(n):
    for start in STARTS:
        for links in itertools.product(LINKS, repeat=n):
            keys = list(start) + [k for k, _ in links]
            if len(set(keys)) == len(keys):
                d = dict(start)
                d.update(links)
                yield d


def decorated(d):
    yield d
    if not has_log(d) and not named_scalar(d) and not no_logarithm(d):
        for b in BASES:
            yield {b: d}


def deeper(op, tier):
    k = '$' + op
    base = level1()
    for e in base:
        for f in decorated(e):
            yield from decorated({k: [f, 5]})
            yield from decorated({k: [3, f]})
            yield from decorated({k: {'@args': [f, 2, f]}})
            yield {k: f}
            yield {k: [f, {'curve': 'pts'}]}
    if tier == 'thorough':
        for e in base:
            for f in base:
                yield from decorated({k: [e, f]})
                yield {k: {'@args': [{'@log2': e} if not (has_log(e) or named_scalar(e)) else e, f]}}


def single(d):
    for op in ('log', 'log2', 'log10', 'abs', 'additive_inverse', 'multiplicative_inverse'):
        yield {'$' + op: d}
        yield {'$' + op: {'@args': [d]}}
    yield {'$raised': [d, 2]}
    yield {'$raised': {'@args': [d], 'base': 2}}
    yield {'$offset': [d, 1.5]}
    yield {'$const': {'@args': [3]}}


ZONES = ['UTC', 'AAA-12', 'BBB+5:30', 'EST5EDT,M3.2.0,M11.1.0', 'CCC+9']
DAYS = ['2020-05-08', '1999-12-31', '2020-02-29', '2021-01-01', '2013-07-15']
TIMES = [None, '00:00', '11:01', '23:59', '05:30:07', '12:00:00', '03:30']
OFFSETS = [('', None), ('Z', 0), ('+1200', 12 * 60), ('-0330', -210), ('+00:00', 0), ('+05:45', 345), ('-08:00', -480), ('+13', 780)]


def items(tier):
    out = [['level1'], ['parse'], ['errors'], ['fragments'], ['readme']]
    out += [['deeper', op, i, tier] for op in NARY for i in range(4)] + [['single', i] for i in range(4)]
    out += [['chain', 1, 0], ['chain', 0, 0]] + [['chain', 2, i] for i in range(8)]
    if tier == 'thorough':
        out += [['chain', 3, i] for i in range(64)]
    return out + [['dates', z] for z in ZONES]


def run_item(item, rec):
    if item[0] == 'level1':
        for e in level1():
            for d in decorated(e):
                rec.run({'json': d})
    elif item[0] == 'deeper':
        for n, d in enumerate(deeper(item[1], item[3])):
            if n % 4 == item[2]:
                rec.run({'json': d})
    elif item[0] == 'single':
        for n, e in enumerate(level1()):
            if n % 4 == item[1]:
                for f in decorated(e):
                    for d in single(f):
                        for g in decorated(d):
                            rec.run({'json': g})
    elif item[0] == 'chain':
        parts = {0: 1, 1: 1, 2: 8, 3: 64}[item[1]]
        for n, d in enumerate(chains(item[1])):
            if n % parts == item[2]:
                rec.run({'json': d})
                if item[1] < 3:
                    for g in decorated(d):
                        if g is not d:
                            rec.run({'json': g})
    elif item[0] == 'dates':
        for day in DAYS:
            for t in TIMES:
                for sep in ((' ', 'T') if t else ('',)):
                    for off, minutes in (OFFSETS if t else OFFSETS[:1]):
                        for how in ('fragment', 'line', 'list'):
                            rec.run({'zone': item[1], 'date': day + sep + (t or '') + off, 'minutes': minutes, 'how': how,
                                     'parts': [day, t]})
    elif item[0] == 'parse':
        for i in range(len(PARSE)):
            rec.run({'parse': i})
    elif item[0] == 'errors':
        for i in range(len(ERRORS)):
            rec.run({'error': i})
    elif item[0] == 'fragments':
        for a in level1()[::3]:
            for b in level1()[::5]:
                rec.run({'fragment': {'price': a, 'list': [b, 3, 'text', None, [a]], 'deep': {'x': {'y': b}}, 'n': 4, 's': 'T'}})
    else:
        for deco in (None,) + tuple(BASES):
            for way in ('each', 'whole', 'outside'):
                for days in itertools.permutations(['2020-05-08 11:01', '2020-05-13 05:00', '1999-12-31 23:59'], 2):
                    for ys in ((10080.2, 8975.0), (1, 1000)):
                        rec.run({'readme': [deco, way, list(days), list(ys)]})


def put(d):
    """The descriptor with the curves in place."""
    if isinstance(d, dict):
        if 'curve' in d:
            return LEAF[d['curve']][0]()
        return {k: put(v) for k, v in d.items()}
    if isinstance(d, list):
        return [put(v) for v in d]
    return d


def shape(d):
    if isinstance(d, dict):
        return [[k, shape(v)] for k, v in d.items()]
    if isinstance(d, (list, tuple)):
        return [type(d).__name__] + [shape(v) for v in d]
    return repr(d) if not isinstance(d, Curve) else id(d)


def compare(rec, f, want, what):
    out = []
    for x in ASK:
        rec.step()
        try:
            w = want(x)
        except (Unspecified, OverflowError):
            out.append('?')
            continue
        rec.eq(f.y(x), w, f'{what} at {x}')
        out.append(w)
    return out


def check_json(case, rec):
    d = put(case['json'])
    before = shape(d)
    f = Curve.parse_descriptor(d)
    what = json.dumps(case['json'])
    rec.true(isinstance(f, Curve), f'{what}: {f!r} is not a curve')
    rec.true(shape(d) == before, f'{what}: the descriptor was changed by reading it')
    out = compare(rec, f, meaning(case['json']), what)
    g = Curve.parse(d)
    compare(rec, g, meaning(case['json']), what + ' read again')
    rec.state(what)
    rec.outcome(str(out))


def check_fragment(case, rec):
    d = put(case['fragment'])
    got = Curve.parse_descriptor(d, fragment=True)
    plain = Curve.parse_descriptor(d)
    for g in (got, plain):
        rec.eq([list(g), list(g['deep']), g['list'][1:4], len(g['list']), g['n'], g['s']],
               [list(d), ['x'], [3, 'text', None], 5, 4, 'T'], 'values which are not curves')
        c = case['fragment']
        compare(rec, g['price'], meaning(c['price']), 'price')
        compare(rec, g['list'][0], meaning(c['list'][0]), 'in a list')
        compare(rec, g['list'][4][0], meaning(c['price']), 'in a list of a list')
        compare(rec, g['deep']['x']['y'], meaning(c['deep']['x']['y']), 'deep')
    rec.state(json.dumps(case))


def check_readme(case, rec):
    deco, way, days, ys = case['readme']
    if way == 'each':
        d = {'$line': {'points': [[{'@date': s}, y] for s, y in zip(days, ys)]}}
    else:
        d = {'$line': {'points': [[s, y] for s, y in zip(days, ys)]}}
        if way == 'whole':
            d = {'@date': d}
    if deco:
        d = {deco: d}
    if way == 'outside':
        d = {'@date': d}
    a, b = [seconds(s) for s in days]
    g = Curve.parse_descriptor({'price': d})['price']
    for u in (-1, 0, 0.25, 0.5, 1, 1.5):
        x = a + u * (b - a)
        if deco:
            want = math.exp(math.log(ys[0]) + u * (math.log(ys[1]) - math.log(ys[0])))
        else:
            want = ys[0] + u * (ys[1] - ys[0])
        rec.step()
        rec.eq(g.y(x), want, f'line over dates {json.dumps(d)} at {u}', rel=1e-7)
    rec.state(json.dumps(case))


def check_date(case, rec):
    day, t = case['parts']
    text = f'{day} {(t or "00:00")}'
    if len(text) == 16:
        text += ':00'
    parts = time.strptime(text, '%Y-%m-%d %H:%M:%S')
    old = os.environ.get('TZ')
    os.environ['TZ'] = case['zone']
    time.tzset()
    try:
        if case['minutes'] is None:
            want = int(time.mktime(parts[:8] + (-1,)))
        else:
            want = calendar.timegm(parts) - 60 * case['minutes']
        s = case['date']
        if case['how'] == 'fragment':
            got = Curve.parse_descriptor({'@date': s}, fragment=True)
        elif case['how'] == 'list':
            got = Curve.parse_descriptor({'@date': ['2020-01-01T00:00:00+0000', [s, 3]]}, fragment=True)
            rec.eq(got[0], 1577836800, 'the date before it')
            rec.eq(got[1][1], 3, 'the number next to it')
            got = got[1][0]
        else:
            got = Curve.parse_descriptor({'$line': {'points': [[{'@date': s}, 5], [{'@date': '2030-01-01 00:00+0000'}, 9]]}})
            got = got.ref_point[0]
        rec.step()
        rec.eq(got, want, f'{s} in {case["zone"]}', rel=0, abs_=0)
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()
    rec.state(json.dumps(case))
    rec.outcome(str(want))


PARSE = [
    (lambda: 3, lambda x: 3), (lambda: -2.5, lambda x: -2.5), (lambda: 0, lambda x: 0), (lambda: True, lambda x: 1),
    (lambda: fractions.Fraction(1, 4), lambda x: 0.25), (lambda: np.float64(1.5), lambda x: 1.5), (lambda: np.int64(7), lambda x: 7),
    (lambda: (lambda x: x * x), lambda x: x * x), (lambda: math.floor, math.floor), (lambda: Line(const=1, slope=1), lambda x: 1 + x),
    (lambda: list(zip(PX, PY)), lambda x: interp(PX, PY, x, LIN)), (lambda: tuple(zip(PX, PY)), lambda x: interp(PX, PY, x, LIN)),
    (lambda: [list(p) for p in zip(PX, PY)], lambda x: interp(PX, PY, x, LIN)), (lambda: [], lambda x: None),
    (lambda: (), lambda x: None), (lambda: [(1, 4)], lambda x: 4 if x == 1 else None),
    (lambda: {'$const': 4}, lambda x: 4), (lambda: {'$add': [1, {'$line': {'const': 0, 'slope': 1}}]}, lambda x: 1 + x),
    (lambda: [(0, None), (1, 2), (2, 3)], lambda x: None if x < 1 or x > 2 else 1 + x),
    (lambda: float('inf'), lambda x: math.inf),
]


def check_parse(case, rec):
    make, want = PARSE[case['parse']]
    v = make()
    f = Curve.parse(v)
    what = f'Curve.parse({v!r})'
    rec.true(isinstance(f, Curve), f'{what}: {f!r} is not a curve')
    if isinstance(v, Curve):
        rec.true(f is v, f'{what} is another curve')
        rec.true(Curve.parse(Curve.parse(v)) is v, f'{what} again is another curve')
    rec.true(Curve.parse(f) is f, f'{what} read twice is another curve')
    rec.true(Curve.parse(None) is None, 'Curve.parse(None) is something')
    line = Line(const=2, slope=3)

    def none(g):
        return lambda x: None if want(x) is None else g(x)
    both = Curve.parse_many([v, line])
    one = Curve.parse_many(v, line) if not isinstance(v, (list, tuple)) else both
    for x in ASK:
        rec.step()
        rec.eq(f.y(x), want(x), f'{what} at {x}')
        rec.eq([g.y(x) for g in both], [want(x), 2 + 3 * x], f'{what} with another at {x}')
        rec.eq([g.y(x) for g in one], [want(x), 2 + 3 * x], f'{what} one by one at {x}')
        if not isinstance(v, Curve) and want(0) != math.inf:
            rec.eq((line + v).y(x), none(lambda x: 2 + 3 * x + want(x))(x), f'line plus {v!r} at {x}')
            rec.eq((v - line if not isinstance(v, (np.number,)) else line.subtract(v).additive_inverse()).y(x),
                   none(lambda x: want(x) - 2 - 3 * x)(x), f'{v!r} minus a line at {x}')
    rec.state(repr(case))


ERRORS = [
    {'$nothing': [1]}, {'$add': [1, {'$nothing': 2}]}, {'$const': 1, 'x': 2}, {'$const': 1, 'x': [2]}, {'@date': '2020-01-01'},
    {'@log': 3}, 3, None, 'text', [1], [{'$const': 1}], {'@log2': {'$nothing': 1}}, {'$add': {'@args': [{'$nothing': 1}]}},
    {'@log': {'$const': 2}, 'x': 3}, {'@date': {'k': [3]}, 'x': 3}, {'$line': {'const': 1}}, {'$line': {'slope': 1}},
    {'@log10': {'@log2': {'$nothing': 4}}},
]
UNPARSABLE = ['text', [1, 2], [[1, 2, 3]], object(), [[1]], b'xx', {1, 2}]


def check_error(case, rec):
    d = copy.deepcopy(ERRORS[case['error']])
    before = shape(d)
    # Nothing of the failed one is left over for the next ones
    good = {'@log2': {'$add': [16, 16]}, '$max': [10]}
    for _ in range(2):
        try:
            f = Curve.parse_descriptor(d)
        except Exception:
            pass
        else:
            rec.fail(f'{d!r} was read as {f!r}')
        rec.true(shape(d) == before, f'{d!r}: the descriptor was changed by reading it')
        rec.eq(Curve.parse_descriptor(good).y(0), 256, 'the next descriptor')
        rec.eq(Curve.parse_descriptor({'$add': [16, 16]}).y(0), 32, 'the descriptor after it')
        rec.step(2)
    for v in UNPARSABLE:
        try:
            f = Curve.parse(v)
        except Exception:
            continue
        rec.fail(f'Curve.parse({v!r}) is {f!r}')
    rec.state(repr(case))


def check_case(case, rec):
    for key, check in (('json', check_json), ('fragment', check_fragment), ('readme', check_readme), ('zone', check_date),
                       ('parse', check_parse), ('error', check_error)):
        if key in case:
            return check(case, rec)
