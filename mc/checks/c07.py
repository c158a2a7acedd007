"""C07 - derived curves are never stale."""
import itertools
from curvepy import Points
from intervalpy import Interval
from mc.core import same
from mc.ref import LIN, PREV, RefPoints
from mc.hist import model_apply, impl_apply, edit_alphabet, stamp, REFUSED, UNSPEC
from mc.trees import U, B

PROPERTY = 'C07'
BOUNDS = {
    'quick': '48 derived curves over one curve and 18 over two, uniform and not, x every edit history of length 1 (39 '
             'edits, 4 initial curves) and of length 2 (12 edits, 2 initial curves) x 5 placements of reads; 436 '
             'two-level derived curves x histories of length 1 (12 edits) x 3 placements',
    'thorough': 'as quick with histories of length 2 over all 39 edits and of length 3 over 12; two-level curves with '
                'histories of length 2',
}
ASSUMPTIONS = ['oracle: the same derived curve freshly built over the edited points (its correctness is the subject of '
               'the other properties)',
               'blends are excluded: their pieces are fixed when they are built',
               'running (scanning) curves over functions without a finite start are excluded: where they start is '
               'not specified']

ASK = [-1, -0.25, 0, 0.5, 1 - 2 ** -18, 1, 1 + 2 ** -18, 1.25, 1.5, 2, 2.75, 3, 3.5, 4, 5, 6]
UNARY = [n for n in U if n not in ('id', 'blend')]
SCANS = ['integral', 'integralp', 'ema', 'emap', 'sma2', 'sma3', 'smap', 'smma', 'tmin', 'tmax', 'amap', 'extrema', 'emastep', 'amapstep', 'extremastep', 'macd', 'offint']
INNER = [n for n in U if n not in ('id', 'blend', 'rsub', 'mul', 'add2', 'subset')]
OUTER = ['sq', 'diamond', 'map', 'off1', 'integral', 'ema', 'emastep', 'sma2', 'tmax', 'exte', 'extt', 'min1', 'extrema', 'subset']
INITS = [[], [[0, 1]], [[0, 1], [1, 3], [2, 2]], [[0, 1], [1, 3], [2, 2], [3, 4], [4, 0]]]
READS = ['none', 'each', 'low', 'begin', 'end']
SHORT = [['append', [3, 0]], ['append', [5, 0]], ['append_list', [[3, 0], [4, 0]]], ['replace', [1, 0], False],
         ['replace', [2, 0], False], ['replace', [0, 0], False], ['replace', [0.5, 0], False],
         ['reset', [2, 9, 0, 0]], ['reset', [-5, 0, 0, 0]], ['reset', None],
         ['set', [[0, 0], [1, 0], [2, 0], [3, 0]]], ['set', [[1, 0], [2, 0]]]]
QINIT = [[0, 2], [1, -1], [2, 5], [3, 1]]


def items(tier):
    out = []
    for u in (True, False):
        for r in READS:
            for n in UNARY:
                out.append(['one', n, u, r, tier])
            for n in B:
                out.append(['two', n, u, r, tier])
    for u in (True, False):
        for a in INNER:
            for b in OUTER:
                if b == 'emastep' and a == 'piece':
                    continue    # steps beyond the last point are those of the constant: to where is read
                if b == 'extrema' and a.startswith('ext') and a != 'extrema':
                    continue    # looks ahead for the next crossing: without end if the curve has no end
                out.append(['comp', [a, b], u, tier])
    return out


def histories(kind, uniform, tier):
    full = edit_alphabet()
    for ii, init in enumerate(INITS):
        if kind == 'comp':
            if ii in (0, 1):
                continue
            for op in SHORT:
                yield init, [stamp(op, 1)]
            if tier == 'thorough':
                for h in itertools.product(SHORT, repeat=2):
                    yield init, [stamp(o, i + 1) for i, o in enumerate(h)]
            continue
        for op in full:
            yield init, [stamp(op, 1)]
        if ii in (1, 2) or tier == 'thorough':
            for h in itertools.product(full if tier == 'thorough' and kind == 'one' else SHORT, repeat=2):
                yield init, [stamp(o, i + 1) for i, o in enumerate(h)]
        if tier == 'thorough' and ii in (0, 2):
            for h in itertools.product(SHORT, repeat=3):
                yield init, [stamp(o, i + 1) for i, o in enumerate(h)]


def legal(init, ops, uniform):
    m = RefPoints(init, LIN, uniform)
    for op in ops:
        m = model_apply(m, op)
        if m in (REFUSED, UNSPEC):
            return None
    return m


def run_item(item, rec):
    kind, tree, uniform = item[:3]
    tier = item[-1]
    for init, ops in histories(kind, uniform, tier):
        if legal(init, ops, uniform) is None:
            continue
        for r in ([item[3]] if kind != 'comp' else ['each', 'low', 'begin']):
            case = {'kind': kind, 'tree': tree, 'uniform': uniform, 'init': init, 'ops': ops, 'reads': r}
            if kind == 'two':
                rec.run({**case, 'edit': 'p'})
                if len(ops) == 1:
                    rec.run({**case, 'edit': 'q'})
                else:
                    rec.run({**case, 'edit': 'pq'})
            else:
                rec.run(case)


def build(case, pts, qpts):
    u = case['uniform']
    p = Points([tuple(x) for x in pts], uniform=u)
    if case['kind'] == 'one':
        return p, None, U[case['tree']](p, u)
    if case['kind'] == 'comp':
        c = p
        for n in case['tree']:
            c = U[n](c, u)
        return p, None, c
    q = Points([tuple(x) for x in qpts], uniform=u, interpolation=PREV)
    return p, q, B[case['tree']](p, q, u)


def rd(f):
    try:
        return f()
    except Exception as e:
        return 'raises'


def dom(c):
    d = c.domain
    return None if d.is_empty else (d.start, d.end, bool(d.start_open), bool(d.end_open))


def observe(c):
    out = [rd(lambda: c.y(x)) for x in ASK]
    out.append(rd(lambda: dom(c)))
    out.append(rd(lambda: [tuple(p) for p in c.sample_points(domain=Interval.closed(0, 4), min_step=0.5)]))
    out.append(rd(lambda: c.x_next(1)))
    out.append(rd(lambda: c.x_previous(2)))
    return out


_fresh = {}


def check_case(case, rec):
    u = case['uniform']
    edit = case.get('edit', 'p')
    pm = RefPoints(case['init'], LIN, u)
    qm = RefPoints(QINIT, PREV, u)
    if edit == 'q':
        pm, qm = RefPoints(QINIT, LIN, u), RefPoints(case['init'], PREV, u)
    p, q, c = build(case, pm.points, qm.points)
    r = case['reads']
    if r == 'begin':
        for b in (p, q, c):
            if b is not None:
                b.add_observer(begin=lambda: observe(c))
    elif r == 'end':
        c.add_observer(end=lambda: observe(c))
    elif r == 'low':
        rd(lambda: c.y(1.25))
    if r in ('each', 'end', 'begin'):
        observe(c)
    for i, op in enumerate(case['ops']):
        on_q = edit == 'q' or (edit == 'pq' and i % 2 == 1)
        m = model_apply(qm if on_q else pm, op)
        if m is REFUSED or m is UNSPEC:
            return      # (only for 'pq': not legal on this curve)
        ok = impl_apply(q if on_q else p, op)
        rec.step()
        rec.true(ok, f'edit {op} refused')
        if on_q:
            qm = m
        else:
            pm = m
        if i < len(case['ops']) - 1:
            if r == 'each':
                observe(c)
            elif r == 'low':
                rd(lambda: c.y(1.25))
    got = observe(c)
    rec.true(not c.is_updating, 'the derived curve is still updating after the edit returned')
    key = (case['kind'], str(case['tree']), u, pm.key(), qm.key())
    want = _fresh.get(key)
    if want is None:
        fp, fq, f = build(case, pm.points, qm.points)
        want = observe(f)
        if len(_fresh) < 50000:
            _fresh[key] = want
    rec.state(key)
    rec.outcome(str(want))
    names = [f'y({x})' for x in ASK] + ['domain', 'sample_points(0..4)', 'x_next(1)', 'x_previous(2)']
    for n, a, b in zip(names, got, want):
        if not same(a, b):
            rec.fail(f'{case["tree"]}: {n} is {a!r} after the edits, but {b!r} on a freshly built curve')
