"""C03 - a refused edit leaves no trace."""
from curvepy import Points, Line, Constant
from curvepy.sin import Sin
from curvepy.quotes import Quotes
from mc.core import same
from mc.ref import LIN, RefPoints
from mc.hist import model_apply, impl_apply, edit_alphabet, stamp, REFUSED, UNSPEC
from mc.trees import U

PROPERTY = 'C03'
BOUNDS = {
    'quick': 'point curves: 6 initial curves x (no edit + 12 accepted edits) x every refused edit (39-edit alphabet and 10 '
             'malformed edits) x 12 derived curves x 5 later edits, uniform on/off, against a twin that never saw the '
             'refused edit; quotes with 5 raising encoders and 7 refused edits; 18 refused line and sine settings',
    'thorough': 'as quick with 40 derived curves and all 39 later edits',
}
ASSUMPTIONS = ['an edit counts as refused when it raises']

ASK = [-1, 0, 0.25, 0.5, 1, 1.25, 1.5, 2, 2.75, 3, 3.5, 4, 5, 6]
INITS = [[], [[0, 1]], [[0, 1], [1, 3]], [[0, 1], [1, 3], [2, 2]], [[0, 1], [1, 3], [2, 2], [3, 4], [4, 0]],
         [[0, 1], [1, 3], [2.5, 2]]]
PREFIX = [None, ['append', [3, 0]], ['append_list', [[3, 0], [4, 0]]], ['replace', [1, 0], False],
          ['replace', [0.5, 0], False], ['reset', [2, 9, 0, 0]], ['reset', [-5, 0, 0, 0]], ['reset', None],
          ['set', [[0, 0], [1, 0], [2, 0], [3, 0]]], ['set', [[1, 0], [2, 0]]], ['append', [5, 0]],
          ['replace', [2.5, 0], True], ['set', [[7, 0]]]]
LATER = [['append', [3, 0]], ['replace', [1, 0], False], ['reset', [2, 9, 0, 0]], ['set', [[0, 0], [1, 0], [2, 0]]],
         ['append_list', [[5, 0], [6, 0]]]]
BAD = [['append', []], ['append_list', [[3, 1], [4, 2], []]], ['append_list', [[3, 1], [4, 2], [4.5, 3], [6, 1]]],
       ['append_list', [[5, 1], [], [7, 2]]], ['set', [[0, 1], [1, 2], []]], ['set', [[0, 1], []]],
       ['set', [[0, 1], [1, 2], [2.5, 1], [3, 4]]], ['replace', [], False], ['replace', [], True], ['reset', 'bad']]
TREES = ['id', 'ema', 'sma2', 'extc', 'exttr', 'integral', 'off1', 'diff', 'max0', 'tmin', 'piece', 'extrema']
ALL = [n for n in U if n != 'blend']


def items(tier):
    out = []
    for n in TREES if tier == 'quick' else ALL:
        for u in (True, False):
            for ii in range(len(INITS)):
                if u and ii == 5:
                    continue
                out.append(['points', n, u, ii, tier])
    return out + [['quotes'], ['param']]


def run_item(item, rec):
    if item[0] == 'quotes':
        for enc in range(len(ENCODERS)):
            for pre in range(3):
                for bad in range(len(QBAD)):
                    for twice in (False, True):
                        rec.run({'kind': 'quotes', 'enc': enc, 'pre': pre, 'bad': bad, 'twice': twice})
        return
    if item[0] == 'param':
        for name in PARAM:
            for i in range(len(PARAM[name][2])):
                for t in ('id', 'neg', 'add2', 'off1'):
                    rec.run({'kind': 'param', 'curve': name, 'bad': i, 'tree': t})
        return
    _, n, u, ii, tier = item
    init = INITS[ii]
    for pre in PREFIX:
        m = RefPoints(init, LIN, u)
        if pre is not None:
            pre = stamp(pre, 1)
            m = model_apply(m, pre)
            if m in (REFUSED, UNSPEC):
                continue
        bads = [stamp(o, 2) for o in edit_alphabet()]
        bads = [o for o in bads if model_apply(m, o) is REFUSED] + BAD
        later = LATER if tier == 'quick' else edit_alphabet()
        later = [stamp(o, 3) for o in later]
        later = [o for o in later if model_apply(m, o) not in (REFUSED, UNSPEC)]
        for bad in bads:
            for nxt in later:
                rec.run({'kind': 'points', 'tree': n, 'uniform': u, 'init': init, 'pre': pre, 'bad': bad, 'next': nxt})


def read(c):
    out = []
    for x in ASK:
        try:
            out.append(c.y(x))
        except Exception as e:
            out.append('raises ' + type(e).__name__)
    return out


def attempt(p, op):
    kind = op[0]
    try:
        if kind == 'append':
            p.append(tuple(op[1]))
        elif kind == 'append_list':
            p.append_list([tuple(q) for q in op[1]])
        elif kind == 'set':
            p.set([tuple(q) for q in op[1]])
        elif kind == 'replace':
            p.replace(tuple(op[1]), or_append=op[2])
        elif kind == 'reset':
            p.reset(op[1] if isinstance(op[1], str) else None)
    except Exception:
        return False
    return True


def watch(c):
    log = []

    def iv(d):
        return (d.start, d.end, bool(d.start_open), bool(d.end_open))
    c.add_observer(begin=lambda d: log.append(('begin', iv(d))), end=lambda d: log.append(('end', iv(d))))
    return log


def check_case(case, rec):
    {'points': check_points, 'quotes': check_quotes, 'param': check_param}[case['kind']](case, rec)


def check_points(case, rec):
    u = case['uniform']

    def build():
        p = Points([tuple(x) for x in case['init']], uniform=u)
        c = U[case['tree']](p, u)
        if case['pre']:
            read(c)
            rec.true(impl_apply(p, case['pre']), f'legal edit {case["pre"]} refused')
        return p, c, watch(p), watch(c)
    p, c, lp, lc = build()
    p2, c2, lp2, lc2 = build()
    before_p, before_c = list(p.sample_points()), read(c)
    read(c2)
    lp.clear(), lc.clear()
    malformed = case['bad'] in BAD
    for again in range(2):
        if malformed:
            if attempt(p, case['bad']):
                rec.count('malformed_accepted')
                return
        else:
            rec.true(not impl_apply(p, case['bad']), f'{case["bad"]} accepted, but it must be refused')
        rec.step()
        what = f'refused edit {case["bad"]}'
        rec.eq(list(p.sample_points()), before_p, f'{what}: points afterwards')
        rec.true(not lp and not lc, f'{what} was announced: {lp + lc}')
        rec.true(not p.is_updating and not c.is_updating, f'{what}: still updating')
        rec.eq(read(c), before_c, f'{what}: values of the derived curve')
        rec.true(str(p.domain) == str(p2.domain), f'{what}: domain {p.domain}')
    a, b = impl_apply(p, case['next']), impl_apply(p2, case['next'])
    rec.step()
    what = f'edit {case["next"]} following refused {case["bad"]}'
    rec.true(a and b, f'{what} refused')
    rec.eq(list(p.sample_points()), list(p2.sample_points()), f'{what}: points')
    rec.eq(lp, lp2, f'{what}: announcements')
    rec.eq(lc, lc2, f'{what}: announcements of the derived curve')
    rec.eq(read(c), read(c2), f'{what}: derived values')
    rec.eq(read(p), read(p2), f'{what}: values')
    rec.state((case['tree'], u, str(case['init']), str(case['pre']), str(case['bad'])))
    rec.outcome(tuple(map(str, p.sample_points())))


def enc_none(q):
    return q


def make_raising(n):
    def enc(q):
        if q[1] is None or q[1] == 'bad' or q[0] == n:
            raise ValueError('cannot encode')
        return (q[0], [q[1], q[1] + 2, q[1] - 2, q[1] + 1, 1])
    return enc


def enc_late(q):
    # accepts the quote but encodes an irregular time for it
    return (q[0] + (0.5 if q[1] == 'bad' else 0), [0, 1, -1, 0.5, 1] if q[1] in (None, 'bad') else [q[1]] * 5)


T0 = 1577836800
DAY = 86400
ENCODERS = [make_raising(None), make_raising(T0 + 4 * DAY), make_raising(T0 + 5 * DAY), enc_late, make_raising(T0 + 9 * DAY)]
QBAD = [['append', (T0 + 3 * DAY, 'bad')], ['append', (T0 + 3.5 * DAY, 4)], ['append', (T0, 4)],
        ['append_list', [(T0 + 3 * DAY, 4), (T0 + 4 * DAY, 'bad')]],
        ['append_list', [(T0 + 3 * DAY, 4), (T0 + 4 * DAY, 5), (T0 + 5.5 * DAY, 1)]],
        ['set', [(T0, 4), (T0 + DAY, 'bad')]], ['set', [(T0, 4), (T0 + DAY, 3), (T0 + 2.5 * DAY, 3)]]]
QPRE = [[], [(T0, 1)], [(T0, 1), (T0 + DAY, 5), (T0 + 2 * DAY, 3)]]


def check_quotes(case, rec):
    def build():
        q = Quotes('1d', QPRE[case['pre']] or None, encoder=ENCODERS[case['enc']])
        return q, [q.close, q.high.ema(0.5), q.low.sma(2), q.hl2]
    q, cs = build()
    q2, cs2 = build()
    bad = QBAD[case['bad']]
    log = watch(q)
    logs = [watch(c) for c in cs]
    ask = [T0 + DAY * k / 2 for k in range(-1, 12)]

    def view(q, cs):
        return [[q.y(x) for x in ask]] + [[c.y(x) for x in ask] for c in cs]
    before = view(q, cs)
    view(q2, cs2)
    accepted = True
    for again in range(2 if case['twice'] else 1):
        try:
            getattr(q, bad[0])(bad[1])
        except Exception:
            accepted = False
        rec.step()
        if accepted:
            rec.count('accepted')
            return
        rec.true(not log and not any(logs), f'refused {bad} was announced')
        rec.eq(view(q, cs), before, f'after refused {bad}')
        rec.true(not q.is_updating and not any(c.is_updating for c in cs), f'refused {bad}: still updating')
    for nxt in ((T0 + 3 * DAY, 7), (T0 + 4 * DAY, 8)):
        r = []
        for s in (q, q2):
            try:
                s.append(nxt)
                r.append(True)
            except Exception:
                r.append(False)
        rec.eq(r[0], r[1], f'append {nxt} following refused {bad}: accepted')
        rec.step()
        rec.eq(view(q, cs), view(q2, cs2), f'append {nxt} following refused {bad}')
    rec.state(str(case))
    rec.outcome(str(before))


PARAM = {
    'line': (lambda: Line(const=1, slope=2), [-3, 0, 1, 4],
             [{}, {'const': 5}, {'slope': 3}, {'p1': (1, None), 'slope': 1}, {'p1': (2, 2)}, {'p1': (2, 'a'), 'p2': (3, 1)},
              {'points': [(1, 2)]}, {'p2': (1, 5)}, {'p1': (None, 1), 'slope': 4}]),
    'sin': (lambda: Sin(amplitude=2, period=5, phase=1), [-3, 0, 1, 4],
            [{}, {'amplitude': 3}, {'period': 4}, {'amplitude': 3, 'period': 0}, {'amplitude': 3, 'period': 7, 'phase': None},
             {'period': 3, 'phase_x': 1}, {'frequency': 3, 'phase': 2}, {'amplitude': 1, 'phase_x': 1}, {'phase': 1}]),
}


def check_param(case, rec):
    make, ask, bads = PARAM[case['curve']]
    bad = bads[case['bad']]
    f = make()
    c = U[case['tree']](f, True)
    lf, lc = watch(f), watch(c)
    before = [[f.y(x), c.y(x), f.d_y(x)] for x in ask]
    try:
        f.set(**bad)
    except Exception:
        pass
    else:
        rec.fail(f'set({bad}) accepted')
    rec.step()
    rec.true(not lf and not lc, f'refused set({bad}) was announced')
    rec.eq([[f.y(x), c.y(x), f.d_y(x)] for x in ask], before, f'after refused set({bad})')
    rec.true(not f.is_updating and not c.is_updating, 'still updating')
    if case['curve'] == 'line':
        f.set(const=3, slope=1)
        want = [3 + x for x in ask]
    else:
        f.set(amplitude=0, period=1)
        want = [0 for x in ask]
    rec.eq([f.y(x) for x in ask], want, f'edit following refused set({bad})')
    rec.eq([k for k, _ in lf], ['begin', 'end'], f'announcements of the edit following refused set({bad})')
    rec.eq([k for k, _ in lc], ['begin', 'end'], f'derived announcements following refused set({bad})')
    rec.state(str(case))
