"""C12 - the update protocol: who is told what, when and how often."""
import itertools
from curvepy import Points, Constant, Line
from curvepy.sin import Sin
from intervalpy import Interval
from mc.core import same
from mc.ref import LIN, MODES, RefPoints, Iv
from mc.hist import model_apply, impl_apply, edit_alphabet, stamp, REFUSED, UNSPEC
from mc.trees import U, B

PROPERTY = 'C12'
BOUNDS = {
    'quick': 'edits by an observer of an edit of the base or of one of 48 derived curves, placed first or last: every pair of 12 edits; base curve, 47 derived curves over one curve and 18 over two x every edit history of length 1 (39 edits, '
             '4 initial curves) and length 2 (12 edits, 2 initial curves) x callbacks that read or do not read; '
             'observers without and with 7 domains of interest; observers of the edited curve which read the derived one, added before and after it; edits of constants, lines and sines',
    'thorough': 'as quick with histories of length 2 over all edits from all initial curves and every interpolation',
}
ASSUMPTIONS = ['curves reached from the edited curve along several paths may be told more than once; then the first '
               'begin precedes all changes and the last end sees the final state']

ASK = [-1, 0, 0.25, 0.5, 1, 1.25, 1.5, 2, 2.75, 3, 3.5, 4, 5, 6]
INITS = [[], [[0, 1]], [[0, 1], [1, 3], [2, 2]], [[0, 1], [1, 3], [2, 2], [3, 4], [4, 0]]]
QINIT = [[0, 2], [1, -1], [2, 5], [3, 1]]
DOMAINS = [[0, 0, 0, 0], [0.6, 0.9, 1, 1], [1, 2, 1, 1], [1.2, 1.8, 0, 0], [2, 3, 1, 0], [-9, -0.5, 0, 0], [3.2, 99, 0, 0]]
MULTI = {'sq', 'diamond', 'smma', 'p+sum', 'selfoff', 'selfoff-', 'selfdiff', 'macd', 'offint', 'offfirst'}
NAMES = ['id'] + [n for n in U if n not in ('id', 'blend')]
SHORT = [['append', [3, 0]], ['append_list', [[3, 0], [4, 0]]], ['replace', [1, 0], False], ['replace', [2, 0], False],
         ['replace', [0.5, 0], False], ['reset', [2, 9, 0, 0]], ['reset', [-5, 0, 0, 0]], ['reset', None],
         ['set', [[0, 0], [1, 0], [2, 0], [3, 0]]], ['set', [[1, 0], [2, 0]]], ['append', [5, 0]],
         ['replace', [2.5, 0], True]]


def items(tier):
    out = []
    for u in (True, False):
        for reading in (False, True):
            for n in NAMES:
                out.append(['one', n, u, reading, tier])
            for n in B:
                out.append(['two', n, u, reading, tier])
    out.append(['param'])
    out += [['nested', n, u, tier] for n in NAMES for u in (True, False)]
    return out


def run_item(item, rec):
    if item[0] == 'param':
        for name in PARAM:
            for chain in ('id', 'neg', 'off1', 'add2', 'sq'):
                for reading in (False, True):
                    rec.run({'kind': 'param', 'edit': name, 'tree': chain, 'reading': reading})
        return
    if item[0] == 'nested':
        _, n, u, tier = item
        for init in INITS[2:] if tier == 'thorough' else INITS[2 + u:3 + u]:
            for ops in itertools.product(SHORT, repeat=2):
                ops = [stamp(o, i + 1) for i, o in enumerate(ops)]
                m = RefPoints(init, LIN, u)
                for op in ops:
                    m = model_apply(m, op)
                    if m in (REFUSED, UNSPEC):
                        break
                else:
                    for on in ('base', 'derived'):
                        # parts of a curve with several paths: not claimed for an edit before the others are told
                        for first in (False, True) if n not in MULTI else (False,):
                            for reading in (False, True):
                                rec.run({'kind': 'nested', 'tree': n, 'uniform': u, 'init': init, 'ops': ops, 'on': on,
                                         'first': first, 'reading': reading})
        return
    kind, n, u, reading, tier = item
    full = edit_alphabet()
    modes = MODES if (tier == 'thorough' or n == 'id') else [LIN]
    for mode in modes:
        for ii, init in enumerate(INITS):
            hs = [[stamp(o, 1)] for o in full]
            if ii in (1, 2) or tier == 'thorough':
                ab = full if tier == 'thorough' and n == 'id' else SHORT
                hs += [[stamp(o, i + 1) for i, o in enumerate(h)] for h in itertools.product(ab, repeat=2)]
            for ops in hs:
                m = RefPoints(init, mode, u)
                for op in ops:
                    m = model_apply(m, op)
                    if m in (REFUSED, UNSPEC):
                        break
                else:
                    case = {'kind': kind, 'tree': n, 'uniform': u, 'mode': mode, 'init': init, 'ops': ops,
                            'reading': reading}
                    rec.run(case)
                    if kind == 'two' and len(ops) == 1:
                        rec.run({**case, 'on': 'q'})


def read(c):
    out = []
    for x in ASK:
        try:
            out.append(c.y(x))
        except Exception:
            out.append('raises')
    return out


def iv(d):
    return None if d.is_empty else [d.start, d.end, bool(d.start_open), bool(d.end_open)]


def meets(region, j):
    return not Iv(*region).meet(Iv(*j)).empty


class Watch:
    """Observers of one curve: one unrestricted with and one without argument, one per domain of interest."""

    def __init__(self, curve, reading):
        self.curve = curve
        self.reading = reading
        self.events = []        # of the unrestricted observer
        self.plain = []         # argument-less callbacks
        self.only = []
        self.by_domain = [[] for _ in DOMAINS]
        curve.add_observer(begin=self.begin, end=self.end)
        curve.add_observer(begin=lambda: self.plain.append('begin'), end=lambda: self.plain.append('end'))
        curve.add_observer(begin=lambda d: self.only.append('begin'))
        curve.add_observer(end=lambda: self.only.append('end'))
        for j, log in zip(DOMAINS, self.by_domain):
            self.watch_domain(j, log)

    def watch_domain(self, j, log):
        self.curve.add_observer(domain=Interval(j[0], j[1], start_open=bool(j[2]), end_open=bool(j[3])),
                                begin=lambda d: log.append('begin'), end=lambda d: log.append('end'))

    def begin(self, d):
        self.events.append(('begin', iv(d), self.curve.is_updating, read(self.curve) if self.reading else None))

    def end(self, d):
        self.events.append(('end', iv(d), self.curve.is_updating, read(self.curve) if self.reading else None))

    def clear(self):
        self.events.clear()
        self.plain.clear()
        self.only.clear()
        for log in self.by_domain:
            log.clear()


def judge(w, old, new, multi, rec, what):
    ev = w.events
    kinds = [e[0] for e in ev]
    changed = [x for x, a, b in zip(ASK, old, new)
               if not same(a, b) and 'raises' not in (a, b)]
    if changed:
        rec.true('begin' in kinds and 'end' in kinds, f'{what}: values at {changed} changed, but observers saw {kinds}')
    if kinds:
        if multi:
            rec.true(kinds[0] == 'begin' and kinds[-1] == 'end', f'{what}: order of notifications {kinds}')
        else:
            rec.true(kinds == ['begin', 'end'], f'{what}: notifications {kinds}, expected one begin and one end')
    rec.eq(w.plain, kinds, f'{what}: callbacks without argument')
    rec.eq(w.only, kinds, f'{what}: observers of only begin or only end')
    rec.true(not w.curve.is_updating, f'{what}: still updating after the edit returned')
    if not ev:
        return
    for k, region, updating, seen in ev:
        rec.true(region is not None, f'{what}: {k} with an empty region')
        if k == 'begin':
            rec.true(updating, f'{what}: not updating during begin')
    for k in ('begin', 'end'):
        regions = [e[1] for e in ev if e[0] == k]
        for x in changed:
            rec.true(any(Iv(*r).has(x) for r in regions),
                     f'{what}: value at {x} changed, outside of the region {regions} announced at {k}')
        for j, log in zip(DOMAINS, w.by_domain):
            want = sum(1 for r in regions if meets(r, j))
            most = sum(1 for r in regions if r[0] <= j[1] and j[0] <= r[1])    # touching only with an open end: open
            got = sum(1 for q in log if q == k)
            rec.true(want <= got <= most, f'{what}: observer interested in {j} got {got} {k} call(s) for regions {regions}')
    if w.reading:
        rec.eq(ev[0][3], old, f'{what}: values read in the first begin callback (expected the old ones)')
        rec.eq(ev[-1][3], new, f'{what}: values read in the last end callback (expected the new ones)')
    rec.outcome((tuple(kinds), str(ev[0][1])))


class Beyond:
    """An observer of the edited curve which reads a curve derived from it."""

    def __init__(self, base):
        self.curve = None
        self.seen = []
        base.add_observer(begin=lambda: self.look('begin'), end=lambda: self.look('end'))

    def look(self, k):
        if self.curve is not None:
            self.seen.append((k, read(self.curve), iv(self.curve.domain)))

    def judge(self, old, new, domains, rec, what):
        for k, got, domain in self.seen:
            rec.eq(got, old if k == 'begin' else new, f'{what}: derived curve read by an observer of the edited one at {k}')
            rec.eq(domain, domains[k == 'end'], f'{what}: domain of a derived curve read by an observer of the edited one at {k}')
        self.seen.clear()


PARAM = {
    'const': (lambda: Constant(1), lambda c: setattr(c, 'value', 5)),
    'constNone': (lambda: Constant(1), lambda c: setattr(c, 'value', 0)),
    'constdom': (lambda: Constant(2, domain=Interval.closed(0, 3)), lambda c: setattr(c, 'value', 7)),
    'line': (lambda: Line(const=1, slope=2), lambda c: c.set(const=1, slope=-1)),
    'line2': (lambda: Line(const=1, slope=2), lambda c: c.set(p1=(1, 3), p2=(2, 9))),
    'line3': (lambda: Line(const=1, slope=2), lambda c: c.set(const=2, slope=2)),
    'line4': (lambda: Line(p1=(1, 1), slope=2), lambda c: c.set(p1=(1, 4), slope=2)),
    'sin': (lambda: Sin(amplitude=1, period=4), lambda c: c.set(amplitude=2, period=4)),
    'sin2': (lambda: Sin(amplitude=1, period=4), lambda c: c.set(amplitude=1, frequency=0.4, phase=1)),
}


def check_nested(case, rec):
    """An observer of an edit makes another edit."""
    u = case['uniform']
    p = Points([tuple(x) for x in case['init']], uniform=u)
    c = U[case['tree']](p, u)
    m = RefPoints(case['init'], LIN, u)
    old_b, old_c = read(p), read(c)
    todo = [case['ops'][1]]

    def edit():
        if todo:
            rec.true(impl_apply(p, todo.pop()), 'edit by an observer refused')
    curves = [p] if c is p else [p, c]
    before = [Watch(x, case['reading']) for x in curves]
    (p if case['on'] == 'base' else c).add_observer(end=edit, prioritize=case['first'])
    after = [Watch(x, case['reading']) for x in curves]
    for op in case['ops']:
        m = model_apply(m, op)
    rec.true(impl_apply(p, case['ops'][0]), 'edit refused')
    rec.step()
    if todo:
        return      # the derived curve does not change
    what = f'edit {case["ops"][0]} whose observer edits {case["ops"][1]}'
    rec.eq(read(p), [m.y(x) for x in ASK], f'{what}: edited curve')
    fresh = U[case['tree']](Points([tuple(x) for x in m.points], uniform=u), u)
    rec.eq(read(c), read(fresh), f'{what}: derived curve')
    rec.eq(iv(c.domain), iv(fresh.domain), f'{what}: domain of the derived curve')
    for ws in (before, after):
        judge(ws[0], old_b, read(p), True, rec, f'{what}, edited curve')
        if len(ws) > 1:
            judge(ws[1], old_c, read(c), True, rec, f'{what}, derived curve')
    rec.state((case['tree'], u, m.key()))


def check_case(case, rec):
    if case['kind'] == 'nested':
        return check_nested(case, rec)
    if case['kind'] == 'param':
        make, edit = PARAM[case['edit']]
        base = make()
        beyond = [Beyond(base)]
        c = U[case['tree']](base, True)
        old_b, old_c, old_d = read(base), read(c), iv(c.domain)
        wb, wc = Watch(base, case['reading']), Watch(c, case['reading'])
        if case['reading'] and c is not base:
            beyond.append(Beyond(base))
            for b in beyond:
                b.curve = c
        edit(base)
        rec.step()
        rec.true(not same(read(base), old_b), 'the edit had no effect')
        judge(wb, old_b, read(base), False, rec, 'edited curve')
        judge(wc, old_c, read(c), case['tree'] in MULTI, rec, 'derived curve')
        for b in beyond:
            b.judge(old_c, read(c), (old_d, iv(c.domain)), rec, case['edit'])
        rec.state(str(case))
        return
    u = case['uniform']
    on_q = case.get('on') == 'q'
    init, qinit = (QINIT, case['init']) if on_q else (case['init'], QINIT)
    p = Points([tuple(x) for x in init], uniform=u, interpolation=case['mode'])
    q = None
    if case['kind'] == 'two':
        q = Points([tuple(x) for x in qinit], uniform=u)
        beyond = [Beyond(q if on_q else p)]
        c = B[case['tree']](p, q, u)
    else:
        beyond = [Beyond(p)]
        c = U[case['tree']](p, u)
    target = q if on_q else p
    m = RefPoints(case['init'], LIN if on_q else case['mode'], u)
    multi = case['tree'] in MULTI
    wb = Watch(target, case['reading'])
    wc = Watch(c, case['reading']) if c is not target else None
    if wc and case['reading']:
        beyond.append(Beyond(target))
        for b in beyond:
            b.curve = c
    for i, op in enumerate(case['ops']):
        wb.clear()
        old_b = [m.y(x) for x in ASK]
        old_c = None
        if wc:
            wc.clear()
            old_c, old_d = read(c), iv(c.domain)
        m = model_apply(m, op)
        rec.true(impl_apply(target, op), f'edit {op} refused')
        rec.step()
        what = f'edit {i + 1} {op}'
        judge(wb, old_b, [m.y(x) for x in ASK], False, rec, f'{what}, edited curve')
        if wc:
            judge(wc, old_c, read(c), multi, rec, f'{what}, derived curve')
            for b in beyond:
                b.judge(old_c, read(c), (old_d, iv(c.domain)), rec, what)
    rec.state((case['tree'], u, m.key()))
