"""C13 - the observer registry: who is registered, until when, in which order they are called."""
import itertools
from curvepy import Points, Constant, Curve, Piecewise
from intervalpy import Interval
from mc.ref import Iv

PROPERTY = 'C13'
BOUNDS = {
    'quick': 'every sequence of 4 registry operations (15 operations: 7 kinds of registration, removal by token, of an '
             'unknown token, by object, of a token twice, death of an object, edits of two regions, derived curve) with an '
             'edit after each; every pair of 3 observers where one removes another during begin or end; 8 '
             'curves which are made of a curve in several ways, every edit of it, and observers of 60 small intervals',
    'thorough': 'every sequence of 5 registry operations',
}
ASSUMPTIONS = ['removal by object also drops observers whose own object has died (documented weak ownership); '
               'histories in which that happens are not claimed']

OPS = ['plain', 'first', 'left', 'right', 'onlybegin', 'onlyend', 'owned', 'owned2', 'auto', 'none',
       'rm0', 'rmlast', 'rmobj', 'die', 'derive']


def items(tier):
    n = 5 if tier == 'thorough' else 4
    return [[n, a, b] for a in OPS for b in OPS] + [['incall']] + [['parts', k] for k in PARTS]


PARTS = {
    'moved': lambda p: p + p.offset(10),
    'both': lambda p: p.offset(-4) + p.offset(4),
    'first': lambda p: Curve.first(p, p.offset(8), p.offset(-7)),
    'run': lambda p: p.offset(2) - p.ema(0.5).offset(-1),
    'chain': lambda p: (p.offset(6) + p).offset(3) * p,
    'step': lambda p: p.offset(3) + p.differential(),
    'pieces': lambda p: Piecewise([p, p.offset(5)], [Interval.closed_open(-9, 4), Interval.closed(4, 20)]),
    'ends': lambda p: Curve.max(p.offset(-6), p.offset(6), p, ignore_empty=True),
}


def run_item(item, rec):
    if item[0] == 'parts':
        for edit in ([['append', k] for k in (1, 2)] + [['replace', x] for x in range(6)] + [['or_append', 6], ['set', 0], ['set', 3]] +
                     [['reset', a, b] for a in (0, 2, 5) for b in (2, 5)]):
            for order in (0, 1):
                rec.run({'parts': item[1], 'edit': edit, 'order': order})
        return
    if item == ['incall']:
        for when in ('begin', 'end'):
            for actor in range(3):
                for victim in range(3):
                    for prio in itertools.product((0, 1), repeat=3):
                        for how in ('token', 'obj'):
                            for domains in ((None, None, None), (None, [-1, 1], None), ([2, 9], None, [-5, 5])):
                                rec.run({'incall': when, 'actor': actor, 'victim': victim, 'prio': list(prio),
                                         'how': how, 'domains': list(domains)})
        return
    n, a, b = item
    for rest in itertools.product(OPS, repeat=n - 2):
        rec.run({'ops': [a, b] + list(rest)})


class Obj:
    pass


class Reg:
    def __init__(self, rid, kind, token):
        self.rid, self.kind, self.token = rid, kind, token
        self.iv = {'left': Iv(-9, 1), 'right': Iv(4, 99)}.get(kind)
        self.prio = kind == 'first'
        self.begin = kind != 'onlyend'
        self.end = kind != 'onlybegin'
        self.alive = True


def check_case(case, rec):
    if 'incall' in case:
        return check_incall(case, rec)
    if 'parts' in case:
        return check_parts(case, rec)
    p = Points([(0, 1), (1, 2), (2, 0), (3, 5), (4, 1), (5, 2)])
    log = []
    regs = []
    objs = {'owned': Obj(), 'owned2': Obj(), 'auto': Obj()}
    derived = []
    tokens = set()
    nid = 0

    def register(kind, rid):
        kw = {'begin': lambda d: log.append(('begin', rid)), 'end': lambda d: log.append(('end', rid))}
        args = ()
        if kind == 'first':
            kw['prioritize'] = True
        elif kind == 'left':
            kw['domain'] = Interval(-9, 1)
        elif kind == 'right':
            kw['domain'] = Interval(4, 99)
        elif kind == 'onlybegin':
            del kw['end']
        elif kind == 'onlyend':
            del kw['begin']
        elif kind in ('owned', 'owned2'):
            args = (objs[kind],)
        elif kind == 'auto':
            args = (objs['auto'],)
            kw['autoremove'] = True
        return p.add_observer(*args, **kw)

    value = 10
    for i, op in enumerate(case['ops']):
        rec.step()
        if op in ('plain', 'first', 'left', 'right', 'onlybegin', 'onlyend', 'owned', 'owned2', 'auto'):
            if op in objs and objs[op] is None:
                return
            nid += 1
            t = register(op, nid)
            rec.true(bool(t) and t not in tokens, f'registration token {t!r} not fresh')
            tokens.add(t)
            regs.append(Reg(nid, op, t))
        elif op == 'none':
            p.add_observer()
            p.add_observer(Obj())
        elif op == 'rm0':
            if regs:
                p.remove_observer(regs[0].token)
                p.remove_observer(regs[0].token)
                del regs[0]
            else:
                p.remove_observer(10 ** 9)
        elif op == 'rmlast':
            if regs:
                p.remove_observer(regs[-1].token)
                del regs[-1]
        elif op == 'rmobj':
            p.remove_observer(objs['owned2'])
            regs = [r for r in regs if r.kind != 'owned2']
        elif op == 'die':
            objs['auto'] = None
            regs = [r for r in regs if r.kind != 'auto']
        elif op == 'derive':
            derived.append(-p + Constant(len(derived)))
        # edits: one inside [0, 1], one inside [4, 5], one in the middle
        for x, iv in ((0, Iv(0, 1, False, True)), (5, Iv(4, 5, True, False)), (2, Iv(1, 3, True, True))):
            log.clear()
            value += 1
            p.replace((x, value))
            rec.step()
            want = [r for r in regs if r.iv is None or not r.iv.meet(iv).empty]
            # an interest which only touches an open end of the region is left open
            open_ = {r.rid for r in regs if r.iv is not None and r.iv.meet(iv).empty
                     and r.iv.a <= iv.b and iv.a <= r.iv.b}
            for k in ('begin', 'end'):
                got = [rid for kk, rid in log if kk == k and rid not in open_]
                expected = {r.rid for r in want if getattr(r, k)}
                rec.true(sorted(got) == sorted(expected),
                         f'after {case["ops"][:i + 1]}, edit at {x}: {k} called {got}, registered {sorted(expected)}')
                prio = [r.rid for r in want if r.prio and getattr(r, k)]
                rest = [r.rid for r in want if not r.prio and getattr(r, k)]
                rec.true(set(got[:len(prio)]) == set(prio) and got[len(prio):] == rest,
                         f'after {case["ops"][:i + 1]}, edit at {x}: {k} order {got}, prioritised {prio}, others {rest}')
            order = [k for k, _ in log]
            rec.true(order == sorted(order), f'begin and end interleaved: {log}')
            for n, d in enumerate(derived):
                rec.eq(d.y(x), -value + n, f'derived curve {n} after edit at {x}')
        rec.state((tuple((r.kind) for r in regs), len(derived), objs['auto'] is None))
    rec.outcome(tuple(r.kind for r in regs))


def check_parts(case, rec):
    """Updates which are announced in several parts: the end is called wherever one of them was announced."""
    p = Points([(0, 1), (1, 2), (2, 0), (3, 5), (4, 1), (5, 2)], uniform=False)
    c = PARTS[case['parts']](p)
    seen = []
    calls = {}
    spots = [(k / 2 - 10, k / 2 - 10 + w) for k in range(60) for w in (0, 0.25)]

    def watch(spot):
        calls[spot] = []
        c.add_observer(domain=Interval.closed(*spot), begin=lambda: calls[spot].append('begin'), end=lambda: calls[spot].append('end'))

    def everything():
        c.add_observer(begin=lambda d: seen.append(('begin', d)), end=lambda d: seen.append(('end', d)))
    for f in ([everything], [lambda s=s: watch(s) for s in spots])[::1 if case['order'] else -1]:
        for g in f:
            g()
    kind, *args = case['edit']
    for again in range(2):
        seen.clear()
        for s in spots:
            calls[s].clear()
        end = p.domain.end
        if kind == 'append':
            p.append_list([(end + 1 + i, 7 + i + again) for i in range(args[0])])
        elif kind == 'replace':
            if not p.domain.contains(args[0]):
                return
            p.replace((args[0], 9 + again))
        elif kind == 'or_append':
            p.replace((end + 1, 9), or_append=True)
        elif kind == 'set':
            p.set([(i + args[0], i * i + again) for i in range(4)])
        else:
            p.reset(Interval.closed(args[0] + again, args[1] + again))
        rec.step()
        what = f'{case["parts"]}, {case["edit"]} ({again})'
        rec.true(not c.is_updating, f'{what}: still updating')
        begun = [Iv(d.start, d.end, d.start_open, d.end_open) for k, d in seen if k == 'begin']
        ended = [Iv(d.start, d.end, d.start_open, d.end_open) for k, d in seen if k == 'end']
        for s in spots:
            iv = Iv(*s)
            n = calls[s]
            if any(not d.meet(iv).empty for d in begun):
                rec.true('begin' in n and n[-1:] == ['end'], f'{what}: the observer of {s} was called {n}; announced {seen}')
                rec.true(n == sorted(n), f'{what}: the observer of {s} was called {n}')
            elif not any(iv.a <= d.b and d.a <= iv.b for d in begun + ended):
                rec.true(not n, f'{what}: the observer of {s} was called {n}; announced {seen}')
            rec.true(n.count('end') <= len(ended) and n.count('begin') <= len(begun), f'{what}: the observer of {s} was called {n}')
    rec.state(str(case))
    rec.outcome(str(sorted(calls.items())))


def check_incall(case, rec):
    p = Points([(0, 1), (1, 2), (2, 0), (3, 5)])
    log = []
    objs = [Obj() for _ in range(3)]
    tokens = []
    fired = []

    def remove():
        if not fired:
            fired.append(1)
            log.append(('removed', case['victim']))
            p.remove_observer(tokens[case['victim']] if case['how'] == 'token' else objs[case['victim']])

    def add(i):
        def begin(d):
            log.append(('begin', i))
            if case['incall'] == 'begin' and case['actor'] == i:
                remove()

        def end(d):
            log.append(('end', i))
            if case['incall'] == 'end' and case['actor'] == i:
                remove()
        d = case['domains'][i]
        tokens.append(p.add_observer(objs[i], domain=None if d is None else Interval(*d), begin=begin, end=end,
                                     prioritize=bool(case['prio'][i])))
    for i in range(3):
        add(i)
    gone = False
    for r in range(2):
        log.clear()
        p.replace((1, 10 + r))
        rec.step()
        cut = log.index(('removed', case['victim'])) if ('removed', case['victim']) in log else None
        for i in range(3):
            d = case['domains'][i]
            interested = d is None or d[1] >= 0 and d[0] <= 2
            for k in ('begin', 'end'):
                n = log.count((k, i))
                if not interested and not (d[1] == 0 or d[0] == 2):
                    rec.true(n == 0, f'observer {i} with interest {d} was called')
                elif not interested or d is not None and (d[1] == 0 or d[0] == 2):
                    rec.true(n <= 1, f'observer {i}: {n} {k} calls in one edit')
                elif i == case['victim'] and (gone or cut is not None):
                    after = log[cut:].count((k, i)) if cut is not None else n
                    rec.true(after == 0, f'observer {i} was called after it was removed: {log}')
                    rec.true(n <= 1, f'observer {i}: {n} {k} calls in one edit: {log}')
                    if not gone and cut is not None and k == 'begin' and case['incall'] == 'end':
                        rec.true(n == 1, f'observer {i} not called before it was removed: {log}')
                else:
                    rec.true(n == 1, f'observer {i}: {n} {k} calls in one edit, expected 1: {log}')
        gone = gone or cut is not None
        rec.true(not p.is_updating, 'still updating')
        rec.eq(p.y(1), 10 + r, 'value after the edit')
    rec.state(str(case))
    rec.outcome(tuple(log))
