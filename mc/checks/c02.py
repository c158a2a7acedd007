"""C02 - a point curve behaves like an ordered map under every history of edits."""
from curvepy import Points
from mc.ref import MODES, RefPoints, probes
from mc.hist import model_apply, impl_apply, edit_alphabet, stamp, REFUSED, UNSPEC

PROPERTY = 'C02'
BOUNDS = {
    'quick': 'every edit history of length <=3 over 39 edits from 4 initial curves, uniform on/off, read only at the '
             'end (interpolations rotated); length <=2 from 7 initial curves for every interpolation and 5 grids, read '
             'after every edit; length 1 with every list handed in or out changed afterwards',
    'thorough': 'every edit history of length <=4 over 39 edits from 2 initial curves, uniform on/off; length <=3 '
                'from 7 initial curves on 2 grids, read after every edit',
}
ASSUMPTIONS = ['appended / set lists are strictly ascending (documented precondition)',
               'replacing all points of a uniform curve by points of another spacing is not specified and not explored']

GRIDS = [(1, 0), (0.5, -1), (86400, 1580000000), (0.1, 0.3), (10, 5)]
INITS = [[], [0], [0, 1], [0, 1, 2], [0, 1, 2, 3, 4], [0, 1, 2.5], [0, 1, 1.5, 3]]


def items(tier):
    out = []
    quick = tier == 'quick'
    deep, wide = (3, 2) if quick else (4, 3)
    k = 0
    for gi in range(len(GRIDS)) if quick else (1, 2):
        for ii in range(len(INITS)):
            for uniform in (True, False):
                if uniform and ii >= 5:
                    continue
                k += 1
                for mode in MODES if quick else MODES[k % 3:k % 3 + 1]:
                    out.append([gi, ii, uniform, mode, True, wide, None])
                if quick:
                    out.append(['alias', gi, ii, uniform, MODES[k % 3]])
    nops = len(edit_alphabet())
    for ii in (0, 3, 4, 5) if quick else (0, 3):
        for uniform in (True, False):
            if uniform and ii >= 5:
                continue
            k += 1
            for first in range(nops):
                out.append([0, ii, uniform, MODES[k % 3], False, deep, first])
    return out


def init_points(gi, ii):
    s, o = GRIDS[gi]
    return [[o + s * k, (3 * j + 1) % 7 - 2] for j, k in enumerate(INITS[ii])]


def run_item(item, rec):
    if item[0] == 'alias':
        _, gi, ii, uniform, mode = item
        if not (uniform and GRIDS[gi][0] == 0.1):
            for op in edit_alphabet(*GRIDS[gi]):
                rec.run({'alias': stamp(op, 1), 'init': init_points(gi, ii), 'uniform': uniform, 'mode': mode})
        return
    gi, ii, uniform, mode, reads, depth, first = item
    s, o = GRIDS[gi]
    ops = edit_alphabet(s, o)
    init = init_points(gi, ii)
    if uniform and s == 0.1:
        return      # rounding makes "evenly spaced" ambiguous on this grid

    def go(model, hist):
        if hist:
            rec.run({'init': init, 'uniform': uniform, 'mode': mode, 'reads': reads, 'ops': hist})
        if len(hist) >= depth:
            return
        for i, op in enumerate(ops):
            if not hist and first is not None and i != first:
                continue
            op = stamp(op, len(hist) + 1)
            nxt = model_apply(model, op)
            if nxt is UNSPEC:
                continue
            go(model if nxt is REFUSED else nxt, hist + [op])

    go(RefPoints(init, mode, uniform), [])


def observe(p, m, rec, when):
    got = p.sample_points()
    rec.eq([tuple(q) for q in got], m.points, f'{when}: points')
    d = p.domain
    if not m.xs:
        rec.true(d.is_empty, f'{when}: domain {d} of an empty curve')
    else:
        rec.true(d.start == m.xs[0] and d.end == m.xs[-1] and not d.start_open and not d.end_open,
                 f'{when}: domain {d}, points span {m.xs[0]}..{m.xs[-1]}')
    rec.eq(p.y_start(), m.ys[0] if m.ys else None, f'{when}: y_start')
    rec.eq(p.y_end(), m.ys[-1] if m.ys else None, f'{when}: y_end')
    for x in probes(m.xs):
        rec.eq(p.y(x), m.y(x), f'{when}: y({x})')
    rec.true(not p.is_updating, f'{when}: still updating')


def check_alias(case, rec):
    """Lists handed in and handed out are the caller's: changing them changes no curve."""
    m = RefPoints(case['init'], case['mode'], case['uniform'])
    given = [tuple(q) for q in case['init']]
    p = Points(given, interpolation=case['mode'], uniform=case['uniform'])
    given.append((1e9, 3))
    given.reverse()
    observe(p, m, rec, 'after changing the list given at construction')
    op = case['alias']
    nxt = model_apply(m, op)
    if nxt is UNSPEC:
        return
    rec.step()
    m = m if nxt is REFUSED else nxt
    if op[0] in ('set', 'append_list'):
        handed = [tuple(q) for q in op[1]]
        try:
            getattr(p, op[0])(handed)
        except Exception:
            rec.true(nxt is REFUSED, f'{op} refused')
        del handed[1:]
        handed.append((-1e9, 1))
    else:
        impl_apply(p, op)
    observe(p, m, rec, f'after changing the points given to {op}')
    for out in (p.sample_points(), p.sample_points(p.domain) if m.xs else [], p.sample_points(p.domain, step=0.5) if len(m.xs) > 1 and m.xs[-1] - m.xs[0] < 50 else []):
        out.reverse()
        del out[:1]
        observe(p, m, rec, 'after changing a list of samples')
    rec.state(('alias', m.key()))


def check_case(case, rec):
    if 'alias' in case:
        return check_alias(case, rec)
    m = RefPoints(case['init'], case['mode'], case['uniform'])
    p = Points([tuple(q) for q in case['init']], interpolation=case['mode'], uniform=case['uniform'])
    last = len(case['ops']) - 1
    if case['reads']:
        observe(p, m, rec, 'initially')
    for i, op in enumerate(case['ops']):
        nxt = model_apply(m, op)
        ok = impl_apply(p, op)
        rec.step()
        when = f'after edit {i + 1} {op}'
        if nxt is REFUSED:
            rec.true(not ok, f'{when}: accepted, but it must be refused')
        else:
            rec.true(ok, f'{when}: refused, but it is legal')
            m = nxt
        # earlier prefixes are cases of their own; here they are only read when the history says so
        if i == last or case['reads']:
            observe(p, m, rec, when)
    rec.state(m.key())
    rec.outcome(m.key())
