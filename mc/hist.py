"""Edit histories of point curves: operations, the reference transition relation, application."""
from curvepy import Points
from intervalpy import Interval
from mc.ref import RefPoints, Iv

REFUSED = 'refused'
UNSPEC = 'unspecified'


def interval(j):
    return Interval(j[0], j[1], start_open=bool(j[2]), end_open=bool(j[3]))


def regular_with(xs, step):
    tol = 1e-9 * abs(step)
    return all(abs((b - a) - step) <= tol for a, b in zip(xs, xs[1:]))


def model_apply(m, op):
    """Successor of model state m (a RefPoints) under op; REFUSED when the edit must be rejected,
    UNSPEC when the documentation leaves the outcome open (never executed)."""
    kind = op[0]
    step = m.step()
    if kind in ('append', 'append_list'):
        pts = [tuple(op[1])] if kind == 'append' else [tuple(p) for p in op[1]]
        if not pts:
            return m
        if not m.xs:
            return model_apply(m, ['set', op[1] if kind == 'append_list' else [op[1]]])
        if pts[0][0] <= m.xs[-1]:
            return REFUSED
        r = m.copy()
        r.xs += [p[0] for p in pts]
        r.ys += [p[1] for p in pts]
        if m.uniform and not regular_with(r.xs, r.xs[1] - r.xs[0]):
            return REFUSED
        return r
    if kind == 'set':
        pts = [tuple(p) for p in op[1]]
        r = RefPoints(pts, m.mode, m.uniform)
        if m.uniform and len(pts) > 1:
            own = pts[1][0] - pts[0][0]
            if not regular_with(r.xs, own):
                return REFUSED
            if step is not None and abs(own - step) > 1e-9 * step:
                return UNSPEC
        return r
    if kind == 'replace':
        x, y = op[1]
        or_append = op[2]
        if not m.xs or x < m.xs[0] or x > m.xs[-1]:
            if or_append:
                return model_apply(m, ['append', [x, y]])
            return REFUSED
        r = m.copy()
        if x in m.xs:
            r.ys[m.xs.index(x)] = y
            return r
        if m.uniform:
            return REFUSED
        i = sum(1 for a in m.xs if a < x)
        r.xs.insert(i, x)
        r.ys.insert(i, y)
        return r
    if kind == 'reset':
        if op[1] is None:
            return RefPoints((), m.mode, m.uniform)
        iv = Iv(*op[1])
        keep = [p for p in m.points if not iv.has(p[0])]
        r = RefPoints(keep, m.mode, m.uniform)
        if m.uniform and len(keep) > 1 and not regular_with(r.xs, step):
            return REFUSED
        return r
    raise AssertionError(op)


def impl_apply(p, op):
    """Perform op on the real curve; True when accepted, False when refused with an exception."""
    kind = op[0]
    try:
        if kind == 'append':
            p.append(tuple(op[1]))
        elif kind == 'append_list':
            p.append_list([tuple(q) for q in op[1]])
        elif kind == 'set':
            p.set([tuple(q) for q in op[1]])
        elif kind == 'replace':
            if op[2]:
                p.replace(tuple(op[1]), or_append=True)
            else:
                p.replace(tuple(op[1]))
        elif kind == 'reset':
            if op[1] is None:
                p.reset()
            else:
                p.reset(interval(op[1]))
        else:
            raise AssertionError(op)
    except AssertionError:
        raise
    except Exception:
        return False
    return True


def edit_alphabet(s=1, o=0, rich=True):
    """Edits over positions o + s*k; values are filled in by `stamp`."""
    def X(k):
        return o + s * k
    ops = []
    for k in (0, 1, 2, 3, 4) if rich else (1, 2, 3):
        ops.append(['append', [X(k), 0]])
    ops += [['append', [X(2.5), 0]], ['append', [X(-1), 0]]]
    ops += [
        ['append_list', [[X(1), 0], [X(2), 0]]],
        ['append_list', [[X(2), 0], [X(3), 0]]],
        ['append_list', [[X(3), 0], [X(4.5), 0]]],
        ['append_list', [[X(3), 0], [X(4), 0], [X(5), 0]]],
        ['append_list', []],
        ['set', []],
        ['set', [[X(0), 0]]],
        ['set', [[X(0), 0], [X(1), 0], [X(2), 0]]],
        ['set', [[X(1), 0], [X(2), 0]]],
        ['set', [[X(0), 0], [X(1), 0], [X(3), 0]]],
        ['set', [[X(0), 0], [X(1), 0], [X(1.5), 0], [X(3), 0]]],
    ]
    for k in (0, 1, 2, 3):
        ops.append(['replace', [X(k), 0], False])
    ops += [['replace', [X(0.5), 0], False], ['replace', [X(1.25), 0], False],
            ['replace', [X(3), 0], True], ['replace', [X(-1), 0], True], ['replace', [X(2.5), 0], True]]
    for iv in ([X(1), X(1), 0, 0], [X(0), X(1), 0, 0], [X(0), X(1), 1, 1], [X(1), X(3), 0, 1],
               [X(1), X(3), 1, 0], [X(-5), X(0), 0, 0], [X(2), X(9), 0, 0], [X(1.25), X(1.75), 0, 0],
               [X(7), X(9), 0, 0], [X(-9), X(9), 0, 0], [X(0.5), X(2.5), 0, 0]):
        ops.append(['reset', iv])
    ops.append(['reset', None])
    return ops


def stamp(op, n):
    """Give the edit distinct values (depending on its place n in the history)."""
    v = [7 * n + 3, -5 * n + 1, 2 * n - 9, 11 * n]
    kind = op[0]
    if kind == 'append':
        return ['append', [op[1][0], v[0]]]
    if kind in ('append_list', 'set'):
        return [kind, [[p[0], v[i % 4] + i] for i, p in enumerate(op[1])]]
    if kind == 'replace':
        return ['replace', [op[1][0], v[1]], op[2]]
    return op
