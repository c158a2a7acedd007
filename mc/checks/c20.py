"""C20 - trend lines: every line found is a trend of the curve, lookups, points of interest, predictions, edits, symmetries."""
import copy
import itertools
import json
from curvepy import Points
from curvepy.trend import Trend, TrendLine

PROPERTY = 'C20'
BOUNDS = {
    'quick': 'every curve of 3 to 6 points over 3 values (and of 4 points with missing ones) under 9 settings, plain and with uneven '
             'positions; every continuation by 4 points over 5 heights of a line touched three times, rising or flat, from above or below; '
             'every edit history of two steps out of 9 of curves of 4 points; mirror, shift and scale of every curve of up to 5 points; '
             '240 curves which keep touching a line; a copy of every line which is found, changed',
    'thorough': 'curves of up to 8 points, continuations by 6 points, edit histories of three steps, symmetries of 6 points',
}
ASSUMPTIONS = [
    'which further lines are found is heuristic: only lines which the curve keeps touching without passing it must be found',
    'values are read after the end of the data',
]
GOLD = 1.618033988749894848
UNEVEN = [0, 1, 2.5, 3, 5, 6, 6.5, 8, 9]
CONFIGS = {
    'plain': {'min_width': 2},
    'wide': {'min_width': 4},
    'two': {'min_width': 2, 'min_points': 2},
    'four': {'min_width': 3, 'min_points': 4},
    'spaced': {'min_width': 2, 'min_point_distance': 2},
    'short': {'min_width': 2, 'search_length_rel': 1.5},
    'absolute': {'min_width': 2, 'y_tol_abs': 0.1},
    'both': {'min_width': 2, 'y_tol_abs': 0.5, 'y_tol_rel': 0.05},
    'both narrow': {'min_width': 2, 'y_tol_abs': 0.5, 'y_tol_rel': 0.01},
}
VALUES = {'both': [100, 100.3, 103], 'both narrow': [1, 1.3, 2]}
HEIGHTS = [-1, 0, 1, 2.5, 4]
EDITS = ['append', 'append two', 'append again', 'replace first', 'replace middle', 'replace last', 'set', 'set part', 'reset tail']
FAR = 10 ** 6


def items(tier):
    quick = tier == 'quick'
    out = []
    for cfg in CONFIGS:
        for n in range(3, 7 if quick else 9):
            for head in itertools.product(VALUES.get(cfg, [1, 2, 3]), repeat=max(0, n - 5)):
                out.append(['curves', cfg, n, list(head)])
        out.append(['missing', cfg, 4 if quick else 5, []])
    for rising in (0, 0.5):
        for upper in (True, False):
            for first in HEIGHTS:
                out.append(['break', rising, upper, [first], 4 if quick else 6])
    for first in EDITS:
        for second in ([None] if quick else EDITS):
            out.append(['edits', first, second])
    for n in range(3, 6 if quick else 7):
        for first in (1, 2, 3):
            out.append(['symmetry', n, [first]])
    for pre in ([], [1], [2]):
        for upper in (True, False):
            out.append(['touching', pre, upper])
    return out


def run_item(item, rec):
    kind = item[0]
    if kind == 'curves' or kind == 'missing':
        _, cfg, n, head = item
        for tail in itertools.product(VALUES.get(cfg, [1, 2, 3]) if kind == 'curves' else [1, 2, None], repeat=n - len(head)):
            for uneven in (False, True):
                rec.run({'kind': 'curve', 'config': cfg, 'ys': head + list(tail), 'uneven': uneven})
    elif kind == 'break':
        _, rising, upper, head, n = item
        for tail in itertools.product(HEIGHTS, repeat=n - len(head)):
            rec.run({'kind': 'break', 'rising': rising, 'upper': upper, 'after': head + list(tail)})
    elif kind == 'edits':
        _, first, second = item
        for ys in itertools.product([1, 2, 3], repeat=4):
            for last in EDITS:
                rec.run({'kind': 'edits', 'ys': list(ys), 'edits': [e for e in (first, second, last) if e]})
    elif kind == 'symmetry':
        for tail in itertools.product([1, 2, 3], repeat=item[1] - len(item[2])):
            rec.run({'kind': 'symmetry', 'ys': item[2] + list(tail)})
    else:
        _, pre, upper = item
        gaps = [[], [1], [2], [3]] + ([[1, 1]] if not pre else [])
        for gs in itertools.product(gaps, repeat=2):
            for rising in (0, 0.5, -0.5, 2):
                for after in ([], [1], [3]):
                    rec.run({'kind': 'touching', 'upper': upper, 'rising': rising, 'after': after,
                             'below': list(pre) + [0] + gs[0] + [0] + gs[1] + [0]})


def check_case(case, rec):
    rec.state(json.dumps(case))
    {'curve': curve_case, 'break': break_case, 'edits': edits_case, 'symmetry': symmetry_case,
     'touching': touching_case}[case['kind']](case, rec)


def tup(ps):
    return [tuple(p) for p in ps]


def fit(ps):
    """Least squares through the points: (y at the first, slope)."""
    n = len(ps)
    mx = sum(p[0] for p in ps) / n
    my = sum(p[1] for p in ps) / n
    m = sum((p[0] - mx) * (p[1] - my) for p in ps) / sum((p[0] - mx) ** 2 for p in ps)
    return my + m * (ps[0][0] - mx), m


def found(ps, cfg, read=FAR):
    t = Trend(Points(ps, uniform=False), **cfg)
    t(read)
    return t


def line_of(l):
    (x0, y0), (x1, y1) = l
    m = (y1 - y0) / (x1 - x0)
    return x0, x1, lambda x: y0 + m * (x - x0), m


def tolerance(y, cfg):
    """The narrower of both; 1 % unless one is given."""
    given = [cfg['y_tol_abs']] if 'y_tol_abs' in cfg else []
    if 'y_tol_rel' in cfg or not given:
        given.append(cfg.get('y_tol_rel', 0.01) * abs(y))
    return min(given)


def band(l, cfg):
    """The tolerance around a line: between the tolerances of its two ends."""
    x0, x1, f, _ = line_of(l)

    def ends(s):
        out = []
        for x in (x0, x1):
            y = f(x)
            out.append(y + s * tolerance(y, cfg))
        m = (out[1] - out[0]) / (x1 - x0)
        return lambda x: out[0] + m * (x - x0)
    return ends(-1), ends(1)


def curve_case(case, rec):
    cfg = CONFIGS[case['config']]
    xs = UNEVEN if case['uneven'] else list(range(len(case['ys'])))
    ps = list(zip(xs, case['ys']))
    what = f'trend of {ps} ({case["config"]})'
    t = found(ps, cfg)
    rec.eq(tup(t.points), [p for p in ps if p[1] is not None], f'{what}: points seen')
    lines = t.lines
    for l in lines:
        sound(rec, l, [p for p in ps if p[1] is not None], cfg, what)
    lookups(rec, t, lines, xs, cfg, what)
    # reading before the start begins the scan anew
    before = signature(t)
    rec.eq([t.upper(xs[0] - 1), t.lower(xs[0] - 1)], [[], []], f'{what}: lines before the start')
    t(FAR)
    rec.eq(signature(t), before, f'{what}: after reading before the start')
    rec.outcome(f'{len(lines)} lines')


def sound(rec, l, ps, cfg, what):
    min_points = cfg.get('min_points', 3)
    tp = tup(l.trend_points)
    what = f'{what}: {"upper" if l.is_upper_trend else "lower"} line through {tp}'
    rec.true(all(p in ps for p in tp), f'{what} is made of points of the curve')
    rec.true(all(a[0] < b[0] for a, b in zip(tp, tp[1:])), f'{what} has them in ascending order')
    rec.true(len(tp) >= min_points, f'{what} has at least {min_points} points')
    rec.true(tp[-1][0] - tp[0][0] >= cfg['min_width'], f'{what} is at least {cfg["min_width"]} wide')
    rec.eq(l.width, tp[-1][0] - tp[0][0], f'{what} width')
    apart = 1 + sum(b[0] - a[0] >= cfg.get('min_point_distance', 0) for a, b in zip(tp, tp[1:]))
    rec.true(apart >= min_points, f'{what} has {min_points} points far enough from the previous one')
    y0, m = fit(tp)
    ends = [(tp[0][0], y0), (tp[-1][0], y0 + m * (tp[-1][0] - tp[0][0]))]
    rec.eq(tup(l), ends, f'{what} is the best fit', rel=0, abs_=1e-6)
    rec.eq([len(l), l.is_valid, l.is_ready, l.is_empty, l.is_lower_trend], [2, True, True, False, not l.is_upper_trend], f'{what} state')
    x0, x1, f, m = line_of(list(l))
    low, high = band(list(l), cfg)
    for p in tp:
        # a point which was within the tolerance pulls the line towards itself
        rec.true(2 * low(p[0]) - f(p[0]) - 1e-6 <= p[1] <= 2 * high(p[0]) - f(p[0]) + 1e-6, f'{what} fits {p}')
    end = x0 + (x1 - x0) * cfg.get('search_length_rel', 10)
    s = l.search_interval
    rec.eq([s.start, s.end, s.start_open, s.end_open], [x0, end, False, True], f'{what} search interval', rel=0, abs_=1e-6)
    for x in (x0, x1, (x0 + x1) / 2, x1 + 3, x0 - 1.5):
        y = f(x)
        rec.eq(l.y(x), y, f'{what} at {x}', rel=0, abs_=1e-6)
        if abs(m) > 1e-3:
            rec.eq(l.x(y), x, f'{what} reaches {y}', rel=0, abs_=1e-6)
    inter = tup(l.intersections)
    for a, b in zip(inter, inter[1:]):
        rec.true(a[0] < b[0], f'{what} intersections {inter} ascend')
    for p in inter:
        rec.true(abs(p[1] - f(p[0])) < 1e-6 or before_start(p, ps, x0), f'{what} intersection {p} is on the line')
        rec.true(any((q[1] - f(q[0])) * (r[1] - f(r[0])) < 0 and q[0] - 1e-6 <= p[0] <= r[0] + 1e-6 for q, r in itertools.combinations(ps, 2)),
                 f'{what} the curve passes from one side to the other about {p}')
        rec.true(x0 - 1e-6 <= p[0] < end + 1e-6 or before_start(p, ps, x0), f'{what} intersection {p} is in the search interval')
    tangents = tup(l.tangent_points)
    touched(rec, tangents, [p for p in ps if x0 <= p[0] < end], low, high, f, what)
    ex = tup(l.extremas)
    for p in ex:
        rec.true(p in ps and not low(p[0]) + 1e-6 <= p[1] <= high(p[0]) - 1e-6, f'{what} extremum {p} is a point of the curve off the line')
    rec.true(all(a[0] < b[0] for a, b in zip(ex, ex[1:])), f'{what} extremas {ex} ascend')
    extended(rec, l, inter, x0, x1, f, what)
    predicted(rec, l, inter, tangents, x0, f, cfg, what)
    copied(rec, l, ps, x0, x1, f, what)
    rec.step(6)


STATE = ['is_upper_trend', 'is_lower_trend', 'is_valid', 'is_ready', 'is_empty', 'width', 'min_width', 'min_points', 'trend_points', 'intersections',
         'tangent_points', 'extremas', 'prediction_phase', 'prediction_failed', 'prediction_succeeded', 'prediction_origin',
         'prediction_intersection', 'prediction_extrema', 'prediction_y', 'prediction_y_min', 'prediction_y_max', 'prediction_x_min',
         'prediction_x_max', 'prediction_retest_point', 'prediction_retest_x_max', 'prediction_success_point', 'prediction_valid']


def copied(rec, l, ps, x0, x1, f, what):
    """A copy of a line is the same line, and changing it leaves the line as it was."""
    def state(line):
        return [copy.deepcopy(getattr(line, k)) for k in STATE] + [
            tup(line), len(line), str(line.search_interval), tup(line.line_extended(width_mult=2)), line.y(x1),
            [line.is_point_on_trend(p) for p in ps]]
    was = state(l)
    for c in (l.copy(), copy.copy(l)):
        rec.eq(state(c), was, f'{what}: state of a copy', rel=0, abs_=1e-9)
        x = x1 + (x1 - x0) / 8
        c.did_append_point((x, f(x)), ps + [(x, f(x))])
        c.did_append_point((x + 1, f(x) + 5), ps + [(x, f(x)), (x + 1, f(x) + 5)])
        c.did_append_point((x + 2, f(x) - 5), ps + [(x, f(x)), (x + 1, f(x) + 5), (x + 2, f(x) - 5)])
        rec.eq(state(l), was, f'{what}: state after its copy was changed', rel=0, abs_=1e-9)


def before_start(p, ps, x0):
    """Passing the line before its first point is reported half way between the two points of the curve."""
    return any(q[0] < x0 and abs((q[0] + r[0]) / 2 - p[0]) < 1e-6 and abs((q[1] + r[1]) / 2 - p[1]) < 1e-6
               for q, r in itertools.combinations(ps, 2))


def touched(rec, tangents, ps, low, high, f, what, every=False):
    """At most one tangent point for every run of successive points on the line: the closest of them."""
    runs = [list(g) for on, g in itertools.groupby(ps, key=lambda p: low(p[0]) - 1e-9 <= p[1] <= high(p[0]) + 1e-9) if on]
    if every:
        rec.eq(len(tangents), len(runs), f'{what} tangent points {tangents}, touched at {runs}: number')
    for run in runs:
        best = min(abs(q[1] - f(q[0])) for q in run)
        mine = [p for p in tangents if p in run]
        rec.true(len(mine) <= 1, f'{what} tangent points {mine} of the touch at {run}')
        for p in mine if every else ():
            rec.true(abs(p[1] - f(p[0])) < best + 1e-9, f'{what} tangent point {p} is the closest of {run}')
    known = sum(runs, [])
    rec.true(all(p in known for p in tangents), f'{what} tangent points {tangents} are points of the curve on the line')


def extended(rec, l, inter, x0, x1, f, what):
    for mult in (None, 1, 2.5):
        for most in (None, 1, 20):
            for i in (None, 0, 1, -1):
                a, at = x1, None
                if i is not None and inter:
                    at = max(0, len(inter) + i) if i < 0 else min(i, len(inter) - 1)
                    a = max(a, inter[at][0])
                if mult is not None:
                    a = x0 + (a - x0) * mult
                if most is not None:
                    a = min(a, x0 + most)
                if at is not None and at + 1 < len(inter):
                    a = min(a, inter[at + 1][0])
                rec.eq(tup(l.line_extended(width_mult=mult, width_max=most, intersection_index=i)), [(x0, f(x0)), (a, f(a))],
                       f'{what} extended ({mult}, {most}, {i})', rel=0, abs_=1e-6)


def predicted(rec, l, inter, tangents, x0, f, cfg, what):
    what = f'{what} prediction'
    min_points = cfg.get('min_points', 3)
    rec.true(not (l.prediction_failed and l.prediction_succeeded), f'{what} does not both fail and succeed')
    rec.eq(l.prediction_succeeded, l.prediction_phase == TrendLine.PREDICTION_PHASE_FULFILLED, f'{what} succeeds when fulfilled')
    rec.eq(l.prediction_success_point is not None, l.prediction_succeeded, f'{what} has a success point when it succeeded')
    if l.prediction_phase == TrendLine.PREDICTION_PHASE_NONE:
        rec.eq([l.prediction_intersection, l.prediction_y, l.prediction_retest_point], [None] * 3, f'{what} not started')
        return
    p = tuple(l.prediction_intersection)
    rec.true(p in inter, f'{what} starts at an intersection')
    rec.true(sum(t[0] <= p[0] + 1e-6 for t in tangents) >= min_points, f'{what} starts after {min_points} touches only ({tangents}, {p})')
    rec.eq(l.prediction_origin, (x0, f(x0)), f'{what} origin')
    rec.eq(l.prediction_retest_x_max, p[0] + (p[0] - x0) / GOLD, f'{what} latest retest', rel=0, abs_=1e-6)
    side = 1 if l.is_upper_trend else -1
    if l.prediction_extrema is None:
        rec.eq([l.prediction_y, l.prediction_line], [None, None], f'{what} has no target')
    else:
        e = l.prediction_extrema
        rec.true((e[1] - f(e[0])) * side > 0 and e[0] > p[0], f'{what} extremum {e} is beyond the line, after the intersection')
        y = p[1] + (e[1] - p[1]) * GOLD ** 2
        far = e[0] + (e[0] - x0) * GOLD
        tol = tolerance(y, cfg)
        rec.eq([l.prediction_y, l.prediction_y_min, l.prediction_y_max], [y, y - tol, y + tol], f'{what} target', rel=0, abs_=1e-5)
        rec.eq([l.prediction_x_min, l.prediction_x_max], [e[0], far], f'{what} time span', rel=0, abs_=1e-5)
        rec.eq(tup(l.prediction_line), [(e[0], y), (far, y)], f'{what} line', rel=0, abs_=1e-5)
        rec.eq(tup(l.prediction_trend_line), [(x0, f(x0)), (far, f(far))], f'{what} trend line', rel=0, abs_=1e-5)
        rec.eq(tup(l.prediction_confirmation_line), [(x0, f(x0)), tuple(e)], f'{what} confirmation line', rel=0, abs_=1e-5)
        if l.prediction_succeeded:
            q = l.prediction_success_point
            rec.true((q[1] - y) * side >= -tol - 1e-6, f'{what} success at {q} reaches {y}')
    if l.prediction_retest_point is not None:
        r = tuple(l.prediction_retest_point)
        rec.true(r in tangents and p[0] < r[0] <= l.prediction_retest_x_max + 1e-6, f'{what} retest {r} touches the line in time')
    rec.eq(l.prediction_retest_point is not None, l.prediction_phase >= TrendLine.PREDICTION_PHASE_RETESTED, f'{what} retested')


def lookups(rec, t, lines, xs, cfg, what):
    for x in [None] + xs + [(xs[0] + xs[1]) / 2, xs[-1] + 0.5, xs[-1] + 7, xs[-1] + 30, 90]:
        want = [[id(l) for l in lines if l.is_upper_trend == up and (x is None or inside(l, x, cfg))] for up in (True, False)]
        rec.eq([sorted(id(l) for l in f(x)) for f in (t.upper, t.lower)], [sorted(w) for w in want], f'{what}: upper and lower lines at {x}')
        if x is not None:
            rec.eq([id(l) for l in t.y(x)], want[1] + want[0], f'{what}: lines at {x}')
    rec.step(2 * len(xs))


def inside(l, x, cfg):
    x0, x1 = l.trend_points[0][0], l.trend_points[-1][0]
    return x0 <= x < x0 + (x1 - x0) * cfg.get('search_length_rel', 10)


# ------------------------------------------------------------------ what happens to a line after it was found


def break_case(case, rec):
    """A line touched three times and then left: its points of interest and its prediction."""
    s = 1 if case['upper'] else -1
    m = case['rising']
    off = [0, -1, 0, -1, 0] + case['after']
    ps = [(x, 20 + m * x + s * v) for x, v in enumerate(off)]
    what = f'trend of {ps}'
    cfg = CONFIGS['plain']
    t = found(ps, cfg)
    mine = [l for l in t.lines if l.is_upper_trend == case['upper'] and abs(line_of(list(l))[3] - m) < 1e-6 and abs(l.y(0) - 20) < 1e-6]
    rec.eq(len(mine), 1, f'{what}: lines touching at 0, 2 and 4')
    for l in t.lines:
        sound(rec, l, ps, cfg, what)
    if not mine:
        return
    l = mine[0]
    what = f'{what}: {"upper" if s > 0 else "lower"} line'
    on = [i for i, v in enumerate(off) if v == 0]
    rec.eq(tup(l.trend_points), [ps[i] for i in on], f'{what} trend points')
    must = [(i + off[i] / (off[i] - off[i + 1])) for i in range(len(off) - 1) if off[i] * off[i + 1] < 0]
    may = []
    for i, v in enumerate(off):
        # passing through the line at a point of the curve
        before = [off[k] for k in range(i) if off[k]]
        if v and before and before[-1] * v < 0 and off[i - 1] == 0:
            may.append(i)
    inter = tup(l.intersections)
    for x in must:
        rec.true(any(abs(p[0] - x) < 1e-6 for p in inter), f'{what} intersection at {x} is among {inter}')
    rest = [p for p in inter if all(abs(p[0] - x) > 1e-6 for x in must)]
    for p in rest:
        rec.true(any(i - 4 <= p[0] <= i for i in may), f'{what} intersection {p} is where the curve passes the line')
    rec.true(len(rest) <= len(may), f'{what} intersections {inter}: {len(must)} and at most {len(may)} more')
    tangents = tup(l.tangent_points)
    low, high = band(list(l), cfg)
    touched(rec, tangents, ps, low, high, lambda x: 20 + m * x, what, every=True)
    want = []
    for k, g in itertools.groupby(enumerate(off), key=lambda e: (e[1] > 0) - (e[1] < 0)):
        if k:
            want.append(extremum([ps[i] for i, _ in g], s * k))
    rec.eq(tup(l.extremas), want, f'{what} extremas')
    if any(abs(p[0] - q[0]) < 1e-6 for p in inter for q in ps):
        # passed right at a point which touches the line: which of the two came first is a matter of rounding
        rec.outcome('passed at a point')
        return
    phase, failed, succeeded, at = machine(inter, tangents, want, ps, s, 20, m)
    rec.eq([l.prediction_phase, l.prediction_failed, l.prediction_succeeded], [phase, failed, succeeded], f'{what} prediction phase, failed, succeeded')
    if at is not None:
        rec.eq(list(l.prediction_extrema), list(at), f'{what} prediction extremum')
    rec.outcome(f'{phase} {failed} {succeeded}')
    rec.step(8)


def extremum(ps, side):
    best = ps[0]
    for p in ps:
        if (p[1] - best[1]) * side >= 0:
            best = p
    return best


def machine(inter, tangents, extremas, ps, s, c, m):
    """Intersected, retested, confirmed, fulfilled."""
    def f(x):
        return c + m * x

    def near(y, sign):
        return y + sign * 0.01 * abs(y)
    events = sorted([(p[0], 'x', p) for p in inter] + [(p[0], 't', p) for p in tangents]
                    + [(p[0], 'e', p) for p in extremas if (p[1] - f(p[0])) * s > 0], key=lambda e: e[0])
    phase, touched, start, seen, target, far, ext = 0, 0, None, None, None, None, None
    for x, kind, p in events:
        if phase == 0:
            if kind == 't':
                touched += 1
            if kind == 'x':
                if touched < 3:
                    return 0, True, False, None
                phase, start = 1, p
                latest = p[0] + p[0] / GOLD
            continue
        if kind == 'x':
            return phase, True, False, ext
        if kind == 'e':
            seen = p
        if kind == 't' and x > latest:
            return phase, True, False, ext
        if kind == 't' and seen is None:
            return phase, True, False, ext
        if kind == 't' or phase == 1:
            ext = seen
            target = start[1] + (ext[1] - start[1]) * GOLD ** 2
            far = ext[0] + ext[0] * GOLD
        if kind == 't':
            phase = 2
            continue
        if phase == 2:
            confirm = c + (ext[1] - c) * x / ext[0]
            if (p[1] - near(confirm, s)) * s >= 0:
                phase = 3
        if phase == 3:
            if (p[1] - near(target, -s)) * s >= 0:
                return 4, False, True, ext
            if x >= far:
                return 3, True, False, ext
    end = ps[-1][0]
    return phase, phase >= 2 and end >= far or phase == 1 and end >= latest, False, ext


# ------------------------------------------------------------------ edits


def edit(c, name, n):
    """Applies the edit to a curve of points; all of them keep positions 0, 1, 2, ..."""
    xs = [p[0] for p in tup(c.sample_points())]
    end = xs[-1] if xs else -1
    if name == 'append':
        c.append((end + 1, 2))
    elif name == 'append two':
        c.append_list([(end + 1, 1), (end + 2, 2)])
    elif name == 'append again':
        c.append((end + 1, 1 if n % 2 else 3))
    elif name == 'replace first':
        c.replace((xs[0], 1 if tup(c.sample_points())[0][1] != 1 else 3))
    elif name == 'replace middle':
        k = len(xs) // 2
        c.replace((xs[k], 2 if tup(c.sample_points())[k][1] != 2 else 1))
    elif name == 'replace last':
        c.replace((end, 2 if tup(c.sample_points())[-1][1] != 2 else 3))
    elif name == 'set':
        c.set([(x, 2) for x in range(4)] + [(4, 1)])
    elif name == 'set part':
        k = len(xs) // 2
        c.set([(x, 1) for x in xs[:k]] + [(x, 2) for x in xs[k:]])
    else:
        from intervalpy import Interval
        c.reset(Interval.gte(xs[-2]))


def signature(t):
    return [[l.is_upper_trend, tup(l.trend_points), tup(l), tup(l.intersections), tup(l.tangent_points), tup(l.extremas),
             [l.search_interval.start, l.search_interval.end], l.prediction_phase, l.prediction_failed, l.prediction_succeeded]
            for l in t.lines]


def edits_case(case, rec):
    ps = [(x, y) for x, y in enumerate(case['ys'])]
    what = f'trend of {ps} after {case["edits"]}'
    for cfg in ('plain', 'two'):
        c = Points(ps, uniform=False)
        t = Trend(c, **CONFIGS[cfg])
        t(FAR)
        for n, e in enumerate(case['edits']):
            if len(tup(c.sample_points())) < 3 and e not in ('set', 'append', 'append two', 'append again'):
                break
            edit(c, e, n)
            t(FAR)
        now = tup(c.sample_points())
        fresh = found(now, CONFIGS[cfg])
        rec.eq(tup(t.points), now, f'{what}: points seen ({cfg})')
        rec.eq(signature(t), signature(fresh), f'{what}: lines ({cfg})', rel=0, abs_=1e-6)
        rec.step(3)
    rec.outcome(f'{len(t.lines)} lines')


# ------------------------------------------------------------------ symmetries


def seen_from(t, fx=lambda x: x, fy=lambda y: y, flip=False):
    """The lines of a trend with its positions and values mapped back; touches by number, since equally close ones are interchangeable."""
    def pts(ps):
        return [[fx(float(p[0])), fy(float(p[1]))] for p in ps]
    return sorted([[bool(l.is_upper_trend) != flip, pts(l.trend_points), pts(l), pts(l.intersections), len(l.tangent_points),
                    pts(l.extremas), l.prediction_phase, l.prediction_failed, l.prediction_succeeded] for l in t.lines],
                  key=lambda s: (s[0], [[round(v, 6) for v in p] for p in s[1]]))


def symmetry_case(case, rec):
    ps = [(x, y) for x, y in enumerate(case['ys'])]
    absolute = CONFIGS['absolute']
    for name in ('plain', 'two', 'absolute', 'spaced'):
        cfg = CONFIGS[name]
        want = seen_from(found(ps, cfg))
        what = f'trend of {ps} ({name})'
        got = seen_from(found([(x, -y) for x, y in ps], cfg), fy=lambda y: -y, flip=True)
        rec.eq(got, want, f'{what}: mirrored', rel=0, abs_=1e-6)
        got = seen_from(found([(4 * x, y) for x, y in ps], scaled(cfg, 4)), fx=lambda x: x / 4)
        rec.eq(got, want, f'{what}: stretched', rel=0, abs_=1e-6)
        if name == 'absolute':
            got = seen_from(found([(x, y - 8) for x, y in ps], absolute), fy=lambda y: y + 8)
            rec.eq(got, want, f'{what}: lowered', rel=0, abs_=1e-6)
        else:
            got = seen_from(found([(x, 4 * y) for x, y in ps], cfg), fy=lambda y: y / 4)
            rec.eq(got, want, f'{what}: scaled', rel=0, abs_=1e-6)
        rec.step(4)
    rec.outcome(f'{len(want)} lines')


def scaled(cfg, k):
    return {key: v * k if key in ('min_width', 'min_point_distance') else v for key, v in cfg.items()}


def touching_case(case, rec):
    """A line which the curve keeps touching without passing it is found."""
    s = 1 if case['upper'] else -1
    m = case['rising']
    ps = [(x, 30 + m * x - s * v) for x, v in enumerate(case['below'] + case['after'])]
    rec.step()
    on = [p for p, v in zip(ps, case['below']) if v == 0]
    ok = False
    for l in found(ps, CONFIGS['plain']).lines:
        ok = ok or (l.is_upper_trend == case['upper'] and abs(line_of(list(l))[3] - m) < 1e-6 and abs(l.y(0) - 30) < 1e-6
                    and tup(l.trend_points) == on)
    rec.true(ok, f'trend of {ps}: {"upper" if s > 0 else "lower"} line touched at {[p[0] for p in on]} is found')
    rec.outcome(f'{len(on)} touches')
