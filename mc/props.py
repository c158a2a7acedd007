"""The properties: source of properties.jsonl and MANIFEST.json (tools/gen.py)."""

TECH_INPUT = 'explicit-state bounded model checking on the real code: exhaustive enumeration of {}, each compared with {}'
TRUST = 'Exhaustive within the bound recorded in the evidence file; trusts the reference model in mc/ (written from the definition, no shared code), CPython and intervalpy.'

PROPS = [
    {
        'id': 'C01',
        'title': 'A point curve reproduces its points and interpolates between neighbours',
        'statement': 'For any strictly ascending list of points (evenly spaced or not, declared uniform or not, with or '
                     'without missing values) a point curve spans exactly its first to its last point, has exactly the '
                     'stored value at every one of its points, and has no value outside. Between two neighbouring points '
                     'it has the earlier value, the later value, or their straight-line mix (no value if either is '
                     'missing), according to the chosen interpolation. The first/last point and the listing of all points '
                     'agree with what was stored.',
        'over': ['inputs', 'configurations'],
        'forall': 'every ascending list of points, every spacing and scale, every value pattern including missing values, '
                  'all three interpolations, uniform flag on or off, every query position and query order',
        'why': 'The tests use a few short lists on integer grids; the fast index used for evenly spaced points and the '
               'bisection used otherwise must agree for every spacing, scale and length.',
        'files': ['curvepy/points.py', 'curvepy/curve.py'],
        'mechanism': [('Points.y / x_index / _bisect_points', 'curvepy/points.py'),
                      ('Points._points_equally_spaced', 'curvepy/points.py'),
                      ('Points.get_domain, y_start, y_end', 'curvepy/points.py')],
        'state': [('point list', 'the stored points', 'curvepy/points.py'),
                  ('spacing', 'average spacing used as index step when evenly spaced', 'curvepy/points.py')],
        'observe': ['Points.y', 'Points.domain', 'Points.first_point', 'Points.last_point', 'Points.sample_points'],
        'technique': TECH_INPUT.format('all point lists, spacings, scales and interpolations within a bound',
                                       'an ordered-list reference model'),
        'note': TRUST,
    },
    {
        'id': 'C02',
        'title': 'A point curve is an ordered map under every history of edits',
        'statement': 'After any history of append, append_list, set, replace and reset calls, a point curve is exactly what '
                     'an ordered map given the same edits would be: points, domain, first/last value and every value '
                     'between points. An append must lie after the last point, a replace within the curve (where it '
                     'replaces or inserts; with or_append also past the end), and an evenly spaced curve accepts no point off its '
                     'spacing; every other edit is refused with an exception. Reset drops exactly the points inside the given domain. The '
                     'lists handed in and out stay the caller\'s own, and reads between edits change nothing.',
        'over': ['histories', 'inputs', 'configurations'],
        'forall': 'every sequence of edits (accepted or refused), every spacing, interpolation and uniform flag, every '
                  'placement of reads',
        'why': 'Tests apply one or two edits to one curve; index, spacing and domain are cached incrementally, so a stale '
               'cache only shows after a particular sequence of edits.',
        'files': ['curvepy/points.py', 'curvepy/curve.py'],
        'mechanism': [('Points.append, append_list, replace, set, reset', 'curvepy/points.py'),
                      ('Points._replace_points and the cached spacing/domain', 'curvepy/points.py')],
        'state': [('point list', 'stored points in ascending order', 'curvepy/points.py'),
                  ('spacing and domain caches', 'must follow the point list', 'curvepy/points.py')],
        'observe': ['Points.sample_points', 'Points.domain', 'Points.y', 'Points.y_start', 'Points.y_end'],
        'technique': 'explicit-state bounded model checking: every edit history up to a depth over a 39-edit alphabet, run on '
                     'the real Points in lockstep with an ordered-map model',
        'note': TRUST,
    },
    {
        'id': 'C03',
        'title': 'A refused edit leaves no trace',
        'statement': 'When an edit of a point curve, of quotes or of a parameterised curve (line, sine) is refused with an '
                     'exception, the curve and every curve derived from it keep all their values, points and domains, and '
                     'no curve is left in the middle of an update. Every later edit behaves, is announced and changes derived '
                     'curves exactly as if the refused edit had never been tried.',
        'over': ['histories', 'faults', 'inputs'],
        'forall': 'every refused or malformed edit, after every history, under every derived curve, followed by every later '
                  'edit',
        'why': 'Tests check that some edits raise, not what is left behind (an open update, half of a list, a cached domain) '
               'and what the next edit then does.',
        'files': ['curvepy/points.py', 'curvepy/quotes.py', 'curvepy/curve.py', 'curvepy/line.py', 'curvepy/sin.py'],
        'mechanism': [('validation before begin_update in Points edits', 'curvepy/points.py'),
                      ('Quotes.append / append_list with an encoder', 'curvepy/quotes.py'),
                      ('Line.set, Sin.set', 'curvepy/line.py, curvepy/sin.py')],
        'state': [('update depth', 'begin/end nesting of a curve', 'curvepy/curve.py')],
        'observe': ['Curve.y', 'Curve.domain', 'Curve.is_updating', 'Curve.add_observer callbacks', 'Quotes.quotes_up_to_date'],
        'technique': 'explicit-state bounded model checking with fault injection: every refused edit at every point of a '
                     'history, compared with a twin which never saw it',
        'note': TRUST,
    },
    {
        'id': 'C04',
        'title': 'Next and previous points are the nearest neighbours',
        'statement': 'For every position, x_next returns the nearest point of a point curve at least the minimum step to the '
                     'right (with a limit: the point or the limit, whichever comes first) and x_previous the mirror image, or None when there is none. '
                     'Curves built from a point curve (arithmetic, maps, averages, integrals, offsets, extensions) step through '
                     'exactly its points (shifted for an offset), combinations of two curves through the points of both, '
                     'and pieces through the points of the piece in charge. A walk with x_next visits every point once, in order.',
        'over': ['inputs', 'configurations'],
        'forall': 'every set of points, spacing, uniform flag, minimum step, limit and query position at, between and around '
                  'points',
        'why': 'Every scan, sample and average relies on this walk; rounding of the index arithmetic and skipped points only '
               'show for particular spacings and query positions.',
        'files': ['curvepy/points.py', 'curvepy/curve.py', 'curvepy/aggregate.py', 'curvepy/offset.py', 'curvepy/piecewise.py',
                  'curvepy/map.py', 'curvepy/extension/extension.py'],
        'mechanism': [('Points.x_next, x_previous, x_index', 'curvepy/points.py'),
                      ('Aggregate.x_next, x_previous', 'curvepy/aggregate.py'),
                      ('Offset.x_next, x_previous', 'curvepy/offset.py'),
                      ('Piecewise.x_next, x_previous', 'curvepy/piecewise.py')],
        'observe': ['Curve.x_next', 'Curve.x_previous'],
        'technique': TECH_INPUT.format('all point sets, spacings, minimum steps and query positions', 'a linear search'),
        'note': TRUST,
    },
    {
        'id': 'C05',
        'title': 'Samples of a curve cover the domain: ascending, complete and exact',
        'statement': 'Sampling a curve over any domain returns ascending positions inside both domains (open ends excluded), '
                     'each with the value of the curve there. Without a step a point curve yields exactly its points in the '
                     'domain, and a derived curve these points and the closed ends; with a step or minimum step exactly every '
                     'step from the start (or the points at least that far apart) and the ends. Sampling a number of points from a '
                     'position walks forwards or backwards to the next points until a value is missing, and get_range is '
                     'the smallest and largest sample, missing values left out.',
        'over': ['inputs', 'configurations'],
        'forall': 'every point set and spacing, every domain with open or closed ends inside, across and outside of the curve, '
                  'every step and minimum step, both walking directions',
        'why': 'Ends, open ends and steps that do not divide the domain combine in many ways; tests sample a few domains.',
        'files': ['curvepy/curve.py', 'curvepy/points.py'],
        'mechanism': [('Curve.sample_points, sample_points_from_x, get_range', 'curvepy/curve.py'),
                      ('Points.sample_points', 'curvepy/points.py')],
        'observe': ['Curve.sample_points', 'Curve.sample_points_from_x', 'Curve.get_range'],
        'technique': TECH_INPUT.format('all point sets x domains x steps x directions', 'a reference sampler'),
        'note': TRUST,
    },
    {
        'id': 'C06',
        'title': 'Arithmetic on curves is arithmetic on their values',
        'statement': 'For any expression over curves and numbers (+ - * / **, unary minus, abs, inverse, log, min, max, first, '
                     'map) the value at x is the expression over the values at x, in whichever way it is written (operator with operands in either '
                     'order, method, list form). The domain is the intersection of the operand domains with their open ends '
                     '(for first and for min/max ignoring missing values: their union); outside, and where an operand of arithmetic is '
                     'missing, there is no value, and first/min/max ignoring missing values use the remaining ones.',
        'over': ['inputs'],
        'forall': 'every expression, every mix of operands (points, lines, constants, functions, numbers, curves with gaps, '
                  'empty curves, open domains) and every position',
        'why': 'Tests check single operators on lines; operand order, missing values, open domains and nesting multiply.',
        'files': ['curvepy/curve.py', 'curvepy/aggregate.py', 'curvepy/map.py', 'curvepy/constant.py', 'curvepy/generic.py'],
        'mechanism': [('Curve operators and *_many, min, max, first, log', 'curvepy/curve.py'),
                      ('Aggregate.y, get_domain', 'curvepy/aggregate.py'), ('Map.y', 'curvepy/map.py')],
        'observe': ['Curve.y', 'Curve.__call__', 'Curve.domain', 'Curve.first_point', 'Curve.last_point'],
        'technique': TECH_INPUT.format('all expressions up to a size over 14 operands', 'an expression evaluator'),
        'note': TRUST + ' Complex powers, min/max over missing values without ignore_empty and division of zero are left open.',
    },
    {
        'id': 'C07',
        'title': 'Derived curves are never stale',
        'statement': 'After any history of edits, with values read before, between or during the edits in any way, every curve '
                     'derived from the edited curve (arithmetic, maps, offsets, differentials, integrals, averages, trailing '
                     'minima and maxima, extensions, pieces, subsets, extremas, and combinations of these) has the same '
                     'domain, values and points as the same curve freshly derived from the edited points.',
        'over': ['histories', 'schedules', 'configurations'],
        'forall': 'every derivation, every edit history, every placement of reads including reads from within update '
                  'callbacks',
        'why': 'Caches are invalidated by region; a missing region or a value cached during an update only shows for one '
               'kind of curve after one kind of edit read at one moment.',
        'files': ['curvepy/curve.py', 'curvepy/scan.py', 'curvepy/accumulator.py', 'curvepy/accumulator_map.py', 'curvepy/sma.py',
                  'curvepy/ema.py', 'curvepy/integral.py', 'curvepy/extremas.py', 'curvepy/extension/extension.py',
                  'curvepy/points.py'],
        'mechanism': [('begin_update / end_update propagation', 'curvepy/curve.py'),
                      ('Scan._update_interval and the scan cache', 'curvepy/scan.py'),
                      ('Extremas invalidation', 'curvepy/extremas.py'),
                      ('Extension.update_extension', 'curvepy/extension/extension.py')],
        'state': [('accumulated points', 'cached values of scanning curves', 'curvepy/scan.py'),
                  ('extension functions', 'fitted at the ends of the extended curve', 'curvepy/extension/extension.py')],
        'observe': ['Curve.y', 'Curve.domain', 'Curve.sample_points'],
        'technique': 'explicit-state bounded model checking: every edit history x read placement under every derived curve, '
                     'each reached state compared with a freshly built curve',
        'note': TRUST + ' The oracle is a fresh build; its correctness is the subject of the other properties.',
    },
    {
        'id': 'C08',
        'title': 'The integral accumulates exactly the area up to each point',
        'statement': 'At every point of a curve its integral is the constant plus the area from the first known value: '
                     'trapezoids, or the earlier or the later value of each step for the other two rules; between points it is '
                     'the straight line joining them. It spans the domain of the curve, does not exist before the first '
                     'known value, a step with a missing value adds nothing, and no value depends on which one is read first.',
        'over': ['inputs', 'schedules', 'configurations'],
        'forall': 'every curve with points (point curves, sums, offsets, maxima), missing values anywhere, every scale, rule, '
                  'constant and reading order',
        'why': 'Values are accumulated lazily in the order they are read; tests read upwards on one curve.',
        'files': ['curvepy/integral.py', 'curvepy/scan.py', 'curvepy/accumulator.py', 'curvepy/line.py'],
        'mechanism': [('Integral.scan / Accumulator.accumulate', 'curvepy/integral.py, curvepy/accumulator.py'),
                      ('Scan.y', 'curvepy/scan.py')],
        'state': [('accumulated points', 'running area at each scanned point', 'curvepy/scan.py')],
        'observe': ['Curve.integral(...).y', 'domain', 'y_end'],
        'technique': TECH_INPUT.format('all bases x rules x first reads', 'a direct sum of areas'),
        'note': TRUST,
    },
    {
        'id': 'C09',
        'title': 'Exponential averages follow their recurrence: EMA, SMMA and RSI',
        'statement': 'At every point an EMA is the previous average plus the weight (or, for a period, the step divided by the '
                     'period) times the difference to the new value, starting from the first known value (or '
                     'the given initial curve at that point); a missing value leaves it unchanged and between points it is '
                     'linear. SMMA(n) is the EMA of weight 1/n started with the SMA(n), and RSI(n) at each point is 100 U / (U + D) of the 1/n '
                     'averages of rises and falls. Values do not depend on the order they are read in.',
        'over': ['inputs', 'schedules', 'configurations'],
        'forall': 'every curve with points, missing values anywhere, every weight, period, initial curve, scale and reading '
                  'order',
        'why': 'The recurrence is evaluated lazily from a cache; tests compare one list read in ascending order.',
        'files': ['curvepy/ema.py', 'curvepy/scan.py', 'curvepy/accumulator.py', 'curvepy/curve.py'],
        'mechanism': [('EMA.accumulate', 'curvepy/ema.py'), ('Curve.smma, Curve.rsi', 'curvepy/curve.py'),
                      ('Scan.y', 'curvepy/scan.py')],
        'state': [('accumulated points', 'running average at each scanned point', 'curvepy/scan.py')],
        'observe': ['Curve.ema(...).y', 'Curve.smma(...).y', 'Curve.rsi(...).y', 'domain', 'sample_points'],
        'technique': TECH_INPUT.format('all bases x weights x initial curves x first reads', 'the recurrence'),
        'note': TRUST + ' RSI is compared where U + D > 0; the first move counts as 0.',
    },
    {
        'id': 'C10',
        'title': 'A simple moving average is the mean over its window',
        'statement': 'At every point from the n-th on, SMA(n) is the area-weighted mean (trapezoids) of the last n points, SMA(1) '
                     'the curve itself; an SMA over a period uses the points less than a period back (widened to whole steps). It starts at the first '
                     'complete window (a period longer than the curve: at its last point), has no values before, '
                     'is linear between points, and does not depend on the order it is read in.',
        'over': ['inputs', 'schedules', 'configurations'],
        'forall': 'every curve with points (evenly spaced or not), degree, period, scale and reading order',
        'why': 'The mean is the difference of two lazily accumulated integrals at positions found by walking the curve.',
        'files': ['curvepy/sma.py', 'curvepy/integral.py', 'curvepy/scan.py'],
        'mechanism': [('SMA.y, _sma_start, _sma_end, get_domain', 'curvepy/sma.py')],
        'state': [('accumulated points', 'running integral', 'curvepy/scan.py')],
        'observe': ['Curve.sma(...).y', 'domain'],
        'technique': TECH_INPUT.format('all bases x windows x first reads', 'direct means'),
        'note': TRUST + ' Curves without missing values; a period over uneven points is compared at the points.',
    },
    {
        'id': 'C11',
        'title': 'Trailing windows contain exactly the last points',
        'statement': 'A trailing minimum, maximum or window function (accumulator_map) at a point is computed from exactly the values '
                     'of the last n points (or of the points at most a period back), newest first, fewer at the start of the '
                     'curve; between points it interpolates as asked. It spans the domain of the curve and does not depend on '
                     'the order it is read in.',
        'over': ['inputs', 'schedules', 'configurations'],
        'forall': 'every curve with points, degree, period, window function, interpolation and reading order',
        'why': 'The window is a queue filled lazily while scanning; a wrong end only shows for particular spacings and orders.',
        'files': ['curvepy/accumulator_map.py', 'curvepy/accumulator.py', 'curvepy/scan.py', 'curvepy/curve.py'],
        'mechanism': [('AccumulatorMap', 'curvepy/accumulator_map.py'), ('Curve.trailing_min/max', 'curvepy/curve.py')],
        'state': [('window', 'last values seen while scanning', 'curvepy/accumulator_map.py')],
        'observe': ['Curve.trailing_min(...).y', 'Curve.trailing_max(...).y', 'Curve.accumulator_map(...).y', 'sample_points'],
        'technique': TECH_INPUT.format('all bases x windows x functions x first reads', 'explicit windows'),
        'note': TRUST + ' Curves without missing values; periods over composed curves are left open.',
    },
    {
        'id': 'C12',
        'title': 'Every update is announced before and after, over all that changes',
        'statement': 'Every accepted edit that changes a value calls each observer of the edited curve and of every curve derived from it: '
                     'begin while all old values can still be read, then end when all new values can (exactly one of each '
                     'when there is a single path to the edited curve). The announced region contains every position whose value '
                     'changed; an observer with a domain of interest is called when the region meets it and not when the two '
                     'are apart. An observer of the edited curve, added before or after, finds every derived curve with its old values and '
                     'domain at begin and with its new ones at end. A curve is updating at begin and no longer once the edit '
                     'has returned. An edit made by an observer at the end of another edit is announced and takes effect like any other.',
        'over': ['histories', 'schedules', 'configurations'],
        'forall': 'every derivation, edit and history, observers with and without domains, arguments and reads in callbacks',
        'why': 'Tests count callbacks of a few edits on a few curves; a region too small or a notification out of order only '
               'matters to a cache further down.',
        'files': ['curvepy/curve.py', 'curvepy/points.py', 'curvepy/scan.py', 'curvepy/aggregate.py', 'curvepy/offset.py',
                  'curvepy/map.py', 'curvepy/extension/extension.py', 'curvepy/extremas.py'],
        'mechanism': [('Curve.begin_update / end_update / add_observer', 'curvepy/curve.py'),
                      ('update intervals of derived curves', 'curvepy/curve.py, curvepy/scan.py, curvepy/offset.py'),
                      ('Points edits', 'curvepy/points.py')],
        'state': [('update intervals', 'open updates of a curve', 'curvepy/curve.py')],
        'observe': ['Curve.add_observer callbacks', 'Curve.is_updating', 'Curve.y inside callbacks'],
        'technique': 'explicit-state bounded model checking with monitors: every history under every derived curve, each '
                     'notification checked against the values before and after',
        'note': TRUST + ' Interests which only touch an open end of the region are left open.',
    },
    {
        'id': 'C13',
        'title': 'Observers are called while registered: each once, in order, never after removal',
        'statement': 'After any sequence of registrations and removals, an edit calls exactly the registered observers whose '
                     'domain of interest meets the update, each once for begin and once for end, prioritised observers '
                     'first and the others in order of registration. Tokens are unique; removing an unknown or already removed token changes '
                     'nothing; an autoremove observer disappears with its object; an observer removed during a '
                     'notification (even by another observer) is not called afterwards, and all others still are.',
        'over': ['histories', 'schedules'],
        'forall': 'every sequence of registry operations with edits in between, and every removal from within a callback',
        'why': 'Tests register one or two observers; removal while iterating, dead owners and token reuse need sequences.',
        'files': ['curvepy/curve.py'],
        'mechanism': [('Curve.add_observer, remove_observer, begin_update, end_update', 'curvepy/curve.py')],
        'state': [('observer registry', 'tokens, owners and domains of observers', 'curvepy/curve.py')],
        'observe': ['order and number of callbacks'],
        'technique': 'explicit-state bounded model checking: every sequence of registry operations up to a depth against a '
                     'registry model',
        'note': TRUST,
    },
    {
        'id': 'C14',
        'title': 'An extension continues a curve beyond its ends',
        'statement': 'An extended curve has exactly the values of the original curve inside its domain. Beyond an extended '
                     'end it has, by kind: the value at the end (constant); the straight line through the end with the '
                     'slope to the neighbouring point, or with value and slope of the least squares line through the last '
                     'points or the points within the last period (tangent); a sine of the given period which continues value '
                     'and slope (sine). An end whose value is missing, or which has no slope where one is needed, is not '
                     'continued; a side which is not extended keeps its end. The domain is unbounded exactly on the continued '
                     'sides, next and previous positions are those of the curve inside and go on at the spacing of the points there, and '
                     'exactly the positions beyond a continued end are in the extension. An extension which has to be possible '
                     'raises an exception whenever it is read and is not, and is as any other if it is. All of this holds '
                     'whichever position is read first and after every edit of the curve.',
        'over': ['inputs', 'configurations', 'histories'],
        'forall': 'every base curve, side, kind of extension and parameter, every order of reads, every history of edits',
        'why': 'Tests extend one or two short curves at one end; ends with gaps, single points, both ends at once and '
               'derived bases need an enumeration.',
        'files': ['curvepy/extension/extension.py', 'curvepy/extension/constant.py', 'curvepy/extension/tangent.py',
                  'curvepy/extension/sin.py'],
        'mechanism': [('Extension.y, get_domain, x_next, x_previous', 'curvepy/extension/extension.py'),
                      ('update_extension of each kind', 'curvepy/extension/*.py')],
        'state': [('start and end continuation', 'computed on first read, recomputed after an update',
                   'curvepy/extension/extension.py')],
        'observe': ['Extension.y', 'Extension.domain', 'Extension.x_next', 'Extension.x_previous'],
        'technique': TECH_INPUT.format('all base curves, sides and kinds within a bound with all first reads',
                                       'the continuation by definition'),
        'note': TRUST,
    },
    {
        'id': 'C15',
        'title': 'A shifted curve is the curve moved along the axis',
        'statement': 'Shifting a curve by a distance moves values, domain, next and previous positions, slopes and listed '
                     'points by exactly that distance, and shifts add up. Shifting by n calendar durations moves the value of '
                     'each duration boundary to the boundary n later (earlier for negative n) and joins neighbouring '
                     'boundaries by straight lines, for even and uneven durations (hours in a day, months); there is no value '
                     'where either boundary has none; the domain runs from the first to the last boundary with a value and is '
                     'walked boundary by boundary. All of this holds after every edit of the curve, and the '
                     'announced region covers every position whose value changes.',
        'over': ['inputs', 'configurations', 'histories'],
        'forall': 'every curve, distance, duration and count, every position on and between boundaries, every history of edits',
        'why': 'Tests shift three points by five distances and two durations; points between boundaries, uneven durations and '
               'updates need an enumeration.',
        'files': ['curvepy/offset.py'],
        'mechanism': [('Offset._interpolated_func, _offset_x, _unoffset_x', 'curvepy/offset.py'),
                      ('Offset._offset_interval (domain and update regions)', 'curvepy/offset.py'),
                      ('Offset.x_next, x_previous', 'curvepy/offset.py')],
        'state': [],
        'observe': ['Offset.y', 'Offset.domain', 'Offset.x_next', 'Offset.x_previous', 'Offset.d_y', 'observers'],
        'technique': TECH_INPUT.format('all shifted curves, durations and edit histories within a bound',
                                       'the unshifted curve and a calendar written for the check'),
        'note': TRUST + ' Spans of the duration library are memoised.',
    },
    {
        'id': 'C16',
        'title': 'Curves put together from pieces have the value of the piece they are in',
        'statement': 'A piecewise curve has at every position the value of the curve whose piece contains the position (open '
                     'and closed ends respected) and none outside of and between the pieces; its domain spans all pieces, and it goes from point to point of '
                     'the pieces, which are also its samples. A '
                     'blend has the values of the first curve before its range, of the second behind it, and in between their '
                     'mix in proportion to the distance (none where one is missing), within the domain of the first. A subset has the '
                     'values of its curve inside the given interval and none outside. A tuple of curves lists the values of its '
                     'parts inside its domain and has its default outside. All of them follow every edit of their parts and '
                     'announce every position whose value changes.',
        'over': ['inputs', 'configurations', 'histories'],
        'forall': 'all curves in all pieces, every open/closed joint and gap, every range of a blend, every cut, every history of '
                  'edits of a part',
        'why': 'The tests put two constants together; joints, gaps, missing values and edits of a part multiply.',
        'files': ['curvepy/piecewise.py', 'curvepy/curve.py', 'curvepy/generic.py', 'curvepy/aggregate.py'],
        'mechanism': [('Piecewise.y, get_domain, sample_points', 'curvepy/piecewise.py'), ('Curve.blend, subset', 'curvepy/curve.py'),
                      ('Generic.y', 'curvepy/generic.py'), ('Aggregate.y with default and without tfm', 'curvepy/aggregate.py')],
        'state': [],
        'observe': ['y', 'domain', 'sample_points', 'observers'],
        'technique': TECH_INPUT.format('all combinations of curves, pieces, ranges and cuts within a bound and all edit histories',
                                       'the case distinction by definition'),
        'note': TRUST,
    },
    {
        'id': 'C17',
        'title': 'Quotes and their indicators are what their definitions say',
        'statement': 'At every position from the first to the last quote, quotes have the latest quote up to there, and open, '
                     'high, low, close, volume and middle price are its parts; outside there is no value. Listing or sampling '
                     'an interval gives exactly the quotes whose time span meets it, the range over it goes from their lowest '
                     'low to their highest high, and the time span ends where the last quote ends; with a step the quotes are those at '
                     'every step from the start of the span, and the next and previous quotes are at least the given step '
                     'away. Trailing highs and lows '
                     'are the extremes of the quotes in the window; the awesome oscillator, the alligator, smoothed averages and '
                     'relative strength follow their definitions. All of it holds with an encoder, for even and uneven durations and '
                     'after every history of appends and sets, whether the curves were read in between or not.',
        'over': ['inputs', 'configurations', 'histories'],
        'forall': 'every list of quotes, duration, encoder, interval with open/closed ends, position, and history of edits',
        'why': 'Tests list three quotes with a duration of one second; uneven durations, intervals off the boundaries and '
               'indicators built before the data arrives are not covered.',
        'files': ['curvepy/quotes.py', 'curvepy/map.py', 'curvepy/offset.py', 'curvepy/accumulator_map.py', 'curvepy/curve.py'],
        'mechanism': [('Quotes.y, sample_points, get_range, get_quote_domain', 'curvepy/quotes.py'),
                      ('Quotes.close ... hl2, trailing_high, trailing_low, ao, alligator', 'curvepy/quotes.py'),
                      ('Quotes.append, append_list, set, encode_one', 'curvepy/quotes.py'), ('Curve.smma, rsi', 'curvepy/curve.py')],
        'state': [('quote points', 'encoded quotes in ascending order', 'curvepy/quotes.py'),
                  ('part curves', 'built on first use', 'curvepy/quotes.py')],
        'observe': ['Quotes.y', 'part curves', 'Quotes.sample_points', 'Quotes.get_range', 'indicators'],
        'technique': TECH_INPUT.format('all lists of quotes, durations, intervals and edit histories within a bound',
                                       'definitions over the plain list of quotes and a calendar written for the check'),
        'note': TRUST + ' Spans of the duration library are memoised.',
    },
    {
        'id': 'C18',
        'title': 'Curves written as JSON, and anything taken for a curve, mean what they say',
        'statement': 'A JSON descriptor is the curve its functions, arguments, chains and nested descriptors spell out, however '
                     'the arguments are written (one value, a list, a list in a list, @args with names). Inside of @log, @log2 and '
                     '@log10 every number in a list or on its own is taken to log space once and the result raised back; @date '
                     'turns date strings into seconds since the Unix epoch, in the given GMT offset or else in the local time '
                     'zone. Values which are not curves stay as they are. Reading a descriptor changes neither it nor what the next '
                     'one means, also when it fails; bad ones raise. Curve.parse returns curves themselves, and makes curves of '
                     'numbers, functions, lists of points and descriptors, in every operation as well.',
        'over': ['inputs', 'configurations'],
        'forall': 'every descriptor, chain, decorator placement, date, time zone and kind of value',
        'why': 'Tests read a dozen descriptors in one time zone; nesting, chaining and decorators multiply.',
        'files': ['curvepy/curve.py', 'curvepy/util.py', 'curvepy/line.py', 'curvepy/constant.py'],
        'mechanism': [('Curve.parse_descriptor, next_func_constructor', 'curvepy/curve.py'), ('_parse_date', 'curvepy/curve.py'),
                      ('Curve.parse, parse_many', 'curvepy/curve.py'), ('extend', 'curvepy/util.py')],
        'state': [],
        'observe': ['Curve.parse_descriptor', 'Curve.parse', 'y'],
        'technique': TECH_INPUT.format('all descriptors of a grammar within a depth, all chains within a length, all dates in all zones',
                                       'the meaning of a descriptor written down over plain functions'),
        'note': TRUST,
    },
    {
        'id': 'C19',
        'title': 'Extremas are the extreme points between crossings of the reference',
        'statement': 'Of every run of points on one side of the reference curve (points within the deviation of it, and missing values '
                     'of either curve, left out), the highest or lowest point, and the first of equal ones, is an extreme point as '
                     'soon as a later point lies on the other side. Between the first and the last extreme point the curve is '
                     'the lines joining them, elsewhere it has no value; points, samples, ranges and navigation inside go by the extreme '
                     'points. None of it depends on what was read before.',
        'over': ['inputs', 'configurations', 'histories'],
        'forall': 'every list of points, missing values included, reference, deviation, interval and order of reading',
        'why': 'Tests use three lists around a constant; ties, touching points, missing values and orders of reading multiply.',
        'files': ['curvepy/extremas.py', 'curvepy/scan.py', 'curvepy/curve.py'],
        'mechanism': [('Extremas._extrema_scan, _confirm_extrema', 'curvepy/extremas.py'), ('Extremas.scanned_y', 'curvepy/extremas.py'),
                      ('Extremas.x_next, x_previous, sample_points', 'curvepy/extremas.py'), ('Scan.scan', 'curvepy/scan.py')],
        'state': [('extremas', 'confirmed extreme points so far', 'curvepy/extremas.py'),
                  ('possible_extrema', 'the best point of the current run', 'curvepy/extremas.py')],
        'observe': ['Extremas.y', 'Extremas.extremas', 'sample_points', 'get_range', 'x_next', 'x_previous'],
        'technique': TECH_INPUT.format('all lists of points within a bound with all references, deviations and orders of reading',
                                       'runs of points by definition'),
        'note': TRUST,
    },
    {
        'id': 'C20',
        'title': 'Trend lines are trends of the curve, whatever was read or edited before',
        'statement': 'After reading past the end of the data: every line of a Trend is the best fit of at least min_points points of the '
                     'curve in ascending order, at least min_width wide, with min_points of them min_point_distance from the previous one, '
                     'all within the tolerance; a line which the curve keeps touching without passing it is found; upper(x), lower(x) '
                     'and y(x) are exactly the lines whose search interval [start, start + search_length_rel widths) contains x; '
                     'intersections are where the curve passes the line, a touch (a run of points within the tolerance) has at most one tangent point, '
                     'extremas are points off the line; a prediction starts at an intersection after min_points touches only, '
                     'has the golden ratio targets and time limits, and fails or succeeds but not both. Editing, appending or reading before '
                     'the start leaves the trend as if created anew. Mirroring values swaps upper and lower lines; '
                     'stretching positions, and scaling values (relative tolerance) or shifting them (absolute tolerance), moves the lines along.',
        'over': ['inputs', 'configurations', 'histories'],
        'forall': 'every list of points, setting of a trend, history of edits and reads past the end of the data',
        'why': 'The tests of trends are commented out; what a line and a prediction consist of depends on the history of the curve.',
        'files': ['curvepy/trend.py', 'curvepy/scan.py', 'curvepy/points.py'],
        'mechanism': [('Trend._trend_scan, _append_point_and_validate', 'curvepy/trend.py'),
                      ('TrendLine.set_trend_with_boundary_points', 'curvepy/trend.py'),
                      ('TrendLine.update_points_of_interest', 'curvepy/trend.py'), ('TrendLine.update_prediction', 'curvepy/trend.py'),
                      ('Scan.reset_scan', 'curvepy/scan.py')],
        'state': [('nested_upper_lines, nested_lower_lines', 'lines found or being formed', 'curvepy/trend.py'),
                  ('prediction_phase', 'state of the prediction of a line', 'curvepy/trend.py')],
        'observe': ['Trend.lines', 'Trend.upper', 'Trend.lower', 'Trend.y', 'TrendLine.trend_points', 'TrendLine.intersections',
                    'TrendLine.tangent_points', 'TrendLine.extremas', 'TrendLine.prediction_*', 'TrendLine.line_extended'],
        'technique': TECH_INPUT.format('all curves within a bound, continuations of a line and edit histories',
                                       'least squares, the definitions of crossings and touches, and a state machine of predictions'),
        'note': TRUST,
    },
    {
        'id': 'C27',
        'title': 'Reading a curve is pure',
        'statement': 'What a curve answers does not depend on what was read before: every value, slope, step to a next or previous position, '
                     'domain, end, range and list of points is the one that a fresh curve over the same data gives, whichever sequence of '
                     'reads came first. Reading announces no update, and the lists of points which are returned belong to the caller: '
                     'changing them does not change the curve. Scanning curves over curves without points are left out: '
                     'they are scanned at the positions which are read.',
        'over': ['inputs', 'histories'],
        'forall': 'every curve over points and every sequence of reads',
        'why': 'Scans, extensions and extremas are computed lazily and kept; tests read each curve once or in ascending order.',
        'files': ['curvepy/scan.py', 'curvepy/accumulator.py', 'curvepy/sma.py', 'curvepy/extremas.py', 'curvepy/extension/extension.py',
                  'curvepy/points.py', 'curvepy/curve.py'],
        'mechanism': [('Scan.scan, sample_points', 'curvepy/scan.py'), ('Accumulator.x_previous, x_next', 'curvepy/accumulator.py'),
                      ('Extension.y, get_domain', 'curvepy/extension/extension.py'), ('Points.sample_points', 'curvepy/points.py')],
        'state': [('scan_start, current', 'how far a curve was scanned', 'curvepy/scan.py'),
                  ('accumulated_points', 'what was accumulated', 'curvepy/accumulator.py'),
                  ('_extension_stale', 'whether the extension was computed', 'curvepy/extension/extension.py')],
        'observe': ['Curve.y', 'Curve.d_y', 'Curve.x_next', 'Curve.x_previous', 'Curve.domain', 'Curve.sample_points', 'Curve.get_range',
                    'Curve.first_point', 'Curve.last_point', 'observers'],
        'technique': TECH_INPUT.format('all derived curves and all sequences of reads within a bound', 'the same read on a fresh curve'),
        'note': TRUST,
    },

    {
        'id': 'C25',
        'title': 'A failing function or refused edit leaves no trace',
        'statement': 'When a function which a curve is made of (a mapping, a generic function, an accumulator, an initial value, a reference, '
                     'any part of a derived curve) raises while a value, slope, domain or list of points is read, the exception reaches the '
                     'caller, and afterwards every read, also after further edits, gives what it would have given had the function never '
                     'failed; trends find the same lines. An edit of Points which is refused (out of order, out of bounds, not at the '
                     'regular step of uniform points) raises, announces no update and leaves the points and all curves derived from them as they were.',
        'over': ['inputs', 'fault points', 'histories'],
        'forall': 'every call of a user function which may fail, every derived curve, every read',
        'why': 'Scans and extensions keep state which is half written when a function raises; tests never raise.',
        'files': ['curvepy/scan.py', 'curvepy/accumulator.py', 'curvepy/extremas.py', 'curvepy/extension/extension.py', 'curvepy/points.py', 'curvepy/trend.py'],
        'mechanism': [('Scan.scan', 'curvepy/scan.py'), ('Accumulator._accumulate', 'curvepy/accumulator.py'),
                      ('Extremas._extrema_scan', 'curvepy/extremas.py'), ('Extension._update_extension_if_needed', 'curvepy/extension/extension.py'),
                      ('Points.append_list, replace, set', 'curvepy/points.py')],
        'state': [('current', 'last position which was scanned', 'curvepy/scan.py'),
                  ('_extension_stale', 'whether the extension needs to be computed', 'curvepy/extension/extension.py')],
        'observe': ['Curve.y', 'Curve.d_y', 'Curve.domain', 'Curve.sample_points', 'Curve.x_next', 'Curve.x_previous', 'Trend.lines', 'observers', 'exceptions'],
        'technique': 'exhaustive fault injection: the implementation is run with the failure at every call of the function within a bound, and compared with a run without failure',
        'note': TRUST,
    },
    {
        'id': 'C22',
        'title': 'Elementary curves and the ends of every curve',
        'statement': 'A Line has the values of const + slope x whichever way it is described (constant, slope, one or two points), also after '
                     'being set again; x(y) is its inverse, d_y its slope everywhere, and partial_integration the signed area. A Sin is '
                     'amplitude sin(2 pi x / period + phase), where phase_x moves it by a distance, d_y is its exact slope and period and frequency '
                     'are what was given. A Constant and a Generic function have their value inside of their domain and None outside; stepping '
                     'stays inside of it. The empty curve has no points, values, ends or steps, and combining it with others gives what the '
                     'combination of nothing and them means. Setting lines, sines and constants announces the whole domain before and after a '
                     'change, nothing when nothing changes or the description is refused, and curves derived from them follow. For every curve '
                     'first_point, last_point, y_start, y_end, next_point and previous_point are the values at the ends and steps; '
                     'parse turns numbers, functions, points and curves into the curve they mean.',
        'over': ['inputs', 'histories'],
        'forall': 'every description, domain, position and sequence of changes',
        'why': 'Every other curve is built on these; tests sample a line or two and no sine.',
        'files': ['curvepy/line.py', 'curvepy/sin.py', 'curvepy/constant.py', 'curvepy/generic.py', 'curvepy/empty.py', 'curvepy/curve.py'],
        'mechanism': [('Line.set, x, partial_integration', 'curvepy/line.py'), ('Sin.set', 'curvepy/sin.py'), ('Constant.value', 'curvepy/constant.py'),
                      ('Curve.x_next, x_previous, first_point, last_point, parse', 'curvepy/curve.py')],
        'state': [('ref_point, slope', 'description of a line', 'curvepy/line.py'), ('amplitude, x_coef, phase', 'description of a sine', 'curvepy/sin.py')],
        'observe': ['Line.y', 'Line.x', 'Line.const', 'Line.slope', 'Line.partial_integration', 'Sin.y', 'Sin.d_y', 'Sin.period', 'Sin.frequency', 'Constant.y',
                    'Generic.y', 'Empty', 'Curve.first_point', 'Curve.last_point', 'Curve.next_point', 'Curve.previous_point', 'Curve.parse', 'observers'],
        'technique': TECH_INPUT.format('all descriptions, positions and sequences of changes within a bound', 'the formulas of the curves and curves created anew'),
        'note': TRUST,
    },
    {
        'id': 'C23',
        'title': 'Regression lines, minima and maxima',
        'statement': 'regression() is the least squares line of the sampled points of the domain (all points, a domain, or steps), the line '
                     'through the points when there are two, and None with fewer or when one is missing, wherever on the axis the points are. '
                     'minimise(x) walks downhill from x, down the steeper side from a maximum, and returns the first strict '
                     'local minimum it comes to, or None where it slopes down to an end or x is outside; with a step, within a step of it. '
                     'maximise mirrors it. On level ground only termination inside of the curve is promised.',
        'over': ['inputs'],
        'forall': 'every list of points, scale, domain, step and start',
        'why': 'Slopes at timestamps are a matter of rounding and walks of where they begin; tests use two curves at small positions.',
        'files': ['curvepy/curve.py', 'curvepy/line.py', 'curvepy/points.py'],
        'mechanism': [('Curve.regression, minimise, maximise', 'curvepy/curve.py')],
        'state': [],
        'observe': ['Curve.regression', 'Curve.minimise', 'Curve.maximise'],
        'technique': TECH_INPUT.format('all short curves, starts, domains and steps', 'exact rational least squares and a walk over the list of values'),
        'note': TRUST,
    },
    {
        'id': 'C26',
        'title': 'Slopes and differentials',
        'statement': 'd_y(x) of a curve of points is the slope from its value at x to the last point which is at least min_step before x '
                     '(the next one after x with forward), None where there is none or a value is missing, whatever the interpolation; '
                     'for every other curve it is the slope to where x_previous (x_next) with the same smallest step and limit leads, '
                     'and for lines, sines and constants their exact slope. differential() has these slopes as values over the domain and '
                     'the points of its curve; it is linear, follows offsets, and integrating it leads back to the curve.',
        'over': ['inputs'],
        'forall': 'every curve, position, direction, smallest step and limit',
        'why': 'Tangents, extensions, extremas and minima are built on slopes; tests take a few of them at points.',
        'files': ['curvepy/curve.py', 'curvepy/map.py', 'curvepy/offset.py', 'curvepy/points.py'],
        'mechanism': [('Curve.d_y', 'curvepy/curve.py'), ('Differential', 'curvepy/map.py'), ('Offset.d_y', 'curvepy/offset.py'), ('Points.x_next, x_previous', 'curvepy/points.py')],
        'state': [],
        'observe': ['Curve.d_y', 'Curve.differential', 'Curve.integral', 'Curve.sample_points'],
        'technique': TECH_INPUT.format('all short curves, positions, directions, steps and limits', 'the definition of the slope over the list of points'),
        'note': TRUST,
    },
    {
        'id': 'C28',
        'title': 'Where the axes begin and their units do not matter',
        'statement': 'When all positions of a curve of points are moved by a distance or stretched by a factor, and everything that is derived from it is '
                     'moved and stretched likewise (offsets, periods, steps, borders), then every derived curve is the same curve moved and stretched: its '
                     'domain, values, neighbours, slopes (divided by the factor), integrals (multiplied by it), samples, ranges, and the domains it announces '
                     'as changed; and when all values are moved, scaled or mirrored, its values are moved, scaled or mirrored as its definition says '
                     '(sums twice, differences not at all, minima become maxima). No position or value, 0 in particular, is special.',
        'over': ['inputs', 'histories'],
        'forall': 'every derived curve, curve of points, edit and frame of reference',
        'why': 'Positions are timestamps or counts and values are prices or changes which cross 0; a position or value of 0 which is taken for a missing one '
               'shows for few inputs only.',
        'files': ['curvepy/curve.py', 'curvepy/points.py', 'curvepy/map.py', 'curvepy/aggregate.py', 'curvepy/offset.py', 'curvepy/integral.py', 'curvepy/accumulator.py',
                  'curvepy/accumulator_map.py', 'curvepy/sma.py', 'curvepy/ema.py', 'curvepy/extremas.py', 'curvepy/piecewise.py', 'curvepy/extension/extension.py'],
        'mechanism': [('Curve.sample_points', 'curvepy/curve.py'), ('Points.y, x_next, x_previous', 'curvepy/points.py'), ('ScanMixin', 'curvepy/scan.py')],
        'state': [],
        'observe': ['Curve.y', 'Curve.domain', 'Curve.d_y', 'Curve.sample_points', 'Curve.add_observer'],
        'technique': TECH_INPUT.format('all derived curves, edits and frames of reference within the bounds', 'the same code in another frame (the transformed result)'),
        'note': TRUST,
    },
    {
        'id': 'C24',
        'title': 'Options, defaults and constructors mean what they say',
        'statement': 'A running curve with a smallest step visits the first position and then always the next which is at least that step further, and nothing '
                     'else: its average, window, integral or extrema is that of the visited points and between them it is interpolated as asked; its next and previous positions are visited points. The methods and the '
                     'constructors of a derived curve agree (by period or by number of points, operands in a list or one by one, numbers, functions and '
                     'points taken for curves). Degrees and periods which are not positive, functions which do not fit and unknown names are refused when the curve '
                     'is built, and leave the curve as it was. A constant set to another value is announced with the old and then the new value, '
                     'to everything derived from it. Aggregates give the list of values, their function of it, or their default outside. Harmonic averages have the '
                     'degrees base times rounded powers of the golden ratio, ascending (centered ones descending).',
        'over': ['inputs', 'histories'],
        'forall': 'every short curve of points, smallest step, degree, pair of constructions, bad option, sequence of assignments and list of operands',
        'why': 'Options are passed through many layers and a lost one shows only where steps differ; tests leave nearly all options at their defaults.',
        'files': ['curvepy/curve.py', 'curvepy/scan.py', 'curvepy/accumulator.py', 'curvepy/accumulator_map.py', 'curvepy/ema.py', 'curvepy/sma.py', 'curvepy/integral.py',
                  'curvepy/aggregate.py', 'curvepy/constant.py', 'curvepy/generic.py', 'curvepy/util.py'],
        'mechanism': [('Curve.resolve_min_step', 'curvepy/curve.py'), ('Scan.scan', 'curvepy/scan.py'), ('AccumulatorMap', 'curvepy/accumulator_map.py'),
                      ('Constant.value', 'curvepy/constant.py'), ('Aggregate.y', 'curvepy/aggregate.py'), ('flatten, extend', 'curvepy/util.py')],
        'state': [],
        'observe': ['Curve.y', 'Curve.x_next', 'Curve.sample_points', 'Curve.add_observer'],
        'technique': TECH_INPUT.format('all curves of points, smallest steps, options, constructions and assignments within the bounds', 'reference recurrences over the visited points'),
        'note': TRUST,
    },
]

NOT_APPLICABLE = []
