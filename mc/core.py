"""Exploration core shared by every check.

A check module (mc/checks/<id>.py) provides

    PROPERTY   the property id
    BOUNDS     dict tier -> text describing the bound that is enumerated completely
    items(tier)            -> list of JSON-able work items; together they are the whole bounded space
    run_item(item, rec)    -> enumerates every case of the item, calling rec.run(case) for each
    check_case(case, rec)  -> executes ONE case on the real code next to the reference model

`rec` counts what was executed (states, transitions, traces, outcomes) and receives
violations through rec.fail(). Everything is deterministic: no clocks, no randomness,
no dependence on VERIF_SEED, machine speed or hash order.
"""
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CURVEPY_REPO', '/repo')
CASE_CPU_LIMIT = 20.0        # CPU seconds for a single case: more means it does not terminate
MAX_VIOLATIONS_PER_ITEM = 3
MEM_LIMIT = 3 << 30


def load_target():
    sys.path.insert(0, REPO)
    import curvepy
    expected = os.path.realpath(os.path.join(REPO, 'curvepy', '__init__.py'))
    assert os.path.realpath(curvepy.__file__) == expected, curvepy.__file__
    return curvepy


class CaseTimeout(BaseException):
    pass


class PropertyFailure(Exception):
    """Raised by a check when model and implementation disagree."""


def _on_timeout(signum, frame):
    raise CaseTimeout()


# ------------------------------------------------------------------ comparison

REL = 1e-9
ABS = 1e-9


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) or hasattr(v, '__float__')


def same(a, b, rel=REL, abs_=ABS):
    """Observational equality of values: None, numbers up to rounding, and nested sequences."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rel, abs_) for x, y in zip(a, b))
    if is_num(a) and is_num(b):
        a = float(a)
        b = float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
    return a == b


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return v
    if hasattr(v, '__float__'):
        f = float(v)
        if math.isinf(f) or math.isnan(f):
            return str(f)
        return f
    return repr(v)


# ------------------------------------------------------------------ recorder

class Rec:
    """Counts of one work item (merged in the parent)."""

    def __init__(self, check, item, verbose=False):
        self.check = check
        self.item = item
        self.verbose = verbose
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.samples = []
        self.current = None
        self.extra = {}

    # -- counters used by check_case
    def state(self, key):
        """Register a reached (canonical) state; True when it is new in this item."""
        h = hash(key) if not isinstance(key, int) else key
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- assertions
    def fail(self, msg):
        raise PropertyFailure(msg)

    def eq(self, got, want, what, rel=REL, abs_=ABS):
        if not same(got, want, rel, abs_):
            raise PropertyFailure(f'{what}: got {got!r}, expected {want!r}')

    def true(self, cond, what):
        if not cond:
            raise PropertyFailure(what)

    # -- execution of one case
    def run(self, case):
        """Execute one case. Returns True when it held."""
        if len(self.violations) >= MAX_VIOLATIONS_PER_ITEM:
            return False
        self.current = case
        if len(self.samples) < 2:
            self.samples.append(case)
        msg = None
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
        try:
            self.check.check_case(case, self)
        except PropertyFailure as e:
            msg = str(e)
        except CaseTimeout:
            msg = f'did not terminate within {CASE_CPU_LIMIT} CPU seconds'
        except MemoryError:
            msg = 'exhausted memory'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            frames = [f for f in tb if os.sep + 'curvepy' + os.sep in f.filename]
            where = f'{os.path.basename(frames[-1].filename)}:{frames[-1].lineno}' if frames else '?'
            msg = f'unexpected {type(e).__name__}: {e} (raised in {where})'
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        self.traces += 1
        if msg is not None:
            self.violations.append({'case': jsonable(case), 'message': msg})
            if self.verbose:
                print('FAILED:', msg)
            return False
        return True


# ------------------------------------------------------------------ worker pool

_check = None


def _init_worker():
    signal.signal(signal.SIGPROF, _on_timeout)
    sys.setrecursionlimit(1000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except Exception:
        pass


def _work(args):
    idx, item = args
    rec = Rec(_check, item)
    try:
        _check.run_item(item, rec)
    except CaseTimeout:
        pass
    except Exception:
        return idx, None, traceback.format_exc() + f'\nwhile running item {item!r} case {rec.current!r}'
    return idx, {
        'states': len(rec.states),
        'outcomes': rec.outcomes,
        'transitions': rec.transitions,
        'traces': rec.traces,
        'violations': rec.violations,
        'samples': rec.samples,
        'extra': rec.extra,
    }, None


def explore(check, tier):
    """Run every item of the check; returns merged results (deterministic order)."""
    global _check
    _check = check
    items = check.items(tier)
    n = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    results = [None] * len(items)
    errors = []
    ctx = multiprocessing.get_context('fork')
    work = list(enumerate(items))
    with ctx.Pool(n, initializer=_init_worker) as pool:
        bad = 0
        for idx, res, err in pool.imap_unordered(_work, work, chunksize=max(1, len(work) // (n * 16))):
            if err:
                errors.append(err)
                continue
            results[idx] = res
            bad += len(res['violations'])
            if bad >= 40:
                pool.terminate()
                break
    return items, results, errors


# ------------------------------------------------------------------ known findings

def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith(('#', 'fixed:')):
                    continue
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out


def case_key(case):
    return json.dumps(jsonable(case), sort_keys=True)


# ------------------------------------------------------------------ entry point

def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    load_target()
    check = importlib.import_module(f'mc.checks.{pid.lower()}')
    rdir = os.path.join(VERIF, 'replays')
    for name in os.listdir(rdir) if os.path.isdir(rdir) else ():
        if name.startswith(pid + '-'):
            os.remove(os.path.join(rdir, name))
    items, results, errors = explore(check, tier)
    if errors:
        sys.stderr.write(errors[0] + '\n')
        print(f'HARNESS ERROR in {pid}: {len(errors)} item(s); first shown on stderr')
        return 2

    done = [r for r in results if r is not None]
    outcomes = set()
    for r in done:
        outcomes |= r['outcomes']
    extra = {}
    for r in done:
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
    samples = []
    stride = max(1, len(done) // 5)
    for r in done[::stride][:6]:
        samples.extend(r['samples'][:1])
    violations = []
    for r in done:
        violations.extend(r['violations'])

    known = {case_key(k['case']): k for k in known_findings(pid)}
    seen_known = {}
    fresh = []
    for v in violations:
        k = known.get(case_key(v['case']))
        if k is not None and k['message_contains'] in v['message']:
            seen_known[k['id']] = k
        else:
            fresh.append(v)
    for k in seen_known.values():
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')

    complete = len(done) == len(items) and not fresh
    cov = {
        'states': sum(r['states'] for r in done),
        'transitions': sum(r['transitions'] for r in done),
        'traces_validated_against_impl': sum(r['traces'] for r in done),
        'distinct_outcomes': len(outcomes),
        'work_items': len(done),
        'bound': check.BOUNDS[tier],
        'exhaustive': complete,
        'samples': [jsonable(s) for s in samples],
        'known_findings_seen': sorted(seen_known),
    }
    cov.update({k: v for k, v in sorted(extra.items())})
    evidence = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': 'model_checking',
        'coverage': cov,
        'assumptions': getattr(check, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    print(f'{pid} [{tier}] states={cov["states"]} transitions={cov["transitions"]} '
          f'traces={cov["traces_validated_against_impl"]} outcomes={cov["distinct_outcomes"]} '
          f'items={len(done)}/{len(items)} wall={evidence["wall_s"]}s')
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for i, v in enumerate(fresh[:10]):
            digest = hashlib.sha1(case_key(v['case']).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, 'replays', f'{pid}-{digest}.json')
            with open(path, 'w') as f:
                json.dump({'property': pid, **v}, f, indent=1)
                f.write('\n')
            print(f'  {v["message"][:400]}')
            print(f'VIOLATION property={pid} replay={path}')
        if len(fresh) > 10:
            print(f'  ... and {len(fresh) - 10} more')
        return 1
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    load_target()
    check = importlib.import_module(f'mc.checks.{d["property"].lower()}')
    _init_worker()
    print('case:', json.dumps(d['case']))
    rec = Rec(check, None, verbose=True)
    case = check.from_json(d['case']) if hasattr(check, 'from_json') else d['case']
    ok = rec.run(case)
    print('held' if ok else f'VIOLATION property={d["property"]} replay={path}')
    return 0 if ok else 1
