"""Development aid: mutants of the code, which the stable tests do not see, against the checks.

usage: mutate.py list FILE...            number of mutants
       mutate.py tests OUT.json FILE...  mutants which pass the tests
       mutate.py kill OUT.json SHARE [CHECK...]  which of them the checks see (SHARE of their items, in [0, 1])
Works in copies under /tmp/w/m. Sampling here only speeds up development: the checks themselves enumerate everything.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

REPO = '/repo'
ROOT = '/tmp/w/m'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
CMPT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*')}
NAMES = {'start': 'end', 'end': 'start', 'start_open': 'end_open', 'end_open': 'start_open', 'x_next': 'x_previous', 'x_previous': 'x_next', 'min': 'max', 'max': 'min',
         'first_point': 'last_point', 'last_point': 'first_point', 'append': None}


def mutants(fname):
    src = open(f'{REPO}/curvepy/{fname}').read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(s, e, new, what, n):
        out.append({'file': fname, 'line': n.lineno, 's': s, 'e': e, 'new': new, 'what': what})

    def gap(l, r, old, new, n):
        s = pos(l)[1]
        e = pos(r)[0]
        t = b[s:e].decode()
        if t.count(old) == 1:
            put(s, e, t.replace(old, new), f'{old} -> {new}', n)
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__', '__del__', 'plot', 'print'):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            gap(n.left, n.comparators[0], CMPT[type(n.ops[0])], CMP[type(n.ops[0])], n)
        elif isinstance(n, ast.Compare):
            prev = n.left
            for o, c in zip(n.ops, n.comparators):
                gap(prev, c, CMPT[type(o)], CMP[type(o)], n)
                prev = c
        elif isinstance(n, ast.BoolOp):
            o = isinstance(n.op, ast.And)
            for l, r in zip(n.values, n.values[1:]):
                gap(l, r, 'and' if o else 'or', 'or' if o else 'and', n)
            for v in n.values:
                s, e = pos(v)
                put(s, e, 'True' if o else 'False', 'clause dropped', v)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            gap(n.left, n.right, *BIN[type(n.op)], n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            s, e = pos(n)
            put(s, e, '(' + b[s:e].decode()[3:] + ')', 'not removed', n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            s, e = pos(n)
            put(s, e, '(' + b[s:e].decode()[1:] + ')', 'minus removed', n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            s, e = pos(n)
            put(s, e, str(not n.value), f'{n.value} flipped', n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            s, e = pos(n)
            put(s, e, repr(n.value + 1), f'{n.value} + 1', n)
        elif isinstance(n, (ast.If, ast.While)):
            s, e = pos(n.test)
            if isinstance(n, ast.If):
                put(s, e, 'True', 'if True', n)
            put(s, e, 'False', 'if False', n)
        elif isinstance(n, ast.IfExp):
            s, e = pos(n)
            for v, w in ((n.body, 'then'), (n.orelse, 'else')):
                vs, ve = pos(v)
                put(s, e, b[vs:ve].decode(), f'always {w}', n)
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            s, e = pos(n.value)
            put(s, e, 'None', 'return None', n)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            s, e = pos(n)
            put(s, e, 'pass', 'call removed', n)
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset >= 8:
            s, e = pos(n)
            put(s, e, 'pass', 'assignment removed', n)
        elif isinstance(n, (ast.Break, ast.Continue)):
            s, e = pos(n)
            put(s, e, 'pass', 'jump removed', n)
        if isinstance(n, ast.Attribute) and NAMES.get(n.attr):
            e = pos(n)[1]
            s = e - len(n.attr)
            put(s, e, NAMES[n.attr], f'{n.attr} -> {NAMES[n.attr]}', n)
        if isinstance(n, ast.Name) and n.id in ('min', 'max') and isinstance(n.ctx, ast.Load):
            s, e = pos(n)
            put(s, e, {'min': 'max', 'max': 'min'}[n.id], n.id + ' swapped', n)
        if isinstance(n, ast.Attribute) and n.attr in ('floor', 'ceil'):
            e = pos(n)[1]
            s = e - len(n.attr)
            put(s, e, 'ceil' if n.attr == 'floor' else 'floor', n.attr + ' swapped', n)
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ('print', 'super')):
            for k in n.keywords:
                if k.arg:
                    s, e = pos(k)
                    # also remove the comma before
                    t = b[:s].decode().rstrip()
                    if t.endswith(','):
                        put(len(t.encode()) - 1, e, '', f'argument {k.arg} dropped', n)
    seen = set()
    res = []
    for m in out:
        k = (m['s'], m['e'], m['new'])
        if k in seen:
            continue
        seen.add(k)
        text = b[:m['s']] + m['new'].encode() + b[m['e']:]
        try:
            ast.parse(text.decode())
        except SyntaxError:
            continue
        m['old'] = b[m['s']:m['e']].decode()
        res.append(m)
    return res


def apply(m, d):
    b = open(f'{REPO}/curvepy/{m["file"]}', 'rb').read()
    p = f'{d}/curvepy/{m["file"]}'
    open(p, 'wb').write(b[:m['s']] + m['new'].encode() + b[m['e']:])
    return p


def restore(m, d):
    shutil.copy(f'{REPO}/curvepy/{m["file"]}', f'{d}/curvepy/{m["file"]}')


def pool(n):
    q = queue.Queue()
    for i in range(n):
        d = f'{ROOT}/{i}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        q.put(d)
    return q


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')


def run_tests(d):
    stable = json.load(open('/opt/vp/BASELINE.json'))
    try:
        r = subprocess.run(f'ulimit -v 3000000; cd {d} && exec /opt/venv/bin/python -W ignore -m pytest -x -q -p no:cacheprovider test', shell=True, capture_output=True, text=True, env=ENV, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


KILL = '''
import sys, importlib, random
sys.path.insert(0, '/verif')
from mc import core
core.load_target()
share = float(sys.argv[1])
core._init_worker()
core.CASE_CPU_LIMIT = 5
for pid in sys.argv[2:]:
    check = importlib.import_module('mc.checks.' + pid.lower())
    core._check = check
    items = check.items('quick')
    rnd = random.Random(5)
    rnd.shuffle(items)
    for it in items[:max(6, int(len(items) * share))]:
        _, r, err = core._work((0, it))
        if err:
            print('HARNESS', pid, err[-200:]); sys.exit(3)
        if r['violations']:
            print('KILLED', pid, r['violations'][0]['message'][:150]); sys.exit(0)
print('ALIVE')
'''


def run_kill(d, share, checks):
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', KILL, str(share)] + checks, capture_output=True, text=True,
                           env=dict(ENV, CURVEPY_REPO=d), timeout=3600)
    except subprocess.TimeoutExpired:
        return 'KILLED timeout'
    t = [l for l in r.stdout.splitlines() if l.startswith(('KILLED', 'ALIVE', 'HARNESS'))]
    return t[-1] if t else 'HARNESS ' + r.stderr[-300:]


def main():
    cmd = sys.argv[1]
    if cmd == 'list':
        for f in sys.argv[2:]:
            print(f, len(mutants(f)))
    elif cmd == 'tests':
        ms = [m for f in sys.argv[3:] for m in mutants(f)]
        q = pool(8)

        def one(m):
            d = q.get()
            try:
                apply(m, d)
                return run_tests(d)
            finally:
                restore(m, d)
                q.put(d)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, ms))
        alive = [m for m, r in zip(ms, res) if r]
        print(len(ms), 'mutants,', len(alive), 'pass the tests')
        json.dump(alive, open(sys.argv[2], 'w'), indent=1)
    elif cmd == 'kill':
        ms = json.load(open(sys.argv[2]))
        share = float(sys.argv[3])
        checks = sys.argv[4:]
        q = pool(8)

        def one(m):
            if m.get('result', 'ALIVE').startswith('KILLED'):
                return m
            d = q.get()
            try:
                apply(m, d)
                m['result'] = run_kill(d, share, checks)
            finally:
                restore(m, d)
                q.put(d)
            return m
        n = 0
        with ThreadPoolExecutor(8) as ex:
            for m in ex.map(one, ms):
                n += 1
                if n % 20 == 0:
                    json.dump(ms, open(sys.argv[2], 'w'), indent=1)
        json.dump(ms, open(sys.argv[2], 'w'), indent=1)
        print(sum(m['result'].startswith('KILLED') for m in ms), 'killed of', len(ms), [m['result'] for m in ms if m['result'].startswith('HARNESS')][:3])


main()
