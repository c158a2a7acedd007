"""Development aid: confirm planted bugs and store them under /verif/seeded/<id>/.

usage: plant.py SPEC.py [ID...]     SPEC defines BUGS = [dict(id, prop, file, edits=[(old, new), ...], needs, breaks, demo)]
A bug is kept when its patch changes original lines only (PLANT_ANY set: other changes are tried, but not kept), the stable tests pass with it, and its
demonstration passes without and fails with it. Whether the check of its property sees it is only reported.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

BASE = '09add75'
VERIF = '/verif'
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 TZ=UTC
PYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original_lines(repo, patch):
    """True when every removed line stems from the original commit."""
    fname, lineno, bad, removed = None, 0, [], 0
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            fname = l[6:]
        elif l.startswith('@@'):
            lineno = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            removed += 1
            b = sh(f'git -C {repo} blame -L {lineno},{lineno} HEAD -- {fname}').stdout
            if not b.lstrip('^').startswith(BASE[:6]):
                bad.append(l)
            lineno += 1
        elif l.startswith(' '):
            lineno += 1
    return removed > 0 and not bad, bad


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for b in spec['BUGS']:
        if only and b['id'] not in only:
            continue
        w = f'/tmp/w/plant-{b["id"]}'
        shutil.rmtree(w, ignore_errors=True)
        sh(f'git clone -q /repo {w}')
        try:
            one(b, w)
        finally:
            shutil.rmtree(w, ignore_errors=True)


def one(b, w):
    edits = b['edits']
    for e in edits:
        f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
        p = os.path.join(w, 'curvepy', f)
        s = open(p).read()
        if s.count(old) != 1:
            return print(b['id'], 'REJECTED: old text occurs', s.count(old), 'times in', f, repr(old[:60]))
        open(p, 'w').write(s.replace(old, new))
    patch = sh(f'git -C {w} diff').stdout
    ok, bad = original_lines(w, patch)
    trial = not ok and 'PLANT_ANY' in os.environ
    if not ok and not trial:
        return print(b['id'], 'REJECTED: not original lines', bad)
    d = f'{VERIF}/seeded/{b["id"]}'
    t = f'/tmp/w/demo-{b["id"]}'
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    open(f'{t}/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(f'{t}/demo.sh', 'w').write(DEMO)
    os.chmod(f'{t}/demo.sh', 0o755)
    r = sh(f'bash {t}/demo.sh', cwd='/repo', timeout=200)
    if r.returncode != 0:
        return print(b['id'], 'REJECTED: demo fails on the clean tree\n', r.stdout[-500:], r.stderr[-800:])
    try:
        r = sh(f'bash {t}/demo.sh', cwd=w, timeout=100)
        if r.returncode == 0:
            return print(b['id'], 'REJECTED: demo passes with the patch')
    except subprocess.TimeoutExpired:
        pass
    r = sh('PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 TZ=UTC PYTHONHASHSEED=0 /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider -p pytest_timeout --timeout=120 test 2>&1 | tail -4', cwd=w)
    if '161 passed' not in r.stdout or 'failed' in r.stdout:
        return print(b['id'], 'REJECTED: tests', r.stdout[-300:])
    if not trial:
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(t, d)
        open(f'{d}/patch.diff', 'w').write(patch)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
    r = sh(f'CURVEPY_REPO={w} VERIF_TIER=quick {VERIF}/check.sh {b["prop"]} quick', cwd=VERIF)
    line = [x for x in r.stdout.splitlines() if 'wall' in x]
    print(b['id'], b['prop'], 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' in r.stdout else f'MISSED ({r.returncode})',
          line[0].split('wall')[-1] if line else r.stdout[-200:] + r.stderr[-300:], flush=True)


main()
