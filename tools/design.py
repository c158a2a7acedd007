"""Writes DESIGN.md: the text below, the bounds the checks state themselves, the repairs and the planted bugs."""
import importlib
import json
import os
import sys
sys.path.insert(0, '/verif')
sys.path.insert(0, os.environ.get('CURVEPY_REPO', '/repo'))
from mc.props import PROPS, NOT_APPLICABLE

HEAD = open('/verif/tools/design_head.md').read()
NOTES = json.load(open('/verif/tools/design_notes.json'))

out = [HEAD.rstrip(), '', '## The properties', '']
fixed = {}
for line in open('/verif/known_findings.jsonl'):
    if line.startswith('fixed: property='):
        pid, commit, what = line[len('fixed: property='):].strip().split(' ', 2)
        fixed.setdefault(pid, []).append((commit, what))
seeded = {}
for name in sorted(os.listdir('/verif/seeded')):
    meta = json.load(open(f'/verif/seeded/{name}/meta.json'))
    seeded.setdefault(meta['property'], []).append((name, meta))
for p in PROPS:
    pid = p['id']
    m = importlib.import_module('mc.checks.' + pid.lower())
    n = NOTES.get(pid, {})
    out += [f'### {pid} {p["title"]}', '', f'`mc/checks/{pid.lower()}.py`. {n.get("how", "")}'.rstrip(), '',
            f'- Oracle: {n.get("oracle", "see the module")}', f'- Quick bound: {m.BOUNDS["quick"]}', f'- Thorough bound: {m.BOUNDS["thorough"]}',
            f'- Cost: {n.get("cost", "")}', f'- Why tests cannot settle it: {p["why"]}']
    if n.get('limits'):
        out.append(f'- Left out, and why: {n["limits"]}')
    for c, w in fixed.get(pid, ()):
        out.append(f'- Repaired ({c}): {w}')
    if pid in seeded:
        out.append('- Planted bugs it catches: ' + '; '.join(f'`{i}` ({x["what_it_breaks"]})' for i, x in seeded[pid]))
    out.append('')
if NOT_APPLICABLE:
    out += ['## Not applicable', ''] + [f'- {n}' for n in NOT_APPLICABLE] + ['']
out += [open('/verif/tools/design_tail.md').read().rstrip(), '']
open('/verif/DESIGN.md', 'w').write('\n'.join(out))
