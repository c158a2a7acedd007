"""Groups every failure of a check (development aid): survey.py ID [tier] [key]"""
import sys, re, importlib, collections
import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
core.load_target()
core.MAX_VIOLATIONS_PER_ITEM = 6
check = importlib.import_module('mc.checks.' + sys.argv[1].lower())
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
key = sys.argv[3] if len(sys.argv) > 3 else 'tree'
core._check = check
import multiprocessing
items = check.items(tier)
with multiprocessing.get_context('fork').Pool(8, initializer=core._init_worker) as pool:
    g = collections.OrderedDict()
    n = 0
    for idx, r, err in pool.imap_unordered(core._work, list(enumerate(items))):
        if err:
            print('ERR', err); continue
        n += r['traces']
        for v in r['violations']:
            k = (str(v['case'].get(key)) if isinstance(v['case'], dict) else str(v['case'])[:30], re.sub(r'-?\d+(\.\d+)?', '#', v['message'])[:120])
            g.setdefault(k, []).append(v)
print(n, 'traces')
for k, vs in sorted(g.items()):
    print(len(vs), k)
    print('      ', str(vs[0]['case'])[:500])
    print('      ', vs[0]['message'][:500])
