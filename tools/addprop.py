"""Appends entries (a python list literal of dicts in a file) to mc/props.py; run tools/gen.py afterwards."""
import sys
path = '/verif/mc/props.py'
s = open(path).read()
new = open(sys.argv[1]).read().rstrip() + '\n'
i = s.index(']\n\nNOT_APPLICABLE')
s = s[:i] + new + s[i:]
open(path, 'w').write(s)
