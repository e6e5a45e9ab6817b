#!/usr/bin/env python3
"""Rewrites DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import collections, glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = collections.defaultdict(list)
for f in glob.glob(root + '/seeded/*/meta.json'):
    g[json.load(open(f))['property']].append(os.path.basename(os.path.dirname(f)).split('-', 1)[1])
p = root + '/DESIGN.md'
s = open(p).read()
i = s.index('| property | `seeded/cNN-...` |')
j = s.index('\n\n', i)
t = '| property | `seeded/cNN-...` |\n|----|----|\n' + '\n'.join('| %s | %s |' % (k, ', '.join(sorted(g[k]))) for k in sorted(g))
open(p, 'w').write(s[:i] + t + s[j:])
