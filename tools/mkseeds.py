#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)) + '/..'
p = here + '/DESIGN.md'
s = open(p).read()
old = dict(re.findall(r'^\| (C\d\d-[a-z0-9-]+)\*? \| .* \| (.*) \|$', s, re.M))
missed = set(re.findall(r'^\| (C\d\d-[a-z0-9-]+)\* \|', s, re.M))
for w in os.environ.get('MISSED', '').split():
    missed.add(w)
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    rows.append('| %s%s | %s | %s |' % (d, '*' if d in missed else '', m['needs'], old.get(d, m['property'])))
a = s.index('| Bug | What it needs')
b = s.index('\n\n', a)
open(p, 'w').write(s[:a] + '| Bug | What it needs | Caught by |\n|---|---|---|\n' + '\n'.join(rows) + s[b:])
