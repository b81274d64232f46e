#!/usr/bin/env python3
"""Development tool: the table of planted changes in DESIGN.md, section 6, from seeded/*/meta.json and the output of tools/matrix.py.  usage: tools/table.py LOG"""
import sys, os, re, json, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r'(B\d+) (C\d+) (\[.*\])$', l)
    if m: res[m.group(1)] = ast.literal_eval(m.group(3))
rows = ['| change | property | breaks | needs | caught by |', '|---|---|---|---|---|']
for b in sorted(os.listdir(V + '/seeded'), key=lambda b: int(b[1:])):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    hit = [t[0] for t in res.get(b, []) if t[1].startswith('rc 1') and 'NO VIOL' not in t[1]]
    c = lambda s: s.replace('|', '\\|')
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], c(m['what_it_breaks']), c(m['needs']), ', '.join(hit) or 'missed'))
p = V + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'(<!-- table -->\n).*?(<!-- end of table -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
print(len(rows) - 2, 'changes,', sum('| missed |' in r for r in rows), 'missed')
