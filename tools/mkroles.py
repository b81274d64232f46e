#!/usr/bin/env python3
"""Development tool: derive roles.json from the behaviour of the scalar build and print where it differs from the documentation."""
import sys, os, json; sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from cg import build, cmp
from checks import c05
fns = build.inventory('scalar')
names = [n for n in cmp.api() if n.startswith(('glm_', 'glms_'))]
I, bad = cmp.insts_of(fns, names)
print('not analysed:', bad)
I = [i for i in I if not i.fn.name.endswith('decasteljau')]
out = {}
order = ['in', 'out', 'part', 'inout']
mod = cmp.compile_insts(I, 'scalar')
for i in I:
    r = cmp.evaluate(mod, i)
    if r.err: print(i.wname, r.err); continue
    pp = c05.pos(i)
    d = out.setdefault(i.fn.name, {})
    for p, role in c05.observe(i, r).items():
        k = pp[p]
        d[k] = max(d.get(k, 'in'), role, key=order.index)
json.dump({k: out[k] for k in sorted(out) if out[k]}, open('/verif/roles.json', 'w'), indent=0, sort_keys=True)
print(len(out))
