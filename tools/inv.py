"""prints the inventory: tools/inv.py REGEX"""
import sys, re; sys.path.insert(0, '/verif')
from cg import build
fns = build.inventory('scalar')
for n, f in sorted(fns.items()):
    if re.search(sys.argv[1], n): print(f.ret, n, '(' + ', '.join(p.text for p in f.params) + ')')
