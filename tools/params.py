#!/usr/bin/env python3
"""Development tool: record the name of every parameter (params.json); a renamed parameter is read under its recorded name."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from cg import build, decls
decls.NAMES = {}
out = {}
def take(fns):
    for n, f in fns.items():
        if f.params and all(p.name for p in f.params): out.setdefault(n, [p.name for p in f.params])
for cfg in ('scalar', 'sse2', 'avx2fma', 'neon64', 'wasm'): take(build.inventory(cfg))
for clip in sorted(build.CLIP): take(build.inventory('scalar', build.CLIP[clip]))
json.dump({k: out[k] for k in sorted(out)}, open(build.VERIF + '/params.json', 'w'), separators=(',', ':'), indent=None)
print(len(out))
