#!/usr/bin/env python3
"""Development tool: record the declared shape of every array parameter (shapes.json), so that a parameter
written another way with the same C type (vec3 v / float v[3] / float *v) keeps its extent."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from cg import build, decls
decls.SHAPES = {}
out = {}
for cfg in ('scalar', 'sse2', 'avx2fma', 'neon64', 'wasm'):
    for n, f in build.inventory(cfg).items():
        r = {str(k): [p.base, p.dims, p.ptr] for k, p in enumerate(f.params) if p.ptr != 'fn' and decls.decay(p)}
        if r: out[n] = r
json.dump({k: out[k] for k in sorted(out)}, open(build.VERIF + '/shapes.json', 'w'), separators=(',', ':'), indent=None)
print(len(out))
