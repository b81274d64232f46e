"""C26: the glmm_ helper layer means the same on every instruction set."""
from cg import spec
CF = ['sse2', 'sse1', 'fast', 'sse2_nid', 'sse3', 'sse3dot', 'sse4', 'sse4dot', 'avx', 'avx2fma', 'avx_fma_nid', 'sse2_unal', 'avx_unal', 'neon64', 'neon32', 'wasm', 'wasm_relaxed']
def run(ck): spec.run_spec(ck, ['c26.h'], quick=CF, more=CF, perisa=True, parts=1, floor=500)
