"""C10: rectangular matrices: products, transposes, copies."""
from cg import spec
def run(ck): spec.run_spec(ck, ['c10.h'], quick=['scalar', 'sse2', 'avx2fma', 'neon64', 'wasm'], floor=200, parts=1)
