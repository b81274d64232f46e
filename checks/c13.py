"""C13: quaternion algebra, interpolation and conversions."""
from cg import spec
def run(ck): spec.run_spec(ck, ['c13.h'], quick=['scalar', 'sse2', 'sse4dot', 'avx2fma', 'neon64', 'wasm'], floor=100)
