"""C12: ivec2/ivec3/ivec4 functions have their documented componentwise meaning."""
from cg import spec
def run(ck): spec.run_spec(ck, ['c12.h'], quick=['scalar', 'sse2', 'avx2fma', 'neon64', 'wasm'], floor=500, parts=1)
