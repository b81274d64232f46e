"""C11: vec2/vec3/vec4 functions have their documented componentwise meaning."""
from cg import spec
def run(ck): spec.run_spec(ck, ['c11.h'], quick=['scalar', 'sse2', 'sse3dot', 'sse4dot', 'avx2fma', 'neon64', 'wasm'], floor=2200, parts=2)
