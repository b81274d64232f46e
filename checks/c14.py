"""C14: affine transforms compose on the documented side, 3D and 2D."""
from cg import spec
def run(ck): spec.run_spec(ck, ['c14.h'], quick=['scalar', 'sse2', 'sse4dot', 'avx2fma', 'neon64', 'wasm'], floor=60)
