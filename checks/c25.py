"""C25: Perlin noise."""
from cg.spec import run_spec
def run(ck): run_spec(ck, ['c25.h'], floor=12, quick=['scalar', 'sse2', 'avx2fma', 'neon64'], parts=3)
