"""C18: boxes and spheres: transforms, merges, crops and exact containment tests."""
from cg import spec
def run(ck): spec.run_spec(ck, ['c18.h'], quick=['scalar', 'sse2'], floor=70)
