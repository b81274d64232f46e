"""C17: project, unproject and pick agree with the viewport transform."""
from cg import spec
ALLC = ('rh_no', 'rh_zo', 'lh_no', 'lh_zo')
def run(ck): spec.run_spec(ck, ['c17.h'], quick=['scalar', 'sse2'], clips=ALLC, floor=100)
