"""C16: projections and views map the documented volume to clip space, for both hands and both depth ranges."""
from cg import spec
ALLC = ('rh_no', 'rh_zo', 'lh_no', 'lh_zo')
def run(ck): spec.run_spec(ck, ['c16.h'], quick=['scalar', 'sse2'], clips=ALLC, floor=500)
