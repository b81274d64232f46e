"""C19: planes, frustum extraction and ray intersections."""
from cg import spec
ALLC = ('rh_no', 'rh_zo', 'lh_no', 'lh_zo')
def run(ck): spec.run_spec(ck, ['c19.h'], quick=['scalar', 'sse2'], clips=("rh_no", "rh_zo"), clips_more=ALLC, floor=20)
