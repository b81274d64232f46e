"""C15: Euler angles: six orders, matrices, quaternions, extraction; both hands."""
from cg import spec
def run(ck): spec.run_spec(ck, ['c15.h'], quick=['scalar', 'sse2'], clips=('rh_no', 'lh_zo'), clips_more=('rh_no', 'rh_zo', 'lh_no', 'lh_zo'), floor=100)
