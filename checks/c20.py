"""C20: scalar utilities, easing, cubic curves, colour.
The curve inversion loops a fixed number of times over one body: it is decided with the bound cut to 3 rounds, in a copy of the current header."""
import re, os
from cg import spec, build
def short_loop(n):
    t = open(build.REPO + '/include/cglm/bezier.h').read()
    t, k = re.subn(r'(#\s*define\s+CGLM_DECASTEL_MAX\s+)\S+', r'\g<1>%d' % n, t)
    if not k: return None
    p = '%s/bezier_%d.h' % (build.tmpdir(), n)
    open(p, 'w').write(re.sub(r'#(\s*)include\s+"(?!cglm/)', r'#\1include "cglm/', t))
    return '#include "%s"\n' % p
def run(ck):
    spec.run_spec(ck, ['c20.h'], quick=['scalar', 'sse2'], floor=100)
    h = short_loop(3)
    if h: spec.run_spec(ck, ['c20b.h'], quick=['scalar'], more=[], pre=h, parts=1)
