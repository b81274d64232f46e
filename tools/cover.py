"""public glm_ functions no reference definition or law mentions"""
import re, glob, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from cg import build
seen = set()
for f in glob.glob('specs/*.h'):
    hd = build.HEAD + '#include "%s"\n' % os.path.basename(f)
    for clip in ('rh_no', 'lh_zo'):
        fns = build.inventory('scalar', build.CLIP[clip], hd)
        for n in fns:
            if n.startswith('S_'): seen.add('glm_' + n[2:])
    seen |= set(re.findall(r'\bglm_\w+', open(f).read()))
    t = open(f).read()
fns = build.inventory('scalar', build.CLIP['rh_no'], build.HEAD)
un = [n for n in sorted(fns) if n.startswith('glm_') and n not in seen]
print(len(un)); print(' '.join(un))
