"""C08: functions without a clip-space suffix are the variant of the configured clip space and handedness."""
import re
from cg import build, model, cmp, llir, spec
from cg.driver import Events, Broken, pmap

CFG = ('rh_no', 'rh_zo', 'lh_no', 'lh_zo')
FAMILY = {'full': {c: '_' + c for c in CFG},
          'depth': {c: c[2:] for c in CFG},
          'hand': {c: '_' + c[:2] for c in CFG}}

def families(fns):
    """(generic or fuller name, kind) whose variants all exist with the same parameters"""
    for n, f in sorted(fns.items()):
        if not n.startswith(('glm_', 'glms_')) or not f.has_body: continue
        for k, sfx in FAMILY.items():
            vs = {n + s for s in sfx.values()}
            if all(v in fns and fns[v].has_body and [p.base for p in fns[v].params] == [p.base for p in f.params] for v in vs):
                yield n, k

def run(ck):
    ck.level = 'translation_validation'
    ck.explanation = ('Every function for which variants with all the suffixes of a family (_lh_no.., _no/_zo, _lh/_rh) exist is compiled in each clip-space setting and compared '
                      'with the variant of that setting by value graph; variants of the same handedness which do not depend on the depth range are compared with each other.')
    ck.assumptions = ['values are compared as functions over the reals']
    cfgs = ['scalar', 'sse2'] + (spec.ALL[2:] if ck.thorough else [])
    def one(it):
        cfg, clip, all_ = it
        E = Events()
        extra = list(build.CLIP[clip]) + (['-DCGLM_CLIPSPACE_INCLUDE_ALL'] if all_ else [])
        fns = build.inventory('scalar', extra, build.HEAD)
        texts, todo = [], []
        for n, k in families(fns):
            if not ck.wants(n): continue
            v = n + FAMILY[k][clip]
            names = [(n, v)]
            if re.search(r'look', n) and k == 'full':        # eye space has no depth range
                o = n + '_' + clip[:2] + ('_no' if clip.endswith('zo') else '_zo')
                names.append((v, o))
                if n + '_' + clip[:2] in fns: names.append((v, n + '_' + clip[:2]))
            for a, b in names:
                for i in model.instances(fns[a]):
                    w = i.wname.replace('W_', 'V_%d_' % len(todo), 1)
                    wa = 'W_%d_' % len(todo) + i.wname
                    texts += [i.text.replace(i.wname + '(', wa + '(', 1), spec.text_as(i, a, b, w)]
                    todo.append((a, b, i, wa, w))
            E.count('dispatched functions')
        if not todo: return E
        mod = llir.parse(build.compile_bc(build.HEAD + '\n'.join(texts) + '\n', cfg, extra), lambda n: n.startswith(('W_', 'V_')))
        for a, b, i, wa, w in todo:
            key = '%s = %s%s|%s/%s%s' % (a, b, i.tag, cfg, clip, '+all' if all_ else '')
            x = cmp.evaluate(mod, spec.clone(i, wa)); y = cmp.evaluate(mod, spec.clone(i, w))
            E.count('programs')
            if x.err or y.err:
                if cmp.lockstep(mod, wa, mod, w): E.discharge(1)
                else: E.undecide(key, x.err or y.err)
                continue
            cmp.compare_vals(key, x.vals, y.vals, E, a, b)
        E.count('configurations')
        return E
    items = [(c, k, a) for c in cfgs for k in CFG for a in (0, 1)]
    pmap(ck, one, items)
    ck.floors({'configurations': len(items), 'programs': 60 * len(items)})
