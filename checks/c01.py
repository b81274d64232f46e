"""C01: the struct API computes exactly what the array API computes."""
from cg import build, model, cmp, alg, pairing
from cg.driver import Events, Broken, pmap

CFGS = [('scalar', 'rh_no'), ('scalar', 'lh_no'), ('scalar', 'rh_zo'), ('scalar', 'lh_zo'), ('sse2', 'rh_no'), ('avx2fma', 'rh_no'), ('scalar_raw', 'rh_no')]
MORE = [(c, 'rh_no') for c in ('sse3dot', 'sse4dot', 'avx', 'neon64', 'neon32', 'wasm', 'wasm_relaxed', 'sse2_nid')] + \
       [(c, k) for c in ('sse2', 'avx2fma', 'neon64', 'wasm') for k in ('lh_no', 'rh_zo', 'lh_zo')]
PACK = ('pack', 'unpack')

def names_for(si, ai, m, ri):
    """object renaming of the array wrapper so that both wrappers share input names; returns (names, result slot, pairs)"""
    # slots of an instance in declaration order, grouped by parameter
    def groups(i):
        g = {}
        for s in i.slots:
            if s.name == 'ret' and s is i.ret: continue
            g.setdefault(id(s.param), []).append(s)
        return g
    gs, ga = groups(si), groups(ai)
    names = {}; pairs = []
    for k, p in enumerate(si.fn.params):
        q = ai.fn.params[m[k]]
        S, A_ = gs.get(id(p), []), ga.get(id(q), [])
        if len(S) != len(A_): return None
        for x, y in zip(S, A_):
            names[y.name] = x.name
            pairs.append((x, y, p))
    return names, pairs

def values(E, mod, si, ai, key):
    """final values of the struct side and of the array side, under the names of the struct side"""
    m, ri = pairing.struct_to_array(si.fn, ai.fn)
    nm = names_for(si, ai, m, ri)
    if nm is None: E.undecide(key, 'parameter shapes differ'); return
    names, pairs = nm
    for s in ai.slots:
        if s.name not in names: names[s.name] = '$' + s.name
    a = cmp.evaluate(mod, si); b = cmp.evaluate(mod, ai, names=names)
    if a.err or b.err: E.undecide(key, a.err or b.err); return
    va, vb = {}, {}
    res = None
    if ri is not None: res = [s for s in ai.slots if s.param is ai.fn.params[ri]][0].name
    for x, y, p in pairs:
        if x.kind != 'obj': continue
        by_value = p.ptr == 0 and not p.dims and model.is_struct(p.base)
        if by_value:
            continue
        va[x.name], vb[x.name] = a.vals[x.name], b.vals[y.name]
    if si.ret:
        va['result'] = a.vals['ret']
        vb['result'] = b.vals[res] if res else b.vals.get('ret')
        if vb['result'] is None: E.undecide(key, 'no array result'); return
    return va, vb

def check(E, mod, si, ai, key):
    v = values(E, mod, si, ai, key)
    if v is None: return
    va, vb = v
    # by-value arguments of the array function other than the result must not be needed as outputs by the struct API
    facts = None
    if si.fn.name == 'glms_pickmatrix':
        # the array function leaves its destination alone unless both sides are positive; there is nothing to compare then
        facts = alg.Facts([(alg.var(alg.atom('in', 'size', k, 'f')), 1) for k in (0, 1)])
    cmp.compare_vals(key, va, vb, E, 'struct', 'array', facts=facts)

def pairs(E, fns, todo):
    """wrapper name -> (struct instance, array instance), and the instances of the array conversions"""
    insts = {}; packs = []
    for n in todo:
        base = n[5:]
        f = fns.get(n)
        if f is None: continue
        try:
            if base.split('_')[-1] in PACK:
                packs += model.instances(f); continue
            an = 'glm_' + ('vec3_negate' if base == 'vec3_flipsign' else base)
            g = fns.get(an)
            if g is None: E.note('no array sibling: ' + n); continue
            if pairing.struct_to_array(f, g) is None:
                E.undecide(n + '|shape', 'no parameter correspondence with ' + an); continue
            A_ = {i.tag: i for i in model.instances(g)}
            for i in model.instances(f):
                if i.tag in A_: insts[(i.wname)] = (i, A_[i.tag])
        except model.Unsupported as e:
            E.note('%s: %s' % (n, e))
    return insts, packs

def run(ck):
    ck.level = 'translation_validation'
    ck.explanation = ('For every public struct-API function the compiled value graph of its result (and of every object it writes through a pointer) '
                      'is normalised and compared with that of the array-API function of the same name, for all inputs, per configuration; '
                      'conversions between plain and struct arrays are compared with an element-wise copy.')
    ck.assumptions = ['value graphs are compared as functions over the reals (rounding-level differences are not distinguished)']
    fns = build.inventory('scalar')
    todo = []
    for n in cmp.api():
        if not n.startswith('glms_') or not ck.wants(n): continue
        todo.append(n)
    def one(cc):
        cfg, clip = cc
        E = Events()
        extra = list(build.CLIP[clip])
        if cfg == 'scalar_raw': cfg_ = 'scalar'; extra += ['-DCGLM_USE_ANONYMOUS_STRUCT=0']
        else: cfg_ = cfg
        insts, packs = pairs(E, fns, todo)
        allw = {}
        for i, j in insts.values(): allw[i.wname] = i; allw[j.wname] = j
        for i in packs: allw[i.wname] = i
        mod = cmp.compile_insts(list(allw.values()), cfg_, extra)
        for i, j in insts.values():
            check(E, mod, i, j, '%s|%s/%s' % (i.wname[2:], cfg, clip)); E.count('function instances')
        for i in packs:
            key = '%s|%s/%s' % (i.wname[2:], cfg, clip)
            o = cmp.evaluate(mod, i); E.count('function instances')
            if o.err: E.undecide(key, o.err); continue
            d, s = i.slots[0], i.slots[1]
            want = [alg.var(alg.atom('in', s.name, k, s.elem)) for k in range(s.cells)]
            cmp.compare_vals(key, {'dst': o.vals[d.name], 'src': o.vals[s.name]}, {'dst': want, 'src': want}, E, 'actual', 'copy')
        E.count('configurations')
        return E
    pmap(ck, one, CFGS + (MORE if ck.thorough else []))
    ck.counts['programs'] = ck.counts.get('function instances', 0)
    ck.floors({'function instances': 5000, 'configurations': len(CFGS)})
