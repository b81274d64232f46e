"""C04: in-place use — a destination that is the same object as an input gives the same result as a separate one."""
import itertools, json, re
from cg import build, model, cmp, alg
from cg.driver import Events, Broken, pmap

CFGS = ['scalar', 'sse2', 'sse4dot', 'avx', 'avx2fma', 'neon64', 'wasm']
MORE = ['sse3dot', 'sse2_nid', 'neon32', 'wasm_relaxed', 'sse2_unal', 'avx_unal', 'scalar_unal']

def outs_ins(i, r):
    """(written object slots, other object slots)"""
    w = {k[0] for k in r.res.writes}
    return [s for s in i.slots if s.kind == 'obj' and s.name in w and s is not i.ret], [s for s in i.slots if s.kind == 'obj' and s is not i.ret]

def combos(i, r):
    outs, objs = outs_ins(i, r)
    wn = {o.name for o in outs}
    for o in outs:
        same = [s for s in objs if s is not o and s.elem == o.elem and s.cells == o.cells and s.name not in wn]
        for k in ((1, 2) if len(same) == 2 else (1,)):
            for c in itertools.combinations(same, k):
                yield o, c

def run_one(E, mod, i, cfg, table, alias_ok):
    if not any(s.kind == 'obj' and s is not i.ret for s in i.slots): E.count('no objects'); return
    r = cmp.evaluate(mod, i)
    if r.err: E.undecide('%s|%s' % (i.wname[2:], cfg), r.err); return
    for o, c in combos(i, r):
        key = '%s|%s==%s' % (i.fn.name, o.name, '=='.join(s.name for s in c))
        if key in table: E.count('excepted'); continue
        # a restrict-qualified parameter promises the compiler that the objects are different
        rs = [x.name for x in (o,) + c if x.param is not None and not (x.param.dims and x.param.ptr) and re.search(r'\brestrict\b', x.param.text)]
        if rs and o.ctype == c[0].ctype: E.violate(key + '/' + cfg, 'parameter %s is declared restrict, so in-place use is undefined' % ', '.join(rs)); continue
        alias = {o.name: c[0].name}
        for s in c[1:]: alias[s.name] = c[0].name
        a = cmp.evaluate(mod, i, alias=alias)
        E.count('alias patterns')
        if a.err: E.undecide(key + '/' + cfg, a.err); continue
        d = {}
        for s in (o,) + c[1:]:
            for k in range(s.cells):
                d[alg.atom('in', s.name, k, s.elem)] = alg.var(alg.atom('in', c[0].name, k, s.elem))
        sub = alg.Subst(atoms=d).poly
        try:
            want = [None if x is None else sub(x) for x in r.vals[o.name]]
        except alg.Budget as e:
            E.undecide(key + '/' + cfg, str(e)); continue
        va = {o.name: a.vals[o.name]}; vb = {o.name: want}
        for s in i.slots:
            if s.kind == 'obj' and s is not o and s not in c:
                va[s.name] = a.vals[s.name]
                vb[s.name] = [None if x is None else sub(x) for x in r.vals[s.name]]
        cmp.compare_vals(key + ('' if not i.tag else '/' + i.tag.strip('_')) + '/' + cfg, va, vb, E, 'aliased', 'separate')

def run(ck):
    ck.level = 'proof'
    ck.explanation = ('For every public array-API function, every destination parameter and every input parameter of the same type, the function is analysed twice: '
                      'with separate objects and with destination and input being one object. The normalised value graph of everything written must be the same.')
    ck.assumptions = ['value graphs are compared as functions over the reals', 'alias_exceptions.json lists, with reasons, the parameter pairs for which in-place use is not offered']
    table = json.load(open(build.VERIF + '/alias_exceptions.json')) if not ck.__dict__.get('raw') else {}
    fns = build.inventory('scalar')
    names = [n for n in cmp.api() if n.startswith('glm_') and ck.wants(n)]
    insts, bad = cmp.insts_of(fns, names, counts=(1, 2))
    def one(cfg):
        E = Events()
        mod = cmp.compile_insts(insts, cfg)
        for i in insts: run_one(E, mod, i, cfg, table, None)
        E.count('configurations')
        return E
    pmap(ck, one, CFGS + (MORE if ck.thorough else []))
    ck.extra = {'checker_cmd': './check C04', 'trusted_base': ['clang 18 front end', 'opt 18 (inlining, SROA, unrolling)', 'cg/ev.py, cg/alg.py']}
    ck.floors({'alias patterns': 600 * len(CFGS), 'configurations': len(CFGS)})
