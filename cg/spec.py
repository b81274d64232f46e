"""Checks against reference definitions: specs/<file>.h defines S_<x> for glm_<x> (same parameters), and law pairs L_<x> / R_<x>.
Both sides go through the same analysis; every cell either side writes must be equal for all inputs.
A reference may call the library function where the property says nothing (both sides are then equal there)."""
import re
from . import build, model, cmp, alg, llir
from .driver import Events, Broken, pmap

X86 = ['scalar', 'sse2', 'sse4dot', 'avx2fma']
ALL = ['scalar', 'sse2', 'sse2_nid', 'sse3dot', 'sse4dot', 'avx', 'avx2fma', 'avx_fma_nid', 'neon64', 'neon32', 'wasm', 'wasm_relaxed']

def text_as(i, frm, to, w):
    t = i.text.replace('void %s(' % i.wname, 'void %s(' % w, 1)
    return re.sub(r'\b%s\(' % re.escape(frm), to + '(', t)

def pairs(fns, names=None):
    """(library instance, reference instance, kind) for every S_ function and law"""
    out = []
    for n, f in sorted(fns.items()):
        if n.startswith('S_') and f.has_body:
            g = fns.get('glm_' + n[2:])
            if g is None: out.append((n, None, None)); continue
            if len(g.params) != len(f.params): out.append((n, None, None)); continue
            for i in model.instances(g):
                w = i.wname.replace('W_glm_', 'V_')
                out.append((n, i, text_as(i, g.name, n, w)))
        elif n.startswith('L_') and f.has_body:
            for i in model.instances(f):
                w = i.wname.replace('W_L_', 'V_R_')
                out.append((n, i, text_as(i, n, 'R_' + n[2:], w)))
    return out

def clone(i, w):
    j = model.Inst(); j.fn, j.tag, j.slots, j.ret, j.wname = i.fn, i.tag, i.slots, i.ret, w
    return j

def run_spec(ck, headers, quick=X86, more=ALL, clips=('rh_no',), clips_more=None, floor=0, xform=None, facts=None, parts=3, domain='', pre='', libsrc=False, perisa=False):
    ck.level = 'translation_validation'
    ck.explanation = ck.explanation or ('Every function named in specs/%s is compiled with its reference definition in each configuration; the value graphs of everything '
        'either side writes are normalised and compared cell by cell, for all inputs%s. Laws (pairs of compositions) are compared in the same way.' % (', '.join(headers), domain))
    ck.assumptions = ['values are compared as functions over the reals (rounding-level differences are not distinguished)',
                      'the reference definitions in specs/ state the intended mathematics']
    head = pre + build.HEAD + ''.join('#include "%s"\n' % h for h in headers)
    cfgs = [(c, k) for c in quick for k in clips]
    if ck.thorough: cfgs += [(c, k) for c in more for k in (clips_more or clips) if (c, k) not in cfgs]
    def one(it):
        (cfg, clip), part = it
        E = Events()
        extra = build.CLIP[clip]
        fns = build.inventory(cfg if perisa else 'scalar', extra, head)
        ps = [p for p in pairs(fns) if ck.wants(p[0])]
        for n, i, t in ps:
            if i is None: raise Broken('%s has no library counterpart of the same shape' % n)
        ps = [p for k, p in enumerate(ps) if k % parts == part]
        if not ps: return E
        texts = [p[1].text for p in ps] + [p[2] for p in ps]
        mod = llir.parse(build.compile_bc(head + '\n'.join(texts) + '\n', cfg, extra, libsrc=libsrc), lambda n: n.startswith(('W_', 'V_')))
        for n, i, t in ps:
            w = re.match(r'void (\w+)\(', t).group(1)
            key = '%s|%s/%s' % (i.wname[2:] if n[0] == 'S' else n[2:] + i.tag, cfg, clip)
            j = clone(i, w)
            a = cmp.evaluate(mod, i); b = cmp.evaluate(mod, j)
            E.count('comparisons')
            if a.err or b.err:
                if cmp.lockstep(mod, i.wname, mod, w): E.discharge(1)
                else: E.undecide(key, a.err or 'reference: ' + b.err)
                continue
            fx = facts(i, n) if facts else None
            cmp.compare_vals(key, a.vals, b.vals, E, 'code', 'reference', facts=fx, xform=xform(i, n) if xform else None)
        if part == 0: E.count('configurations')
        return E
    pmap(ck, one, [(c, p) for c in cfgs for p in range(parts)])
    ck.counts['programs'] = ck.counts.get('comparisons', 0)
    ck.floors({'comparisons': floor, 'configurations': len(cfgs)})
