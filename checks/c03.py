"""C03: every SIMD backend computes the same function as the scalar code."""
from cg import build, model, cmp, alg, pre
from cg.driver import Events, Broken, pmap

QUICK = ['sse2', 'sse1', 'sse2_nid', 'sse3', 'sse3dot', 'sse4', 'sse4dot', 'avx', 'avx2fma', 'avx_fma_nid',
         'sse2_unal', 'avx_unal', 'neon64', 'neon32', 'wasm', 'wasm_relaxed']
FLOOR = 1600

def run(ck):
    ck.level = 'translation_validation'
    ck.explanation = ('Every public inline function is compiled for each SIMD configuration and for the scalar code; the value graphs of everything it writes '
                      'are normalised (intrinsics have lane-wise meanings) and compared cell by cell, for all inputs. Documented preconditions (affine last rows) '
                      'are the only restriction; functions documented as using estimates are compared with the estimate read as exact.')
    ck.assumptions = ['value graphs are compared as functions over the reals (rounding-level differences are not distinguished)',
                      'lane semantics of the SSE/AVX/FMA/NEON/WASM intrinsics as LLVM defines them']
    fns = build.inventory('scalar')
    names = [n for n in cmp.api() if n.startswith(('glm_', 'glms_')) and ck.wants(n)]
    insts, bad = cmp.insts_of(fns, names)
    base = cmp.compile_insts(insts, 'scalar')
    ref = {i.wname: cmp.evaluate(base, i) for i in insts}
    def xf(i):
        n = i.fn.name
        p = pre.subst_for(n, [s.name for s in i.slots])
        if n.endswith('_fast'):
            q = pre.exact_recip
            return q if p is None else (lambda x: p(q(x)))
        return p
    def one(cfg):
        E = Events()
        mod = cmp.compile_insts(insts, cfg)
        for i in insts:
            key = '%s|%s' % (i.wname[2:], cfg)
            a = ref[i.wname]; b = cmp.evaluate(mod, i)
            if a.err or b.err:
                if cmp.lockstep(base, i.wname, mod, i.wname): E.discharge(1)
                else: E.undecide(key, a.err or b.err)
                continue
            if b.res.refinements < 2 * b.res.estimates and not i.fn.name.endswith('_fast'):
                E.violate(key, 'uses %d reciprocal estimates with only %d refinement steps' % (b.res.estimates, b.res.refinements))
                continue
            cmp.compare_vals(key, a.vals, b.vals, E, 'scalar', cfg, xform=xf(i))
            E.count('comparisons')
        E.count('configurations')
        return E
    cfgs = QUICK
    pmap(ck, one, cfgs)
    ck.counts['programs'] = ck.counts.get('comparisons', 0)
    ck.floors({'comparisons': 24000, 'configurations': len(cfgs)})
