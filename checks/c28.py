"""C28: math domains — rounding cannot take the argument of a square root or inverse trigonometric function out of its domain."""
import re
from cg import build, model, cmp, llir, dom
from cg.driver import Events, Broken, pmap

CFGS = ['scalar', 'sse2', 'sse4dot', 'avx2fma', 'neon64']
MORE = ['sse2_nid', 'sse3dot', 'avx', 'avx_fma_nid', 'neon32']
# what the documentation asks of the argument
PRE = {r'^glm_ease_': (0.0, 1.0), r'^glm_vec[234]_sqrt$': (0.0, dom.INF)}

def run(ck):
    ck.level = 'other'
    ck.explanation = ('Interval analysis of the machine arithmetic on gated SSA form: every stored value and every branch condition that a square root, arc sine, arc cosine, logarithm or power feeds is evaluated '
                      'under the conditions that hold on the way to it (branches, selects, joins). Intervals are closed under rounding (monotone), a square is non-negative, and sums and differences compared on the '
                      'path are combined linearly. An argument that may lie outside the function\'s domain where its result is used is reported.')
    ck.assumptions = ['inputs are numbers (no NaN) and intermediate results do not overflow', 'glm_ease_*: t in [0, 1]; vec*_sqrt: non-negative elements']
    fns = build.inventory('scalar')
    names = [n for n in cmp.api() if n.startswith('glm_') and ck.wants(n)]
    insts, bad = cmp.insts_of(fns, names, counts=(2,))
    def one(cfg):
        E = Events()
        mod = cmp.compile_insts(insts, cfg)
        for i in insts:
            key = '%s|%s' % (i.wname[2:], cfg)
            body = mod.funcs[i.wname][1]
            if not any(re.search(r'(sqrt|acos|asin|log|pow)', l) and 'call' in l for l in body): E.count('without domain-limited calls'); continue
            pre = next((v for r, v in PRE.items() if re.match(r, i.fn.name)), None)
            try:
                with cmp.limit(cmp.LIMIT): found, n = dom.look(mod, i.wname, pre)
            except (dom.Limit, cmp.alg.Budget): E.undecide(key, 'budget'); continue
            except (KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError) as e:
                E.undecide(key, 'engine: %s %s' % (type(e).__name__, e)); continue
            E.count('functions'); E.count('calls', n)
            for name, iv, what, ins, opq in found:
                w = llir.dbg_line(mod, ins.dbg) if ins is not None and ins.dbg else ()
                at = ' <- '.join('%s:%s %s' % (str(f).split('/include/')[-1], l, n_) for f, l, n_ in w[:3])
                if opq: E.undecide(key, 'argument of %s depends on a value that is not modelled (%s)' % (name, at)); continue
                if iv == 'jump': E.violate(key, '%s beyond its domain by rounding: %s (%s)' % (name, what, at)); continue
                E.violate(key, 'argument of %s may be anywhere in [%g, %g] where its result is %s (%s)' % (name, *iv, what, at))
            if not found: E.discharge(1, {'function': i.fn.name, 'configuration': cfg, 'calls': n} if len(E) < 12 else None)
        E.count('configurations')
        return E
    cfgs = CFGS + (MORE if ck.thorough else [])
    pmap(ck, one, cfgs)
    ck.extra = {'checker_cmd': './check C28', 'trusted_base': ['clang/opt 18', 'cg/dom.py', 'correctly rounded or monotone +, -, *, /, sqrt']}
    ck.floors({'functions': 60 * len(cfgs), 'configurations': len(cfgs)})
