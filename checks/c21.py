"""C21: print functions write the documented text, all of it and in order, to the given stream; they are no-ops when disabled."""
import re
from cg import build, llir, prints, alg, ev, cmp
from cg.driver import Events, Broken, pmap

CELLS = {'mat4': ('f', 16), 'mat3': ('f', 9), 'mat2': ('f', 4), 'vec4': ('f', 4), 'vec3': ('f', 3), 'vec2': ('f', 2), 'versor': ('f', 4),
         'ivec4': ('i', 4), 'ivec3': ('i', 3), 'ivec2': ('i', 2)}
OPTS = {'default': [], 'NDEBUG, CGLM_DEFINE_PRINTS': ['-DNDEBUG', '-DCGLM_DEFINE_PRINTS'], 'NDEBUG, CGLM_NO_PRINTS_NOOP': ['-DNDEBUG', '-DCGLM_NO_PRINTS_NOOP'],
        'NDEBUG': ['-DNDEBUG'], 'precision 2, limit 10, no colour': ['-DCGLM_PRINT_PRECISION=2', '-DCGLM_PRINT_MAX_TO_SHORT=10.0f', '-DGLM_TESTS_NO_COLORFUL_OUTPUT']}
QUICK = [('sse2', o) for o in OPTS] + [(c, 'default') for c in ('scalar', 'avx', 'neon64', 'neon32', 'wasm')]

def targets():
    """(function, C parameters, call text of the function, name in specs/c21.h, slots)"""
    out = []
    for t, (e, n) in CELLS.items():
        s = [('x', 'obj', e, n), ('f', 'stream', None, 0)]
        ct = 'float' if e == 'f' else 'int'
        for p in ('glm', 'glms', 'glmc'):
            if p == 'glms' and t == 'mat2' or p == 'glmc' and t not in ('mat4', 'mat3', 'vec4', 'vec3', 'versor'): continue
            ty = t + 's' if p == 'glms' else t
            arg = '*x' if p == 'glms' else 'x'
            out.append(('%s_%s_print' % (p, t), '%s x, FILE *f' % (ty + ' *' if p == 'glms' else ty), '%s, f' % arg, '%s_print(%s, f)' % (t, '(%s *)x' % ct), s))
    s = [('x', 'obj', 'f', 6), ('tag', 'str', None, 0), ('f', 'stream', None, 0)]
    for p, ty in (('glm', 'vec3'), ('glms', 'vec3s')):
        out.append(('%s_aabb_print' % p, '%s x[2], const char *tag, FILE *f' % ty, 'x, tag, f', 'aabb_print((float *)x, tag, f)', s))
    s = [('f', 'stream', None, 0)]
    for n in ('arch_print', 'arch_print_name'): out.append(('glm_' + n, 'FILE *f', 'f', n + '(f)', s))
    return out

def run(ck):
    ck.level = 'translation_validation'
    ck.explanation = ('Every output call a print function can reach is folded, over all its paths, into one symbolic text (characters, conversions of operand elements, choices by the size of a number); '
                      'it must be the text the reference in specs/c21.h describes, on the stream given, with the operands left unchanged. Column widths are symbolic lengths.')
    ck.assumptions = ['printf-family functions behave as ISO C says', 'numbers are compared as reals: a float and its conversion to double are the same number']
    tg = [t for t in targets() if ck.wants(t[0])]
    def one(it):
        cfg, opt = it
        E = Events()
        src = build.HEAD + '#include "c21.h"\n'
        for f, ps, call, ref, _ in tg:
            src += 'void W_%s(%s) { %s(%s); }\n' % (f, ps, f, call)
            src += 'void V_%s(%s) { P_%s; }\n' % (f, ps, ref)
        mod = llir.parse(build.compile_bc(src, cfg, OPTS[opt], libsrc=any(t[0].startswith('glmc_') for t in tg)), lambda n: n.startswith(('W_', 'V_')))
        for f, ps, call, ref, slots in tg:
            for null in ([], ['tag']) if 'aabb' in f else ([],):
                key = '%s%s|%s, %s' % (f, ', no tag' if null else '', cfg, opt)
                E.count('comparisons')
                try:
                    with cmp.limit(cmp.LIMIT):
                        a, ea = prints.run(mod, 'W_' + f, slots, null)
                        b, eb = prints.run(mod, 'V_' + f, slots, null)
                        if opt == 'NDEBUG' and not f.startswith('glmc_'): b = prints.EMPTY
                        r, t = prints.compare(a, b)
                        o, ot = prints.overflow(ea)
                except (ev.Unsupported, alg.Budget) as e:
                    E.undecide(key, str(e)); continue
                if ea.wrong: E.violate(key, ea.wrong[0]); continue
                if ea.res.writes: E.violate(key, 'modifies its operand (%s)' % sorted(k[0] for k in ea.res.writes)[0]); continue
                if ea.res.oob: E.violate(key, 'accesses %s outside its bounds' % ea.res.oob[0][1]); continue
                if o == 'ne': E.violate(key, 'overruns a local buffer: ' + ot); continue
                if r == 'ne': E.violate(key, 'prints another text: ' + t, code=prints.show(a), reference=prints.show(b))
                elif 'und' in (r, o): E.undecide(key, t or ot)
                else: E.discharge(1, {'obligation': key, 'text': prints.show(a)[:120]})
        E.count('configurations')
        return E
    pmap(ck, one, QUICK + ([(c, o) for c in ('scalar', 'avx2fma', 'wasm') for o in OPTS if o != 'default'] if ck.thorough else []))
    ck.counts['programs'] = ck.counts.get('comparisons', 0)
    ck.floors({'comparisons': 300})
