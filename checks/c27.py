"""C27: effective types — objects are accessed only through their element type (or a type that may alias everything)."""
import re
from cg import build, model, cmp, llir
from cg.driver import Events, Broken, pmap
from checks import c07

CFGS = ['scalar', 'sse2', 'sse4dot', 'avx2fma', 'neon64', 'wasm']
MORE = ['sse2_nid', 'sse3dot', 'avx', 'avx_fma_nid', 'neon32', 'wasm_relaxed', 'sse2_unal', 'scalar_unal']
ANY = {'omnipotent char'}
ELEM = {'f': {'float'}, 'i': {'int', 'glm_euler_seq'}, 'b': {'bool', '_Bool', 'int'}, 'z': {'long', 'int'}, 'd': {'double'}}
NAME = {'float': 'float', 'i32': 'int', 'double': 'double', 'i64': 'long', 'ptr': 'any pointer', 'i8': 'bool', 'i16': 'short'}

def tags(mod):
    """!N of an access tag -> name of the type it accesses"""
    def scalar(n):
        m = re.search(r'!"([^"]*)"', mod.dbg.get(n, '')); return m.group(1) if m else None
    def tag(n):
        m = re.match(r'(?:distinct )?!\{(![0-9]+), (![0-9]+), i64 \d+', mod.dbg.get(n, '').strip())
        return scalar(m.group(2)) if m else None
    return tag

def leaves(mod, t, out, depth=0):
    """element kinds of an IR type; None when it holds a union"""
    if depth > 8: return
    if t[0] == 'a' or t[0] == 'v': leaves(mod, t[2], out, depth + 1)
    elif t[0] == 's':
        for x in t[1]: leaves(mod, x, out, depth + 1)
    elif t[0] == 'n':
        if 'union' in t[1]: out.add(None)
        else: leaves(mod, mod.types[t[1]], out, depth + 1)
    elif t[0] == 'f': out.add('float' if t[1] == 32 else 'double')
    elif t[0] == 'i': out.add(NAME.get('i%d' % t[1]))
    elif t[0] == 'ptr': out.add('any pointer')
    else: out.add(None)

def run(ck):
    ck.level = 'proof'
    ck.explanation = ('Type-based alias rule over the IR of every public function: clang is asked for its access tags (what C type every load and store names), pointers are followed back to the '
                      'parameter or local object they address, and the named type must be the element type of that object, or a type that may alias any (character types, the vector types of the '
                      'intrinsics headers, members of a union).')
    ck.assumptions = ['clang 18 emits for every access the C type that the source names (TBAA access tags)']
    fns = build.inventory('scalar')
    names = [n for n in cmp.api() if n.startswith(('glm_', 'glms_')) and ck.wants(n)]
    insts, bad = cmp.insts_of(fns, names, counts=(2,))
    def one(cfg):
        E = Events()
        ll = build.compile_bc(build.HEAD + '\n'.join(i.text for i in insts) + '\n', cfg, ('-fstrict-aliasing',), passes=c07.PASSES)
        mod = llir.parse(ll, lambda n: n.startswith('W_'))
        tag = tags(mod)
        for i in insts:
            head, body = mod.funcs[i.wname]
            args = re.findall(r'ptr [^,%]*(%[-\w.$]+)', head[head.index('@'):])
            objs = [s for s in i.slots if s.kind == 'obj']
            key = '%s|%s' % (i.wname[2:], cfg)
            if len(args) != len(objs): E.undecide(key, 'parameters %s' % args); continue
            kinds = {a: set(ELEM[s.elem]) for a, s in zip(args, objs)}
            for l in body:
                m = re.match(r'^\s*(%\S+) = alloca (.*?), align \d+', l)
                if m:
                    k = set()
                    leaves(mod, llir.P(llir.tokenize(m.group(2)), mod).type(), k)
                    kinds[m.group(1)] = None if None in k else k
            bd = []; cnt = [0, 0]
            def each(tgt, s, what):
                if what not in ('load', 'store'): return
                m = re.search(r'!tbaa (!\d+)', s)
                if not m: cnt[1] += 1; return
                t = tag(m.group(1))
                if t is None or t in ANY: cnt[1] += 1; return
                for r in tgt:
                    k = kinds.get(r)
                    if k is None: continue
                    cnt[0] += 1
                    if t not in k: bd.append((r, t, what, s))
            try: c07.analyse(mod, head, body, {a: 4 for a in args}, {}, each)
            except (ValueError, KeyError, IndexError) as e: E.undecide(key, 'engine: %s' % e); continue
            E.count('functions'); E.count('typed accesses', cnt[0]); E.count('accesses that may alias any type', cnt[1])
            if bd:
                r, t, what, s = bd[0]
                m = re.search(r'!dbg (!\d+)', s); w = llir.dbg_line(mod, m.group(1)) if m else ''
                E.violate(key, '%s of %s through type %s, although its elements are %s (%s)' % (what, dict(zip(args, [x.name for x in objs])).get(r, 'the local object ' + r), t, '/'.join(sorted(kinds[r])),
                          ' <- '.join('%s:%s %s' % (str(f).split('/include/')[-1], l, n_) for f, l, n_ in w[:3])))
            else: E.discharge(1, {'function': i.fn.name, 'configuration': cfg, 'typed accesses': cnt[0]} if len(E) < 12 else None)
        E.count('configurations')
        return E
    cfgs = CFGS + (MORE if ck.thorough else [])
    pmap(ck, one, cfgs)
    ck.extra = {'checker_cmd': './check C27', 'trusted_base': ['clang 18 front end (access tags)', 'opt 18 (inlining, mem2reg)', 'checks/c27.py']}
    ck.floors({'functions': 1600 * len(cfgs), 'typed accesses': 5000 * len(cfgs), 'configurations': len(cfgs)})
