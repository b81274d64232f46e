"""C30: copies, rearrangements, sign changes and constants are exact to the bit — no arithmetic touches a value that only moves."""
import re
from cg import build, model, cmp, alg, llir, spec, ev, pairing, pre
from checks import c01
from cg.driver import Events, Broken, pmap

HEADERS = ['c09.h', 'c10.h', 'c11.h', 'c13.h', 'c14.h', 'c15.h', 'c16.h', 'c17.h', 'c18.h', 'c19.h', 'c20.h', 'c24.h']
CFGS = [('scalar', 'rh_no'), ('sse2', 'rh_no'), ('avx2fma', 'rh_no'), ('neon64', 'rh_no'), ('wasm', 'rh_no'), ('scalar', 'lh_zo')]
LIB = [('scalar', 'rh_no'), ('sse2', 'rh_no')]
MORE = [(c, 'rh_no') for c in ('sse2_nid', 'sse3dot', 'sse4dot', 'avx', 'avx_fma_nid', 'neon32', 'wasm_relaxed')] + [('sse2', 'lh_no'), ('sse2', 'rh_zo')]

SIMD = ['sse2', 'sse4dot', 'avx2fma', 'neon64', 'wasm']
SIMD_MORE = ['sse2_nid', 'sse3', 'sse3dot', 'sse4', 'avx', 'avx_fma_nid', 'neon32', 'wasm_relaxed']

SEL = 'one of its operands, unchanged'
def move(p):
    """text when the value is a constant, an input element, its negation or its absolute value"""
    if p is None or type(p) is not alg.Poly: return None
    if alg.is_const(p): return 'the constant %s' % alg.const_val(p)
    if len(p.t) != 1: return None
    (m, c), = p.t.items()
    if len(m) != 1 or m[0][1] != 1 or abs(c) != 1: return None
    k = alg.ATOMS[m[0][0]]
    s = '-' if c < 0 else ''
    if k[0] == 'in' and k[3] == 'f': return '%s%s[%s]' % (s, k[1], k[2])
    if k[0] == 'abs' and move(k[1]) and not alg.is_const(k[1]): return '%s|%s|' % (s, move(k[1]))
    return None

def arith(p, seen=None):
    """the arithmetic operation met first in the value"""
    for a in sorted(alg.atoms_of(p)):
        k = alg.ATOMS[a]
        if k[0] == 'fn' and str(k[1]).startswith('~'): return k[1][1:]
    return None

def parts(p, out):
    """operations on the way of the value itself; what only decides between values does not count"""
    if isinstance(p, alg.Poly):
        for m in p.t:
            for a, _ in m:
                k = alg.ATOMS[a]
                if k[0] == 'fn' and str(k[1]).startswith('~'): out.add(k[1])
                elif k[0] == 'in': pass
                else:
                    if k[0] not in ('gamma', 'min', 'max', 'abs', 'NAN', 'INF', 'fn'): out.add(k[0])
                    if k[0] == 'fn': out.add('fn')
                    for x in k[1:]: parts(x, out)
    elif isinstance(p, (frozenset, tuple)):
        for x in p: parts(x, out)
    elif ev.isdd(p):
        for l in alg.dd_leaves(p): parts(l, out)

def leaves(p, out):
    if isinstance(p, alg.Poly):
        for m in p.t:
            for a, _ in m:
                k = alg.ATOMS[a]
                if k[0] == 'in': out.add((k[1], k[2]))
                else:
                    for x in k[1:]: leaves(x, out)
    elif isinstance(p, (frozenset, tuple)):
        for x in p: leaves(x, out)
    elif ev.isdd(p):
        for l in alg.dd_leaves(p): leaves(l, out)

def selects(p, own):
    """the value is one of several elements or constants, chosen by comparing elements (constants assigned under a guard do not count)"""
    if p is None or type(p) is not alg.Poly or move(p) or arith(p): return False
    if not any(alg.ATOMS[a][0] in ('gamma', 'min', 'max') for m in p.t for a, _ in m): return False
    out = set(); parts(p, out)
    if out: return False
    leaves(p, out)
    return bool(out - {own})

def wanted(vals):
    """the elements that only move: (object, index) -> what arrives there; elements the function leaves alone do not count alone"""
    w = {(s, k): move(v) or selects(v, (s, k)) and SEL for s, vs in vals.items() for k, v in enumerate(vs or ())}
    w = {(s, k): m for (s, k), m in w.items() if m}
    return w if any(m != '%s[%s]' % s for s, m in w.items()) else {}

def judge(E, key, name, cfg, code, ref):
    bad = und = None; n = 0
    want = wanted(ref)
    if not want: return
    E.count('functions')
    for (s, k), m in sorted(want.items()):
        v, r = code[s][k], ref[s][k]
        n += 1
        if v is None: bad = bad or '%s[%d] is left undefined, expected %s' % (s, k, m); continue
        if v is r or v == r: continue
        if m is SEL:
            out = set(); parts(v, out)
            op = sorted(x[1:] for x in out if x[0] == '~')
            if op: bad = bad or '%s[%d] should be %s, but goes through %s: %s' % (s, k, m, op[0], alg.show(v)[:200])
            continue
        op = arith(v)
        if op: bad = bad or '%s[%d] should be %s, unchanged, but goes through %s: %s' % (s, k, m, op, alg.show(v)[:200])
        else: und = und or '%s[%d]: %s instead of %s' % (s, k, alg.show(v)[:120], m)
    E.count('elements', n)
    if bad: E.violate(key, bad, function=name, configuration=cfg)
    elif und: E.undecide(key, und)
    else: E.discharge(n, {'function': name, 'configuration': cfg, 'elements': n} if len(E) < 10 else None)

def run(ck):
    ck.level = 'proof'
    ck.explanation = ('Bit-provenance data flow: the functions named in the reference headers are evaluated with floating-point arithmetic left uninterpreted (only x*1, x/1, x-0, x+(-0) and -0-x, which keep every bit, are simplified). '
                      'Wherever the definition of a result element is a plain constant, an operand element, its negation or its absolute value, the compiled code must deliver that very value with no arithmetic in between, '
                      'in every configuration, and so must the compiled-library and struct forms of the function. Every inline function is also held against its own scalar build: an element that only moves in one of the two must be the same move in the other. Arithmetic there would change signed zeros, infinities, NaN or denormals even where it is the identity over the reals.')
    ck.assumptions = ['the reference definitions in specs/ state which elements only move', 'compiler passes used to normalise the IR keep values bit for bit']
    def one(it):
        (cfg, clip), hdr = it
        head = build.HEAD + '#include "%s"\n' % hdr
        lib = (cfg, clip) in LIB
        E = Events()
        ev.EXACT = True
        extra = build.CLIP[clip]
        fns = build.inventory('scalar', extra, head)
        ps = [p for p in spec.pairs(fns) if p[0].startswith('S_') and ck.wants(p[0])]
        ps = [p for p in ps if p[1] is not None]
        if not ps: return E
        api = set(cmp.api())
        jobs = []           # (key, instance, wrapper, reference index)
        texts = []
        for k, (n, i, t) in enumerate(ps):
            texts += [i.text, t]
            w = re.match(r'void (\w+)\(', t).group(1)
            j = spec.clone(i, w)
            subs = [(i, i.wname)]
            c = 'glmc_' + n[2:]
            if lib and c in api and c in fns and len(fns[c].params) == len(i.fn.params):
                cw = 'X' + i.wname[1:]
                texts.append(spec.text_as(i, i.fn.name, c, cw)); subs.append((spec.clone(i, cw), cw))
            jobs.append((n, i, j, subs))
        mod = llir.parse(build.compile_bc(head + '\n'.join(texts) + '\n', cfg, extra, libsrc=lib), lambda n: n.startswith(('W_', 'V_', 'X_')))
        for n, i, j, subs in jobs:
            b = cmp.evaluate(mod, j)
            if b.err: continue
            if not wanted(b.vals): continue
            for x, w in subs:
                name = w[2:] if w[0] != 'X' else 'glmc' + w[5:]
                key = '%s|%s/%s' % (name, cfg, clip)
                a = cmp.evaluate(mod, x)
                if a.err: E.undecide(key, a.err); continue
                judge(E, key, name, cfg, a.vals, b.vals)
        if hdr == HEADERS[0]: E.count('configurations')
        return E
    fns0 = build.inventory('scalar')
    structs = [n for n in cmp.api() if n.startswith('glms_') and ck.wants(n)]
    def two(cc):
        cfg, clip = cc
        E = Events()
        ev.EXACT = True
        insts, packs = c01.pairs(E, fns0, structs)
        allw = {}
        for i, j in insts.values(): allw[i.wname] = i; allw[j.wname] = j
        for i in packs: allw[i.wname] = i
        mod = cmp.compile_insts(list(allw.values()), cfg, build.CLIP[clip])
        todo = []
        for i, j in insts.values():
            v = c01.values(E, mod, i, j, '%s|%s/%s' % (i.wname[2:], cfg, clip))
            if v: todo.append((i, *v))
        for i in packs:
            o = cmp.evaluate(mod, i)
            d, s = i.slots[0], i.slots[1]
            if not o.err: todo.append((i, {'dst': o.vals[d.name]}, {'dst': [alg.var(alg.atom('in', s.name, k, s.elem)) for k in range(s.cells)]}))
        for i, va, vb in todo:
            judge(E, '%s|%s/%s' % (i.wname[2:], cfg, clip), i.wname[2:], cfg, va, vb)
        return E
    # the scalar build and every SIMD build must agree on which elements only move
    plain, _ = cmp.insts_of(fns0, [n for n in cmp.api() if n.startswith('glm_') and ck.wants(n)])
    base = [None]
    def three(cfg):
        E = Events()
        ev.EXACT = True
        if base[0] is None:
            m = cmp.compile_insts(plain, 'scalar')
            base[0] = {i.wname: cmp.evaluate(m, i) for i in plain}
        mod = cmp.compile_insts(plain, cfg)
        for i in plain:
            a, b = base[0][i.wname], cmp.evaluate(mod, i)
            if a.err or b.err: continue         # C03 reports those
            f = pre.subst_for(i.fn.name, [s.name for s in i.slots])
            def sub(o): return {s: [c if f is None or c is None else f(c) for c in cs] for s, cs in o.vals.items()}
            va, vb = sub(a), sub(b)
            judge(E, '%s|%s against scalar' % (i.wname[2:], cfg), i.fn.name, cfg, vb, va)
            judge(E, '%s|scalar against %s' % (i.wname[2:], cfg), i.fn.name, cfg, va, vb)
        return E
    def any_(it): return (one(it[1:]) if it[0] == 1 else two(it[1]) if it[0] == 2 else three(it[1]))
    cfgs = CFGS + (MORE if ck.thorough else [])
    pmap(ck, any_, [(1, c, h) for h in HEADERS for c in cfgs] + [(2, c) for c in cfgs] + [(3, c) for c in SIMD + (SIMD_MORE if ck.thorough else [])])
    ck.extra = {'checker_cmd': './check C30', 'trusted_base': ['clang 18 front end', 'opt 18', 'cg/ev.py', 'checks/c30.py']}
    ck.floors({'functions': 100 * len(cfgs), 'elements': 1000 * len(cfgs), 'configurations': len(cfgs)})
