"""C07: alignment — no access of any function assumes more alignment than the accessed object's type guarantees."""
import re
from cg import build, model, cmp, llir
from cg.driver import Events, Broken, pmap

CFGS = ['scalar', 'sse2', 'sse4dot', 'avx', 'avx2fma', 'neon64', 'neon32', 'wasm', 'scalar_unal', 'sse2_unal', 'avx_unal']
MORE = ['sse3dot', 'sse2_nid', 'avx_fma_nid', 'wasm_relaxed', 'sse3', 'sse4']
UNALIGNED = ('glm_mat4_ucopy', 'glm_vec4_ucopy')       # documented as not requiring alignment
# objects stay in memory: only scalars and pointers are promoted
PASSES = 'always-inline,cgscc(inline),function(mem2reg,simplifycfg)'
TOP = 1 << 20      # alignment of a zero offset

def low(n): return TOP if n == 0 else n & -n

def declared(cfg, ctype):
    """alignment of the public types as types.h documents it"""
    unal = cfg.endswith('_unal')
    b = ctype[:-1] if model.is_struct(ctype) else ctype
    if unal: return 4
    if b == 'mat4': return 32 if 'avx' in cfg else 16
    if b in ('vec4', 'versor', 'mat2', 'mat2x4', 'mat3x4'): return 16
    return 4

class Flow:
    """pointer values -> {root: alignment of the offset from the root}; flow-insensitive fixpoint over one function"""
    def __init__(self, mod, fn, roots):
        self.m, self.f, self.env, self.roots = mod, fn, dict(roots), {}
        self.cont = {}      # pointers stored in memory objects: root -> value
        self.bad = []
        self.decl = {}
        self.allocas = {}
    def val(self, v):
        if v is None: return {}
        if v[0] == 'l' or v[0] == '%': return self.env.get(v[1], {})
        return self.gval(v)
    def gval(self, v): return {}

def alloca_align(text):
    m = re.search(r', align (\d+)', text); return int(m.group(1)) if m else 1

def name_of(v):
    return v[1] if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], str) else None

TOK = re.compile(r'(%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+)')

def gep(mod, s, mult=lambda i: 1):
    """(base, alignment of the offset, the offset in bytes when it is constant)"""
    # getelementptr [inbounds|nuw..] TYPE, ptr BASE, idx...
    p = llir.P(llir.tokenize(re.sub(r', !.*$', '', s[s.index('getelementptr') + len('getelementptr'):])), mod)
    while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
    bt = p.type(); p.expect(','); p.type(); base = p.next()
    idx = []
    while p.eat(','):
        if p.peek() == 'inrange': p.next()
        t = p.type(); idx.append(p.next())
    off = TOP; t = bt; const = 0
    for k, i in enumerate(idx):
        if k == 0: sz = mod.size(bt)
        elif t[0] == 's':
            sz = None; n = int(i)
            o = 0
            for q in range(n):
                a = 1 if t[2] else mod.align(t[1][q]); o = (o + a - 1) // a * a + mod.size(t[1][q])
            a = 1 if t[2] else mod.align(t[1][n]); o = (o + a - 1) // a * a
            off = min(off, low(o)); t = t[1][n]
            if const is not None: const += o
            continue
        elif t[0] == 'n': 
            u = mod.types[t[1]]
            if u[0] != 's': raise ValueError('gep')
            n = int(i); o = 0
            for q in range(n):
                a = mod.align(u[1][q]); o = (o + a - 1) // a * a + mod.size(u[1][q])
            a = mod.align(u[1][n]); o = (o + a - 1) // a * a
            off = min(off, low(o)); t = u[1][n]
            if const is not None: const += o
            continue
        else:
            t = t[2]; sz = mod.size(t)
        if re.match(r'^-?\d+$', i):
            off = min(off, low(int(i) * sz))
            if const is not None: const += int(i) * sz
        else: off = min(off, low(sz * mult(i))); const = None
    return base, off, const

def analyse(mod, text_head, lines, decl_align, gl_align, each=None):
    """lines: instruction texts of one function. decl_align: {argument name: declared alignment}.
    Returns (accesses, list of violations). Works on the instruction text: pointers are tracked through
    getelementptr, phi, select, and through memory objects that hold pointers."""
    env = {a: {a: TOP} for a in decl_align}
    al = dict(decl_align); al.update(gl_align)
    ins = []
    for l in lines:
        s = l.strip()
        if not s or s.startswith(';') or re.match(r'^[-\w."$]+:', s): continue
        ins.append(s)
    def join(a, b):
        if not b: return a
        r = dict(a)
        for k, v in b.items(): r[k] = min(r[k], v) if k in r else v
        return r
    def ptr(tok, env):
        tok = tok.strip()
        if tok.startswith('%'): return env.get(tok, {})
        if tok.startswith('@'):
            return {tok: TOP} if tok in al else {}
        return {}
    cont = {}
    sizes = {}
    for s in ins:
        m = re.match(r'^(%\S+) = alloca (.*?), align (\d+)', s)
        if m: env[m.group(1)] = {m.group(1): TOP}; al[m.group(1)] = int(m.group(3))
    geps = {}
    defs = {}
    for s in ins:
        m = re.match(r'^(%"[^"]*"|%\S+) = (\w+ .*)$', s)
        if m: defs[m.group(1)] = m.group(2)
    def mult(i, depth=0):
        """a power of two that divides the integer, whatever it is"""
        if re.match(r'^-?\d+$', i): return low(int(i))
        t = defs.get(i)
        if t is None or depth > 12: return 1
        m = re.match(r'(?:sext|zext) (?:nneg )?\S+ (\S+) to ', t)
        if m: return mult(m.group(1), depth + 1)
        m = re.match(r'(mul|shl|add|sub|and|or) (?:(?:nuw|nsw|disjoint) )*\S+ (\S+), (\S+?)(?:,|$)', t)
        if m:
            op, x, y = m.groups()
            if op == 'shl': return mult(x, depth + 1) << int(y) if y.isdigit() and int(y) < 20 else 1
            x, y = mult(x, depth + 1), mult(y, depth + 1)
            return min(x * y, TOP) if op == 'mul' else max(x, y) if op == 'and' else min(x, y)
        m = re.match(r'phi \S+ (.*)$', t)
        if m:
            # an induction variable: the start and the step both count
            r = TOP
            for v in re.findall(r'\[ (\S+), ', t):
                d = defs.get(v, '')
                q = re.match(r'(?:add|sub) (?:(?:nuw|nsw) )*\S+ (\S+), (-?\d+)$', d)
                r = min(r, low(int(q.group(2))) if q and q.group(1) == i else mult(v, depth + 1))
            return r
        return 1
    changed = True; rounds = 0
    while changed and rounds < 50:
        changed = False; rounds += 1
        for s in ins:
            m = re.match(r'^(%"[^"]*"|%\S+) = (\S+)', s)
            if not m:
                if s.startswith('store ptr '):
                    mm = re.match(r'^store ptr (\S+), ptr (\S+?)(,|$)', s)
                    if mm:
                        v = ptr(mm.group(1), env)
                        for r in ptr(mm.group(2), env):
                            n = join(cont.get(r, {}), v)
                            if n != cont.get(r): cont[r] = n; changed = True
                continue
            d, op = m.group(1), m.group(2)
            v = None
            if op == 'getelementptr':
                if d not in geps: geps[d] = gep(mod, s, mult)[:2]
                b, o = geps[d]
                v = {r: min(a, o) for r, a in ptr(b, env).items()}
            elif op == 'phi' and ' phi ptr ' in s:
                v = {}
                for t in re.findall(r'\[ (\S+), ', s): v = join(v, ptr(t, env))
            elif op == 'select' and re.search(r'select .*, ptr ', s):
                v = {}
                for t in re.findall(r'ptr (%\S+?|@\S+?)(?:,|$)', s): v = join(v, ptr(t, env))
            elif op == 'load' and ' load ptr,' in s:
                mm = re.search(r'load ptr, ptr (\S+?)(,|$)', s)
                v = {}
                for r in ptr(mm.group(1), env): v = join(v, cont.get(r, {}))
            elif op in ('bitcast', 'freeze', 'addrspacecast'):
                mm = re.search(r'ptr (\S+?)( |,|$)', s)
                if mm: v = ptr(mm.group(1), env)
            if v and env.get(d) != v:
                n = join(env.get(d, {}), v) if op != 'getelementptr' else v
                if n != env.get(d): env[d] = n; changed = True
    n = 0; bad = []; unknown = 0
    def demand(tok, a, s, what):
        nonlocal n, unknown
        tgt = ptr(tok, env)
        if not tgt:
            unknown += 1; return
        n += 1
        if each: each(tgt, s, what)
        for r, o in tgt.items():
            have = min(al[r], o)
            if a > have: bad.append((r, a, have, what, s))
    for s in ins:
        m = re.match(r'^(?:%\S+ = )?load (?:volatile )?.*?, ptr (%"[^"]*"|\S+?), align (\d+)', s)
        if m: demand(m.group(1), int(m.group(2)), s, 'load'); continue
        m = re.match(r'^store .*, ptr (%"[^"]*"|\S+?), align (\d+)', s)
        if m: demand(m.group(1), int(m.group(2)), s, 'store'); continue
        if 'call' in s:
            if 'llvm.assume' in s:
                for t, a in re.findall(r'"align"\(ptr (\S+), i\d+ (\d+)\)', s): demand(t, int(a), s, 'alignment assumption')
                continue
            for a, t in re.findall(r'ptr (?:[a-z]+(?:\(\d+\))? )*?align (\d+) (?:[a-z]+(?:\(\d+\))? )*(%[-\w.$]+)', s): demand(t, int(a), s, 'call')
    return n, bad, unknown

def run(ck):
    ck.level = 'proof'
    ck.explanation = ('Alignment-lattice data-flow over the inlined IR of every public function: each load, store, block copy and alignment assumption whose address derives from a '
                      'parameter or local object must not demand more alignment than the declared alignment of that object and the offset guarantee. Declared alignments are those '
                      'of types.h: 16 for vec4/versor/mat2 (32 for mat4 with AVX), 4 for everything else, and 4 for every type with CGLM_ALL_UNALIGNED.')
    ck.assumptions = ['declared alignments as documented in types.h and docs/source/opt.rst']
    fns = build.inventory('scalar')
    names = [n for n in cmp.api() if n.startswith(('glm_', 'glms_')) and ck.wants(n)]
    insts, bad = cmp.insts_of(fns, names, counts=(2,))
    def one(cfg):
        E = Events()
        # the register helpers that take memory operands, in the configurations that have them
        helpers = []
        for n, f in sorted(build.inventory(cfg).items()):
            if not n.startswith('glmm') or not ck.wants(n) or not any(p.dims or p.ptr for p in f.params): continue
            pp = [(str(p), p.name) for p in f.params]
            helpers.append((n, ['%' + p.name for p in f.params if p.dims or p.ptr], '%s W_%s(%s) { %s%s(%s); }' % (f.ret, n, ', '.join(a for a, _ in pp), '' if f.ret == 'void' else 'return ', n, ', '.join(b for _, b in pp))))
        # wrapper parameters are plain pointers, so that only the accesses themselves say what they need
        ll = build.compile_bc(build.HEAD + '\n'.join([i.text for i in insts] + [h[2] for h in helpers]) + '\n', cfg, passes=PASSES)
        mod = llir.parse(ll, lambda n: n.startswith('W_'))
        gl = {}
        for g, d in mod.globals.items():
            m = re.search(r', align (\d+)', d)
            if m: gl[g] = int(m.group(1))
        for n_, objs, _ in helpers:
            head, body = mod.funcs['W_' + n_]
            try: n, bd, unk = analyse(mod, head, body, {a: 4 for a in objs}, gl)
            except (ValueError, KeyError, IndexError) as e: E.undecide('%s|%s' % (n_, cfg), 'engine: %s' % e); continue
            E.count('helpers'); E.count('accesses', n)
            if n == 0: E.undecide('%s|%s' % (n_, cfg), 'no access found')
            elif bd: E.violate('%s|%s' % (n_, cfg), '%s with alignment %d on %s, whose elements guarantee only %d' % (bd[0][3], bd[0][1], bd[0][0], bd[0][2]))
            else: E.discharge()
        for i in insts:
            head, body = mod.funcs[i.wname]
            args = re.findall(r'ptr [^,%]*(%[-\w.$]+)', head[head.index('@'):])
            objs = [s for s in i.slots if s.kind == 'obj']
            key = '%s|%s' % (i.wname[2:], cfg)
            if len(args) != len(objs): E.undecide(key, 'parameters %s' % args); continue
            da = {a: 4 if (i.fn.name in UNALIGNED or s.param is None and s is not i.ret) else declared(cfg, s.ctype) for a, s in zip(args, objs)}
            try: n, bd, unk = analyse(mod, head, body, da, gl)
            except (ValueError, KeyError, IndexError) as e:
                E.undecide(key, 'engine: %s' % e); continue
            E.count('functions'); E.count('accesses', n); E.count('accesses through other pointers', unk)
            if bd:
                r, a, have, what, s = bd[0]
                m = re.search(r'!dbg (!\d+)', s)
                w = llir.dbg_line(mod, m.group(1)) if m else ''
                E.violate(key, '%s with alignment %d on %s, which guarantees only %d (%s)' % (what, a, dict(zip(args, [x.name for x in objs])).get(r, 'the local object ' + r), have,
                          ' <- '.join('%s:%s %s' % (str(f).split('/include/')[-1], l, n_) for f, l, n_ in w[:3])))
            else: E.discharge(1, {'function': i.fn.name, 'configuration': cfg, 'accesses checked': n} if len(E) < 20 else None)
        E.count('configurations')
        return E
    cfgs = CFGS + (MORE if ck.thorough else [])
    pmap(ck, one, cfgs)
    ck.extra = {'checker_cmd': './check C07', 'trusted_base': ['clang 18 front end (alignment of accesses)', 'opt 18 (inlining, mem2reg)', 'checks/c07.py']}
    ck.floors({'functions': 1600 * len(cfgs), 'accesses': 30000 * len(cfgs), 'configurations': len(cfgs)})
