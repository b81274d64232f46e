"""C29: termination — every loop of every public function has a bound fixed by constants and count parameters, and nothing recurses."""
import re, os, subprocess, tempfile
from cg import build, cmp
from cg.driver import Events, Broken, pmap

CFGS = ['scalar', 'sse2', 'avx2fma', 'neon64', 'wasm']
MORE = ['sse2_nid', 'sse3dot', 'sse4dot', 'avx', 'neon32', 'wasm_relaxed']
CLEAN = 'sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg'
PASSES = ('always-inline,function(%s),cgscc(inline),function(tailcallelim,%s,jump-threading,simplifycfg,sccp,adce,fix-irreducible,%s,loop-simplify,lcssa,loop(loop-rotate),instcombine<max-iterations=100>,%s,'
          'loop-simplify,lcssa,loop(indvars),instsimplify)') % (CLEAN, CLEAN, CLEAN, CLEAN)
BIG = 1 << 20

def wrapper(f, n):
    if any('...' in p.text or p.ptr == 'fn' for p in f.params): return None
    return '%s T_%s(%s) { %s%s(%s); }' % (f.ret, n, ', '.join(p.text for p in f.params) or 'void', '' if f.ret == 'void' else 'return ', n, ', '.join(p.name for p in f.params))

def cycles(calls):
    """functions that can reach themselves"""
    out = []
    for f in calls:
        seen, todo = set(), list(calls[f])
        while todo:
            g = todo.pop()
            if g in seen: continue
            seen.add(g); todo += calls.get(g, ())
        if f in seen: out.append(f)
    return out

TOK = re.compile(r'\s*(?:(%[-\w.$]+)|(-?\d+)|(/u|umax_seq|umin_seq|umax|umin|smax|smin|sext|zext|trunc|ptrtoint|to|ptr|i\d+|[-+*(){},])|(<[^>]*>))')
def bounded(x, ok, ptrs):
    """a backedge-taken count in constants and the values in ok; addresses only count where they cancel (end - begin)"""
    toks = []; i = 0
    while i < len(x):
        m = TOK.match(x, i)
        if not m: return False
        i = m.end()
        if m.group(4) is None: toks.append(m.group(1) or m.group(2) or m.group(3))
    toks.append(None); pos = [0]
    def nxt():
        pos[0] += 1; return toks[pos[0] - 1]
    def atom():
        t = nxt()
        if t == '(':
            if toks[pos[0]] in ('sext', 'zext', 'trunc', 'ptrtoint'):
                op = nxt(); nxt(); r = atom()
                if nxt() != 'to': raise ValueError
                nxt()
                if nxt() != ')': raise ValueError
                if op != 'ptrtoint' and r[0]: raise ValueError
                return r
            xs = [atom()]; op = None
            while toks[pos[0]] != ')':
                o = nxt()
                if op not in (None, o): raise ValueError
                op = o; xs.append(atom())
            nxt()
            if op is None: return xs[0]
            if op == '+': return {p: c for p in set().union(*[y[0] for y in xs]) for c in [sum(y[0].get(p, 0) for y in xs)] if c}, None
            if op == '*':
                ks = [y[1] for y in xs if y[1] is not None]; rest = [y for y in xs if y[1] is None]
                if any(y[0] for y in rest) and len(rest) > 1: raise ValueError
                k = 1
                for c in ks: k *= c
                return ({p: c * k for p, c in rest[0][0].items()}, None) if rest else ({}, k)
            if op in ('umax', 'umin', 'smax', 'smin', 'umax_seq', 'umin_seq'):
                if any(y[0] != xs[0][0] for y in xs): raise ValueError
                return xs[0][0], None
            if op == '/u':
                if any(y[0] for y in xs): raise ValueError
                return {}, None
            raise ValueError
        if t == '{':
            while nxt() not in ('}', None): pass
            raise ValueError
        if t is None: raise ValueError
        if t[0] == '%':
            if t in ok: return {}, None
            if t in ptrs: return {t: 1}, None
            raise ValueError
        return {}, int(t)
    try:
        r = atom()
        return toks[pos[0]] is None and not r[0]
    except (ValueError, IndexError, TypeError): return False

def run(ck):
    ck.level = 'proof'
    ck.explanation = ('Trip-count analysis: every public inline and struct function (helpers inlined, tail recursion turned into loops) and every library function is compiled to IR for each configuration, '
                      'and the number of iterations of every loop is derived by scalar evolution. A loop whose count is a constant or an expression in the integer parameters of the function '
                      'terminates for all values of the operands; a loop controlled by floating-point data (NaN and infinities included) or by memory contents, and any recursion left in the call graph, is a violation.')
    ck.assumptions = ['no signed overflow in a loop counter', 'libm and stdio functions return']
    fns = build.inventory('scalar')
    names = [n for n in cmp.api() if ck.wants(n) and n in fns]
    W = {}
    for n in names:
        if n.startswith('glmc_'): continue
        w = wrapper(fns[n], n)
        if w: W[n] = w
        else: ck.undecide(n, 'no wrapper')
    inline = ''.join('%s\n' % w for w in W.values())
    def one(cfg):
        E = Events()
        ll = build.compile_bc(build.HEAD + inline, cfg, ('-fno-finite-loops', '-DCGLM_DEFINE_PRINTS'), libsrc=True, passes=PASSES)
        fd, t = tempfile.mkstemp(suffix='.ll', dir=build.tmpdir())
        with os.fdopen(fd, 'w') as h: h.write(ll)
        p = subprocess.run([build.OPT, '-passes=print<scalar-evolution>', '-scalar-evolution-classify-expressions=false', '-scalar-evolution-max-iterations=4000', '-disable-output', t], capture_output=True, text=True)
        if p.returncode: raise Broken('scalar evolution failed on %s: %s' % (cfg, p.stderr[:300]))
        os.unlink(t)
        args, ptrs, calls, loops = {}, {}, {}, {}
        cur = None
        for l in ll.split('\n'):
            if l.startswith('define'):
                m = re.search(r'@("?[-\w.$]+"?)\(', l); cur = m.group(1).strip('"')
                args[cur] = set(re.findall(r'\bi\d+ (?:\w+ )*(%[-\w.$]+)', l[m.end():]))
                ptrs[cur] = set(re.findall(r'\bptr (?:[\w()]+ )*(%[-\w.$]+)', l[m.end():]))
                calls[cur] = set()
            elif l == '}': cur = None
            elif cur is not None and re.search(r'\bcall\b', l):
                m = re.search(r'@([-\w.$]+)\(', l)
                if m: calls[cur].add(m.group(1))
        calls = {f: {g for g in c if g in calls} for f, c in calls.items()}
        f = None
        for l in p.stderr.split('\n') + p.stdout.split('\n'):
            m = re.match(r"Determining loop execution counts for: @(\S+)", l)
            if m: f = m.group(1); loops[f] = {}; continue
            m = re.match(r'Loop (%\S+): (.*)$', l)
            if m and f: loops[f].setdefault(m.group(1), []).append(m.group(2))
        rec = set(cycles(calls))
        pub = lambda g: re.sub(r'\.\d+$', '', g[2:] if g.startswith('T_') else g)
        done = set()
        for g in sorted(calls):
            if not (g.startswith('T_') and g[2:] in W or g.startswith('glmc_') and g in names): 
                # a helper kept out of line is judged where it stands
                if not loops.get(g) and g not in rec: continue
            key = '%s|%s' % (pub(g), cfg)
            if g not in loops: E.undecide(key, 'no trip counts'); continue
            E.count('functions')
            bad = None
            if g in rec: bad = 'calls itself (call cycle %s)' % ' -> '.join(sorted(calls[g] & rec))
            for hd, info in loops[g].items():
                E.count('loops')
                ok = False
                for s in info:
                    m = re.match(r'constant max backedge-taken count is (?:i\d+ )?(\d+)', s)
                    if m and int(m.group(1)) < BIG: ok = True
                    m = re.match(r'(?:symbolic max )?backedge-taken count is (.*)$', s)
                    if m and 'COULDNOTCOMPUTE' not in s and bounded(m.group(1), args[g], ptrs[g]): ok = True
                    if m and 'COULDNOTCOMPUTE' not in s and set(re.findall(r'%[-\w.$]+', m.group(1))) <= args[g] | set(loops[g]): ok = True      # an outer loop's counter is as bounded as the outer loop
                if not ok: bad = bad or 'the loop at %s has no bound in constants and count parameters (%s)' % (hd, '; '.join(info)[:160])
            if bad:
                if key in done: continue
                done.add(key); E.violate(key, bad, function=pub(g), configuration=cfg)
            else: E.discharge(1, {'function': pub(g), 'configuration': cfg, 'loops': {h: i[:1] for h, i in loops[g].items()}} if loops[g] and len(E) < 60 else None)
        E.count('configurations')
        return E
    cfgs = CFGS + (MORE if ck.thorough else [])
    pmap(ck, one, cfgs)
    ck.extra = {'checker_cmd': './check C29', 'trusted_base': ['clang 18 front end', 'opt 18 (inlining, scalar evolution)', 'checks/c29.py']}
    ck.floors({'functions': 2250 * len(cfgs), 'loops': 20 * len(cfgs), 'configurations': len(cfgs)})
