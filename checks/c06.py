"""C06: no hidden effects — no allocation, no I/O (outside the print functions), no state kept or read between calls."""
import re
from cg import build, model, cmp
from cg.driver import Events, Broken, pmap

CFGS = [('scalar', 'rh_no'), ('sse2', 'rh_no'), ('avx2fma', 'rh_no'), ('neon64', 'rh_no'), ('neon32', 'rh_no'), ('wasm', 'rh_no'), ('scalar', 'lh_zo')]
MORE = [(c, 'rh_no') for c in ('sse3dot', 'sse4dot', 'avx', 'sse2_nid', 'sse2_unal', 'wasm_relaxed')] + [('scalar', 'lh_no'), ('scalar', 'rh_zo')]
LIBM = set('''sinf cosf tanf asinf acosf atanf atan2f sqrtf powf expf exp2f logf log2f log10f fabsf floorf ceilf fmodf roundf truncf fminf fmaxf
 hypotf copysignf ldexpf frexpf modff cbrtf rintf nearbyintf fmaf sinhf coshf tanhf expm1f log1pf remainderf sincosf
 sin cos tan asin acos atan atan2 sqrt pow exp exp2 log log2 log10 fabs floor ceil fmod round trunc fmin fmax hypot copysign abs labs
 memcpy memmove memset memcmp __assert_fail __assert __assert2 __assert_func'''.split())
PRINT = set('fprintf snprintf fputs fputc putc fwrite vfprintf sprintf'.split())
# intrinsics that read or change machine state (floating-point environment, traps, clocks, caches, random numbers, registers, stack walks)
STATE = re.compile(r'csr|rounding|fpenv|fpmode|fpcr|fpsr|fpscr|trap|cyclecounter|rdtsc|rdpmc|rdrand|rdseed|clflush|clwb|cldemote|[msl]fence|\.pause|monitor|mwait|(read|write)_(volatile_)?register|returnaddress|frameaddress|sponentry|thread\.pointer|memory\.(grow|size)|\.throw|\.hint|\.dmb|\.dsb|\.isb|\.clrex|ldrex|strex|\.mcr|\.mrc')
STREAMS = ('stdout', 'stderr', 'stdin', '__stdoutp', '__stderrp')
PASSES = build.PASSES

def functions(ll):
    """name -> body lines; and the globals"""
    fns, globs = {}, {}
    cur = None
    for l in ll.split('\n'):
        if cur is not None:
            if l == '}': cur = None
            else: fns[cur].append(l)
        elif l.startswith('define'):
            cur = re.search(r'@("?[-\w.$]+"?)\(', l).group(1).strip('"'); fns[cur] = []
        elif l.startswith('@'):
            m = re.match(r'^@("?[-\w.$]+"?) = (.*)$', l); globs[m.group(1).strip('"')] = m.group(2)
    return fns, globs

def written(fns, globs):
    """static objects that some function stores to, or whose address goes anywhere but into a load; the others are constants in fact"""
    mut = {g for g, d in globs.items() if re.search(r'\bglobal\b', d)}
    w = {g for g in mut if not re.match(r'(internal|private)', globs[g])}
    if not mut: return w
    any_ = re.compile(r'@(%s)(?![-\w.$])' % '|'.join(map(re.escape, sorted(mut))))
    for ls in fns.values():
        der = {}
        todo = [l.strip() for l in ls]
        for s in todo:
            gs = set(any_.findall(s))
            for x in re.findall(r'%[-\w.$]+', s.split(' = ', 1)[-1]): gs |= der.get(x, set())
            if not gs: continue
            m = re.match(r'^(%[-\w.$]+) = (\w+)', s)
            if m and m.group(2) == 'load': continue
            if m and m.group(2) in ('getelementptr', 'phi', 'select', 'bitcast'): der[m.group(1)] = gs; continue
            if re.search(r'call .*@llvm\.memcpy', s) and not (set(any_.findall(s.split('ptr', 2)[1])) | {y for x in re.findall(r'%[-\w.$]+', s.split('ptr', 2)[1]) for y in der.get(x, ())}): continue
            if m and m.group(2) == 'icmp': continue
            w |= gs
    return w

def scan(name, fns, globs, printer):
    """list of (construct, message) for one function, following calls to functions defined in the module"""
    seen, todo, out = set(), [name], []
    n = 0
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f)
        for l in fns[f]:
            s = l.strip()
            if not s or s.startswith(';'): continue
            n += 1
            body = re.sub(r'"[^"]*"', '""', re.sub(r', ![\w.]+ ![\w]+', '', s))
            if re.search(r'\b(call|invoke|tail call|musttail call)\b', body) and re.search(r'= (tail |musttail |notail )?call|^(tail |musttail |notail )?call', body):
                if re.search(r'\basm\b', body): out.append(('inline assembly', f)); continue
                m = re.search(r'@([-\w.$]+)\(', body)
                if not m: out.append(('call through a pointer', f)); continue
                c = m.group(1)
                if c.startswith('llvm.'):
                    if STATE.search(c): out.append(('compiler intrinsic with machine state (%s)' % c, f))
                elif c in fns: todo.append(c)
                elif c in LIBM: pass
                elif printer and c in PRINT: pass
                else: out.append(('call of %s' % c, f))
            if re.match(r'^(%\S+ = )?(load|store) (atomic|volatile)|^(%\S+ = )?(atomicrmw|cmpxchg|fence)', body): out.append(('atomic or volatile access', f))
            for g in re.findall(r'@([-\w.$]+)', body):
                d = globs.get(g)
                if d is None: continue
                if re.search(r'\b(thread_local)\b', d) or (re.search(r'\bglobal\b', d) and not re.search(r'\bconstant\b', d)):
                    if g in STREAMS: out.append(('use of the standard stream %s' % g, f))
                    else: out.append(('use of the mutable static object %s' % g, f))
    return out, n

def run(ck):
    ck.level = 'proof'
    ck.explanation = ('Effect analysis over the call graph of every public inline, struct and library function in each configuration: the instructions reachable from it may call only '
                      'pure libm functions, memory copies and compiler intrinsics without machine state (no floating-point environment, clock, trap), and may not refer to any writable static or thread-local object, volatile/atomic memory, inline assembly '
                      'or a function pointer. Print functions may in addition call formatted-output functions, but not name a standard stream.')
    ck.assumptions = ['libm functions are pure apart from errno and the floating-point flags']
    fns = build.inventory('scalar')
    names = [n for n in cmp.api() if ck.wants(n)]
    prints = [n for n in names if n.endswith(('_print', '_print_name'))]
    def text_print(n):
        f = fns[n]
        ps = ', '.join('%s%s %s%s%s' % ('const ' if p.const else '', 'FILE' if p.base == 'FILE' else p.base, '*' * (p.ptr if isinstance(p.ptr, int) else 0), p.name, ''.join('[%s]' % d for d in p.dims)) for p in f.params)
        return 'void W_%s(%s) { %s(%s); }' % (n, ps, n, ', '.join(p.name for p in f.params))
    insts, bad = cmp.insts_of(fns, [n for n in names if not n.startswith('glmc_') and n not in prints], counts=(2,))
    unhandled = [n for n, w in bad if n in fns]
    def one(cc):
        cfg, clip = cc
        E = Events()
        src = build.HEAD + '\n'.join(i.text for i in insts) + '\n' + '\n'.join(text_print(n) for n in prints if n in fns and not n.startswith('glmc_'))
        ll = build.compile_bc(src, cfg, build.CLIP[clip], libsrc=True, passes=PASSES)
        F, G = functions(ll)
        mut = written(F, G)
        G = {g: d for g, d in G.items() if g in mut or g in STREAMS or not re.search(r'\bglobal\b', d)}
        roots = [('W_' + i.fn.name + i.tag, i.fn.name + i.tag) for i in insts] + [('W_' + n, n) for n in prints if n in fns and not n.startswith('glmc_')]
        roots += [(n, n) for n in F if n.startswith('glmc_')]
        for r, n in roots:
            if r not in F:
                E.undecide('%s|%s/%s' % (n, cfg, clip), 'not in the module'); continue
            printer = '_print' in n
            out, k = scan(r, F, G, printer)
            E.count('functions'); E.count('instructions', k)
            for what, where in out[:1]:
                E.violate('%s|%s/%s' % (n, cfg, clip), '%s, in %s' % (what, where))
            if not out: E.discharge(1, {'function': n, 'configuration': cfg, 'instructions scanned': k} if len(E) < 20 else None)
        E.count('configurations')
        return E
    for n in unhandled: ck.undecide(n, 'no wrapper')
    ccs = CFGS + (MORE if ck.thorough else [])
    pmap(ck, one, ccs)
    ck.extra = {'checker_cmd': './check C06', 'trusted_base': ['clang 18 front end', 'opt 18 (inlining, SROA)', 'checks/c06.py']}
    ck.floors({'functions': 2500 * len(ccs), 'configurations': len(ccs)})
