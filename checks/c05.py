"""C05: every function touches only its own operands: inputs are never modified, outputs are fully defined from initialised data,
nothing outside the extents of the parameters is read or written."""
import json, re
from cg import build, model, cmp, alg, llir
from cg.driver import Events, Broken, pmap
from checks import c07

CFGS = ['scalar', 'sse2', 'sse4dot', 'avx', 'avx2fma', 'neon64', 'neon32', 'wasm']
MORE = ['sse3dot', 'sse2_nid', 'sse3', 'sse4', 'wasm_relaxed', 'sse2_unal', 'avx_unal', 'avx_fma_nid', 'scalar_unal']
CLIP = ['lh_no', 'rh_zo', 'lh_zo']
ROLES = build.VERIF + '/roles.json'

def entry(s, k): return alg.var(alg.atom('in', s.name, k, s.elem))

def self_reading(r, s):
    """cell of s's own entry value some written cell of any object depends on, or None; unwritten cells do not count"""
    for t, cs in r.vals.items():
        for k, c in enumerate(cs):
            if c is None: continue
            if t == s.name and c is entry(s, k): continue
            for a in alg.atoms_of(c):
                key = alg.ATOMS[a]
                if key[0] == 'in' and key[1] == s.name: return '%s[%d] depends on the entry value of %s[%s]' % (t, k, s.name, key[2])
    return None

def observe(i, r):
    """{parameter: role} as the function behaves"""
    out = {}
    w = {}
    for (o, off, n) in r.res.writes: w.setdefault(o, set()).update(range(off // 4, (off + n + 3) // 4))
    for s in i.slots:
        if s.kind != 'obj' or s is i.ret: continue
        if s.name not in w: role = 'in'
        else:
            kept = [k for k in range(s.cells) if r.vals[s.name][k] is entry(s, k)]
            if self_reading(r, s): role = 'inout'
            elif kept: role = 'part'
            else: role = 'out'
        out.setdefault(s.param.name, []).append(role)
    order = ['in', 'out', 'part', 'inout']
    return {p: max(v, key=order.index) for p, v in out.items()}

def pos(i):
    return {p.name: str(k) for k, p in enumerate(i.fn.params)}

PATTERN = 0xAAAAAAAA - (1 << 32)
_pat = {}
def undefined(c, elem):
    """automatic variables start as a NaN (or 0xAA..) pattern: does it reach this value?"""
    if any(alg.ATOMS[a][0] == 'NAN' for a in alg.atoms_of(c)): return True
    return elem != 'f' and pattern(c)
def reaches(c):
    """does the uninitialised value reach the cell for some input? (the choices between may rule it out)"""
    if c is None: return True, ''
    nan = [a for a in alg.atoms_of(c) if alg.ATOMS[a][0] == 'NAN']
    if not nan or any(a in nan for m in c.t for a, _ in m): return True, ''
    r, t = cmp.diff_cells(c, alg.Subst({a: alg.const(7) for a in nan}).poly(c))
    return {'ne': (True, ': ' + t), 'eq': (False, ''), 'und': (None, t)}[r]
def pattern(x):
    if isinstance(x, alg.Poly):
        if x not in _pat:
            _pat[x] = False
            _pat[x] = x.t.get((), 0) == PATTERN or any(pattern(y) for m in x.t for a, _ in m for y in alg.ATOMS[a][1:])
        return _pat[x]
    if isinstance(x, (frozenset, tuple)): return any(pattern(y) for y in x)
    if isinstance(x, (alg.Node, alg.Leaf)): return any(pattern(l) for l in alg.dd_leaves(x))
    return False

def check_one(E, mod, i, r, key, roles):
    bad = [x for x in r.res.oob if x[0] in 'rw']
    where = lambda d: llir.dbg_line(mod, d)
    for kind, o, off, n, dbg in bad[:1]:
        E.violate(key + '|extent', '%s of %d bytes at offset %d of %s (outside the object), %s' % ('read' if kind == 'r' else 'write', n, off, o, where(dbg))); return
    params = {s.name for s in i.slots}
    for (o, off, n), dbg in r.res.writes.items():
        if o not in params:
            E.violate(key + '|global', 'writes the static object %s, %s' % (o, where(dbg))); return
    rl = roles.get(i.fn.name, {}); pp = pos(i)
    for s in i.slots:
        if s.kind != 'obj': continue
        for k, c in enumerate(r.vals[s.name]):
            if c is None or undefined(c, s.elem):
                v, t = reaches(c)
                if v: E.violate(key + '|undefined', '%s[%d] may be stored from an uninitialised value%s' % (s.name, k, t)); return
                if v is None: E.undecide(key + '|undefined', '%s[%d]: %s' % (s.name, k, t)); return
        if s is i.ret:
            for k, c in enumerate(r.vals[s.name]):
                if c is entry(s, k): E.violate(key + '|undefined', 'component %d of the result is never set' % k); return
            dep = self_reading(r, s)
            if dep: E.violate(key + '|undefined', 'result not set on every path: ' + dep); return
            continue
        role = rl.get(pp.get(s.param.name, ''))
        if role is None: E.count('parameters without a role'); continue
        writes = [k for k in r.res.writes if k[0] == s.name]
        if role == 'in' and writes:
            same = all(r.vals[s.name][k] is entry(s, k) for k in range(s.cells))
            E.violate(key + '|input', 'input parameter %s is written%s (%s)' % (s.name, ' (with its own value)' if same else '', where(r.res.writes[writes[0]]))); return
        if role == 'out':
            kept = [k for k in range(s.cells) if r.vals[s.name][k] is entry(s, k)]
            if kept: E.violate(key + '|output', 'component %d of the output %s is never set' % (kept[0], s.name)); return
            dep = self_reading(r, s)
            if dep: E.violate(key + '|output', 'output %s is not set on every path from inputs only: %s' % (s.name, dep)); return
    E.discharge(1, {'function': key, 'roles': {p.name: rl.get(pp[p.name]) for p in i.fn.params}, 'reads': len(r.res.reads), 'writes': len(r.res.writes)} if len(E) < 40 else None)

# objects stay in memory (no splitting of aggregates), so that also a copied or loaded byte nobody uses is seen
PASSES = 'always-inline,cgscc(inline),function(mem2reg,instsimplify,sccp,simplifycfg)'
ACC = re.compile(r'^(?:(%"[^"]*"|%\S+) = )?(load|store)\b')
MEM = re.compile(r'@llvm\.(memcpy|memmove|memset)[\w.]*\((.*), i1 \w+\)')
def accesses(mod, body, roots):
    """(instruction, 'read'/'write', object, byte offset, length) of every access at a constant offset of a known object"""
    off = {r: (r, 0) for r in roots}
    sizes = {}
    ins = [l.strip() for l in body if l.strip()]
    for s in ins:
        m = re.match(r'^(%\S+) = alloca (.*?), align \d+', s)
        if m:
            off[m.group(1)] = (m.group(1), 0)
            if ', ' not in m.group(2) or m.group(2)[0] in '[<{': sizes[m.group(1)] = mod.size(llir.P(llir.tokenize(m.group(2)), mod).type())
    live = True; n = 0
    while live and n < 40:
        live = False; n += 1
        for s in ins:
            m = re.match(r'^(%"[^"]*"|%\S+) = (getelementptr|phi ptr|select|bitcast|freeze) ?', s)
            if not m: continue
            d, op = m.group(1), m.group(2)
            if op == 'getelementptr':
                b, _, k = c07.gep(mod, s)
                v = off.get(b)
                if v is None: continue
                v = (v[0], None if k is None or v[1] is None else v[1] + k)
            else:
                if op == 'phi ptr': t = re.findall(r'\[ (\S+), ', s)
                elif op == 'select': t = re.findall(r'ptr (%\S+?|@\S+?)(?:,|$)', s)
                else: t = re.findall(r'ptr (\S+?)(?: |,|$)', s)[:1]
                t = [x.rstrip(',') for x in t]
                vs = {off.get(x) for x in t}
                if op == 'phi ptr' and len(vs - {None, off.get(d)}) == 1 and len(t) > 1 and None in vs and d not in off: vs -= {None}
                if None in vs or len({v[0] for v in vs}) != 1:
                    if d in off and off[d] is not None: off[d] = None; live = True
                    continue
                v = (next(iter(vs))[0], next(iter(vs))[1] if len(vs) == 1 else None)
            if off.get(d) != v and not (d in off and (off[d] is None or off[d][1] is None)):
                off[d] = v if d not in off else (v[0], None); live = True
    for s in ins:
        m = ACC.match(s)
        if m:
            a = re.match(r'^(?:%\S+ = )?(?:load|store) (?:volatile |atomic )?', s).end()
            t = llir.P(llir.tokenize(re.sub(r', !.*$', '', s[a:])), mod).type()
            q = re.search(r', ptr (%"[^"]*"|\S+?)(?:,|$)', s)
            o = off.get(q.group(1)) if q else None
            if o and o[1] is not None: yield s, 'read' if m.group(2) == 'load' else 'write', o[0], o[1], mod.size(t)
        m = MEM.search(s)
        if m:
            ps = re.findall(r'ptr (?:[a-z]+(?:\(\d+\))? |align \d+ )*(%"[^"]*"|[%@][-\w.$]+)', m.group(2))
            ln = re.search(r'i(?:32|64) (\d+)$', m.group(2))
            if not ln: continue
            for k, x in enumerate(ps[:2]):
                o = off.get(x)
                if o and o[1] is not None: yield s, 'read' if k else 'write', o[0], o[1], int(ln.group(1))
    yield None, sizes, None, None, None

def extents(E, mod, insts, cfg, clip, roles):
    for i in insts:
        head, body = mod.funcs[i.wname]
        args = re.findall(r'ptr [^,%]*(%[-\w.$]+)', head[head.index('@'):])
        objs = [s for s in i.slots if s.kind == 'obj']
        key = '%s|%s/%s' % (i.wname[2:], cfg, clip)
        if len(args) != len(objs): continue
        size = {a: s.cells * (8 if s.elem == 'd' else 8 if s.ctype == 'size_t' else 1 if s.elem == 'b' and s is not i.ret else 4) for a, s in zip(args, objs)}
        try: acc = list(accesses(mod, body, args))
        except (ValueError, KeyError, IndexError, AttributeError) as e: E.undecide(key, 'engine: %r' % e); continue
        size.update(acc.pop()[1]); n = 0
        rl = roles.get(i.fn.name, {}); pp = pos(i)
        inp = {a: s.name for a, s in zip(args, objs) if s is not i.ret and s.param and rl.get(pp.get(s.param.name, '')) == 'in'}
        for s, kind, o, off, ln in acc:
            if o not in size: continue
            n += 1
            if kind == 'write' and o in inp:
                m = re.search(r'!dbg (!\d+)', s); w = llir.dbg_line(mod, m.group(1)) if m else ''
                E.violate(key + '|input', 'input parameter %s is written (%s)' % (inp[o], ' <- '.join('%s:%s %s' % (str(f).split('/include/')[-1], l, n_) for f, l, n_ in w[:3]))); break
            if off < 0 or off + ln > size[o]:
                m = re.search(r'!dbg (!\d+)', s); w = llir.dbg_line(mod, m.group(1)) if m else ''
                E.violate(key + '|extent', '%s of %d bytes at offset %d of %s, which has %d (%s)' % (kind, ln, off, dict(zip(args, [x.name for x in objs])).get(o, 'the local object ' + o), size[o],
                          ' <- '.join('%s:%s %s' % (str(f).split('/include/')[-1], l, n_) for f, l, n_ in w[:3]))); break
        E.count('accesses within extents', n)

def run(ck):
    ck.level = 'proof'
    ck.explanation = ('For every public function, configuration and instantiation the effect analysis lists every byte range of every parameter object that is read or '
                      'written; ranges must lie inside the object, input parameters must not be written, every component of an output or returned value must be set on every '
                      'path and must not depend on uninitialised data or on the previous content of a pure output. Parameter roles (roles.json) are the documented ones, '
                      'reconciled with the behaviour where the documentation is silent or wrong.')
    ck.assumptions = ['roles.json is the reviewed table of parameter directions', 'run-time counts are instantiated with 0 to 5, 8 and 9 (mulN: 2 to 5)']
    roles = json.load(open(ROLES))
    fns = build.inventory('scalar')
    names = [n for n in cmp.api() if n.startswith(('glm_', 'glms_')) and ck.wants(n)]
    insts, bad = cmp.insts_of(fns, names)
    insts = [i for i in insts if any(s.kind == 'obj' for s in i.slots)]
    def one(cc):
        cfg, clip = cc
        E = Events()
        mod = cmp.compile_insts(insts, cfg, build.CLIP[clip])
        for i in insts:
            if clip != 'rh_no' and re.search(r'_(lh|rh)_(no|zo)$', i.fn.name): continue
            key = '%s|%s/%s' % (i.wname[2:], cfg, clip)
            if i.fn.name.endswith('decasteljau'): E.count('without operands'); continue
            r = cmp.evaluate(mod, i)
            if r.err: E.undecide(key, r.err); continue
            check_one(E, mod, i, r, key, roles)
            E.count('functions')
        if clip == 'rh_no':
            raw = llir.parse(build.compile_bc(build.HEAD + '\n'.join(i.text for i in insts) + '\n', cfg, build.CLIP[clip], passes=PASSES), lambda n: n.startswith('W_'))
            extents(E, raw, insts, cfg, clip, roles)
        E.count('configurations')
        return E
    ccs = [(c, 'rh_no') for c in CFGS] + [('scalar', k) for k in CLIP] + ([(c, 'rh_no') for c in MORE] if ck.thorough else [])
    pmap(ck, one, ccs)
    ck.extra = {'checker_cmd': './check C05', 'trusted_base': ['clang 18 front end', 'opt 18 (inlining, SROA, unrolling)', 'cg/ev.py, cg/alg.py']}
    ck.floors({'functions': 1700 * len(ccs), 'configurations': len(ccs)})
