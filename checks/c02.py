"""C02: the compiled (call) API is complete, exported and computes exactly what the inline API computes."""
import os, re
from cg import build, model, cmp, alg, llir
from cg.driver import Events, Broken, pmap

# compiled names whose inline sibling has another name (documented aliases)
ALIASES = {'glmc_mat4_inv_precise': 'glm_mat4_inv', 'glmc_vec3_mulv': 'glm_vec3_mul', 'glmc_vec4_mulv': 'glm_vec4_mul'}
CFGS = [('sse2', 'rh_no'), ('scalar', 'lh_no'), ('scalar', 'rh_zo'), ('sse2', 'lh_zo')]
MORE = [('scalar', 'rh_no'), ('avx2fma', 'rh_no'), ('avx', 'lh_zo'), ('sse4dot', 'rh_no'), ('neon64', 'rh_no'), ('wasm', 'rh_no'), ('neon32', 'rh_zo')]

def cxx(ck):
    """a C++ program that includes the headers has to name the symbols the C library exports"""
    names = [n for n in cmp.api() if n.startswith('glmc_') and ck.wants(n)]
    fns = build.inventory('sse2')
    names = [n for n in names if n in fns and not (fns[n].has_body and fns[n].static)]
    inc = build.INC + '/cglm/'
    hs = [('<cglm/call.h>', names)]
    for d, _, fs in sorted(os.walk(inc + 'call')):
        for f in sorted(fs):
            w = set(re.findall(r'\bglmc_\w+', open(os.path.join(d, f), errors='replace').read()))
            hs.append(('<cglm/%s>' % os.path.relpath(os.path.join(d, f), inc), [n for n in names if n in w]))
    def one(h):
        E = Events()
        inc, ns = h
        if not ns: return E
        try: t = build.front('#include %s\n' % inc + ''.join('void *p%d = (void *)&%s;\n' % kv for kv in enumerate(ns)), 'sse2', ['-x', 'c++', '-std=c++11', '-DCGLM_CLIPSPACE_INCLUDE_ALL'])
        except build.BuildError as e:
            E.undecide('C++ linkage|' + inc, [l for l in str(e).split('\n') if 'error' in l][:1]); return E
        got = set(re.findall(r'^(?:declare|define)[^@\n]*@(\w+)\(', t, re.M))
        for n in ns:
            E.count('C++ names')
            if n in got: E.discharge(1)
            else: E.violate('%s|C++ linkage|%s' % (n, inc[1:-1]), 'declared with C++ linkage in a C++ program: it does not link with the compiled library')
        return E
    pmap(ck, one, hs)

def run(ck):
    ck.level = 'translation_validation'
    ck.explanation = ('All of src/*.c is compiled and linked (as IR) with one caller per compiled entry point; the value graph of every object each entry point '
                      'writes and of its result is compared with that of the inline function, for all inputs. Every entry point declared in the public headers '
                      'must have a definition with default visibility when the library is built with hidden visibility, and C linkage in a C++ program.')
    ck.assumptions = ['value graphs are compared as functions over the reals']
    def one(cc):
        cfg, clip = cc
        E = Events()
        extra = build.CLIP[clip]
        fns = build.inventory(cfg, extra)
        todo = [n for n in cmp.api() if n.startswith('glmc_') and ck.wants(n)]
        pairs = []; bad = []
        for n in todo:
            f = fns.get(n)
            if f is None:
                E.violate('%s|declared' % n, 'the compiled entry point is no longer declared by the public headers'); continue
            E.count('entry points')
            g = fns.get(ALIASES.get(n, 'glm_' + n[5:]))
            if g is None: E.note('no inline sibling: ' + n); continue
            try:
                A = {i.tag: i for i in model.instances(f)}; B = {i.tag: i for i in model.instances(g)}
            except model.Unsupported as e:
                E.note('%s: %s' % (n, e)); continue
            if len(f.params) != len(g.params):
                E.violate('%s|shape' % n, 'takes %d parameters, the inline function %d' % (len(f.params), len(g.params))); continue
            for t in A:
                if t in B: pairs.append((A[t], B[t]))
        if not pairs: raise Broken('no compiled entry points')
        insts = list({x.wname: x for p in pairs for x in p}.values())
        # definitions and visibility
        ext = list(extra) + ['-fvisibility=hidden']
        ll = build.compile_bc(build.HEAD + '\n'.join(i.text for i in insts) + '\n', cfg, ext, libsrc=True)
        defined = {}
        for m in re.finditer(r'^define ([^@\n]*)@(glmc_\w+)\(', ll, re.M): defined[m.group(2)] = m.group(1)
        for n in todo:
            f = fns.get(n)
            if f is None: continue
            if f.has_body and f.static:
                E.discharge(1)      # inline in the header, nothing to link
            elif n not in defined:
                E.violate('%s|defined' % n, 'declared in the public headers but the library sources do not define it')
            elif 'hidden' in defined[n] or 'internal' in defined[n]:
                E.violate('%s|exported' % n, 'the definition is not exported from the library (linkage: %s)' % defined[n].strip())
            else: E.discharge(1)
        mod = llir.parse(ll, lambda n: n.startswith('W_'))
        for a, b in pairs:
            key = '%s|%s/%s' % (a.wname[2:], cfg, clip)
            if a.fn.name not in defined and not a.fn.has_body: continue
            names = {}
            for x, y in zip(a.slots, b.slots): names[y.name] = x.name
            if len(a.slots) != len(b.slots): E.undecide(key, 'slots differ'); continue
            ra = cmp.evaluate(mod, a); rb = cmp.evaluate(mod, b, names=names)
            E.count('function instances')
            if ra.err or rb.err:
                if cmp.lockstep(mod, a.wname, mod, b.wname): E.discharge(1)
                else: E.undecide(key, ra.err or rb.err)
                continue
            vb = {names[k]: v for k, v in rb.vals.items()}
            cmp.compare_vals(key, ra.vals, vb, E, 'compiled', 'inline')
        E.count('configurations')
        return E
    pmap(ck, one, CFGS + (MORE if ck.thorough else []))
    cxx(ck)
    ck.counts['programs'] = ck.counts.get('function instances', 0)
    ck.floors({'function instances': 3000, 'entry points': 2900, 'configurations': len(CFGS)})
