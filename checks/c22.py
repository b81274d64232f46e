"""C22: headers compile on their own in every dialect and configuration, define nothing with external linkage, and the umbrella headers reach all of them.
Decided by the front ends of clang and gcc (syntax and types only) and by the AST of the umbrella translation unit."""
import os, re, subprocess, tempfile, concurrent.futures as cf
from cg import build, decls
from cg.driver import Events, Broken, pmap

STRICT = ['-fsyntax-only', '-w', '-pedantic-errors', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types', '-Werror=int-conversion', '-Werror=return-type']
LAX = [o for o in STRICT if o != '-pedantic-errors']      # C++: extensions both compilers accept are left alone
# parts of another header, or (simd) the back ends behind common.h: not for direct inclusion
PART = re.compile(r'^(affine-pre|affine-post|applesimd)\.h$|^simd/')
OPTS = {
    'default': [], 'lh': ['-DCGLM_FORCE_LEFT_HANDED'], 'zo': ['-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'],
    'lh_zo': ['-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'], 'all': ['-DCGLM_CLIPSPACE_INCLUDE_ALL'],
    'all_lh_zo': ['-DCGLM_CLIPSPACE_INCLUDE_ALL', '-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'],
    'ndebug': ['-DNDEBUG'], 'ndebug_prints': ['-DNDEBUG', '-DCGLM_DEFINE_PRINTS'], 'noop': ['-DNDEBUG', '-DCGLM_NO_PRINTS_NOOP'],
    'eps': ['-DCGLM_USE_DEFAULT_EPSILON'], 'anon0': ['-DCGLM_USE_ANONYMOUS_STRUCT=0'], 'noanon': ['-DCGLM_NO_ANONYMOUS_STRUCT'],
    'unal': ['-DCGLM_ALL_UNALIGNED'], 'fast': ['-ffast-math'], 'nocolor': ['-DGLM_TESTS_NO_COLORFUL_OUTPUT'],
    'omit_ns': ['-DCGLM_OMIT_NS_FROM_STRUCT_API'], 'ns': ['-DCGLM_STRUCT_API_NS=abc'], 'suffix': ['-DCGLM_STRUCT_API_NAME_SUFFIX=Q'],
    'static': ['-DCGLM_STATIC'], 'assume': ['-DCGLM_HAVE_BUILTIN_ASSUME_ALIGNED=0'],
}
UMB = '#include <cglm/cglm.h>\n#include <cglm/struct.h>\n#include <cglm/call.h>\n'

def headers():
    r = []
    for d, _, fs in os.walk(build.INC + '/cglm'):
        r += [os.path.relpath(os.path.join(d, f), build.INC + '/cglm') for f in fs if f.endswith('.h')]
    return sorted(r)

def syntax(cmd, text, ext):
    d = tempfile.mkdtemp(dir=build.tmpdir()); p = d + '/t.' + ext
    open(p, 'w').write(text)
    r = subprocess.run(cmd + ['-I', build.INC, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not r.returncode: return None
    m = [l for l in r.stdout.splitlines() if 'error' in l]
    return (m[0] if m else r.stdout[:200]).replace(build.INC + '/', '')

def cc(std, extra=()): return (['clang', '-std=' + std] + STRICT if not std.startswith('c++') else ['clang++', '-x', 'c++', '-std=' + std] + LAX) + list(extra)
def gcc(std, extra=()):
    s = ['g++', '-x', 'c++', '-std=' + std] if std.startswith('c++') else ['gcc', '-std=' + std]
    x = [o for o in LAX if not re.search('implicit-function|incompatible-pointer|int-conversion', o)] if std.startswith('c++') else STRICT
    return s + x + list(extra)
def ext(std): return 'cc' if std.startswith('c++') else 'c'

def jobs(ck):
    hs = [h for h in headers() if not PART.match(h)]
    for h in hs:
        one = '#include <cglm/%s>\n' % h
        for n, cmd, t in (('alone, C99', cc('c99'), one), ('twice, C11', cc('c11', ['-mavx2', '-mfma']), one + one), ('alone, C++11', cc('c++11'), one),
                          ('alone, scalar gnu11, all clip spaces', cc('gnu11', build.UNSSE + OPTS['all_lh_zo']), one), ('after cglm.h, C11', cc('c11'), '#include <cglm/cglm.h>\n' + one)):
            yield '%s|%s' % (h, n), cmd, t, 'cc' if 'C++' in n else 'c'
        if ck.thorough:
            for o in OPTS:
                yield '%s|alone, C99, %s' % (h, o), cc('c99', OPTS[o]), one, 'c'
                yield '%s|alone, gcc, %s' % (h, o), gcc('c99', OPTS[o]), one, 'c'
            for s in ('c++98', 'c++17', 'c++20'): yield '%s|alone, %s' % (h, s), cc(s) if s != 'c++98' else gcc(s), one, 'cc'
    for o in OPTS:
        for s in ('c99', 'c11', 'gnu11', 'c++11', 'c++98') + (('c17', 'c2x', 'c++17', 'c++20') if ck.thorough else ()):
            if s != 'c++98': yield 'umbrella headers|clang %s, %s' % (s, o), cc(s, OPTS[o]), UMB, ext(s)
            if s != 'c++11': yield 'umbrella headers|gcc %s, %s' % (s, o), gcc(s, OPTS[o]), UMB, ext(s)
    for c, fl in sorted(build.CONFIGS.items()):
        for o in ('default', 'all_lh_zo'):
            yield 'umbrella headers|%s, %s' % (c, o), cc('c99', fl + OPTS[o]), UMB, 'c'
            if '-nostdlibinc' not in fl: yield 'umbrella headers|C++, %s, %s' % (c, o), cc('c++11', fl + OPTS[o]), UMB, 'cc'

DEF = re.compile(r'^(?!static |extern |typedef |struct |union |enum |#|//|/\*|\}|\s)(.*?)(\w+)\s*(\(.*\)\s*\{|(\[[^\]]*\])*\s*(=|;))')
def externals(text):
    """names the translation unit defines with external linkage"""
    out = []
    for l in text.splitlines():
        l = decls.ATTR.sub('', l)
        m = DEF.match(l)
        if not m: continue
        if '(' in m.group(3) or (m.group(3).endswith(';') or '=' in m.group(3)) and '(' not in m.group(1) and m.group(1).strip():
            if re.match(r'\s*inline\b', l) and '(' in m.group(3): pass
            out.append(m.group(2))
    return out

def provides(hs, fl):
    """names (of functions, types, macros) the headers in order provide, or None"""
    r = subprocess.run(['clang', '-x', 'c', '-std=c99', '-E', '-dD', '-I', build.INC] + fl + ['-'], input=''.join('#include <%s>\n' % h for h in hs), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if r.returncode: return None
    own = False; s = set()
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m: own = m.group(1).startswith(build.INC + '/cglm'); continue
        if not own: continue
        m = re.match(r'#define (\w+)', l)
        if m:
            if not GUARD.search(m.group(1)): s.add(m.group(1))
            continue
        if l.startswith('#'): continue
        s |= set(re.findall(r'\bglm\w*_\w+(?=\s*\()|\b\w+(?=\s*(?:\[\w*\])*;\s*$)', l))
    return s
GUARD = re.compile(r'(?i)_h_*$|^cglmc?_\w*(_h|_included)_*$')

def run(ck):
    ck.level = 'proof'
    ck.explanation = ('Each header is compiled alone, twice and after the umbrella header by the front ends of clang and gcc in several C and C++ dialects, options and targets '
                      '(strict ISO mode for C; undeclared identifiers are errors); the AST of the umbrella unit is searched for definitions with external linkage, '
                      'and its include closure and struct-API name sets are compared with the files and names there are.')
    ck.assumptions = ['clang 18 and gcc 13 accept exactly the programs of the dialect selected (with -pedantic-errors)']
    js = [j for j in jobs(ck) if ck.wants(j[0])]
    def one(part):
        E = Events()
        for k, cmd, t, x in part:
            e = syntax(cmd, t, x)
            E.count('compilations')
            if e: E.violate(k, 'does not compile: ' + e[:300])
            else: E.discharge(1)
        return E
    pmap(ck, one, [js[i::48] for i in range(48)])
    E = Events()
    hs = headers()
    # include closure
    for o, want in (('all', lambda h: not h.startswith(('simd/', 'handed/', 'struct/handed/')) and h not in ('applesimd.h', 'version.h')),
                    ('default', lambda h: '/' not in h and h not in ('applesimd.h', 'version.h') or re.match(r'(struct|call)/[^/]*$', h))):
        d = subprocess.run(['clang', '-M', '-I', build.INC] + OPTS[o] + ['-x', 'c', '-'], input=UMB, stdout=subprocess.PIPE, text=True)
        if d.returncode: continue
        got = {os.path.relpath(os.path.realpath(p), os.path.realpath(build.INC) + '/cglm') for p in re.findall(r'\S+\.h\b', d.stdout) if '/cglm/' in p}
        for h in hs:
            if not want(h): continue
            k = '%s reached|%s' % (h, o); E.count('headers reached')
            if h not in got: E.violate(k, 'no umbrella header (cglm.h, struct.h, call.h) includes it')
            else: E.discharge(1)
    # nothing a header provides is lost when other headers come before it
    for o in ('default', 'all_lh_zo'):
        use = [h for h in hs if not PART.match(h)]
        alone = dict(zip(use, cf.ThreadPoolExecutor(8).map(lambda h: provides(['cglm/' + h], OPTS[o]), use)))
        for t, order in (('in alphabetical order', use), ('in reverse order', use[::-1]), ('after the umbrella headers', ['cglm.h', 'struct.h', 'call.h'] + use)):
            every = provides(['cglm/' + h for h in order], OPTS[o])
            if every is None:
                E.violate('all headers together|%s, %s' % (t, o), 'do not preprocess'); continue
            for h in use:
                if alone[h] is None or not ck.wants(h): continue
                k = '%s among all|%s, %s' % (h, t, o); E.count('headers among all')
                lost = sorted(alone[h] - every)
                if lost: E.violate(k, 'declares %s on its own, but nothing declares it when all headers are included %s' % (', '.join(lost[:4]), t))
                else: E.discharge(1)
    # linkage
    for o in ('default', 'all', 'ndebug', 'ndebug_prints'):
        try: t = build.ast(UMB, 'sse2', tuple(OPTS[o]))
        except build.BuildError: continue
        sysnames = set(externals(build.ast('#include <stdint.h>\n#include <stddef.h>\n#include <stdlib.h>\n#include <math.h>\n#include <float.h>\n#include <stdbool.h>\n#include <stdio.h>\n#include <string.h>\n#include <assert.h>\n#include <errno.h>\n#include <immintrin.h>\n', 'sse2')))
        for n in externals(t):
            if n in sysnames: continue
            E.violate('%s linkage|%s' % (n, o), 'a header defines %s with external linkage: two translation units that include it do not link' % n)
        E.count('linkage units'); E.discharge(len(re.findall(r'^static inline', t, re.M)))
    # struct API naming options
    def names(o):
        t = build.ast(UMB, 'sse2', tuple(OPTS[o]))
        return {m.group(1) for m in re.finditer(r'^static inline [^\n(]*?\b(\w+)\(', decls.ATTR.sub('', t), re.M)}
    try: dflt, ns, om, su = names('default'), names('ns'), names('omit_ns'), names('suffix')
    except build.BuildError: dflt = None            # already reported above
    if dflt is not None:
        base = {n for n in dflt if n.startswith('glms_')}
        moved = {n for n in base if n not in ns}
        for n in sorted(base):
            b = n[5:]; k = '%s naming|options' % n
            if n in moved:
                ok = 'abc_' + b in ns and b in om and n not in om and any(b[:i] + 'Q' + b[i:] in {x[5:] for x in su if x.startswith('glms_')} for i in range(len(b)))
            else: ok = n in om and n in su
            E.count('struct names')
            if ok: E.discharge(1)
            else: E.violate(k, 'is not renamed consistently by CGLM_STRUCT_API_NS, CGLM_OMIT_NS_FROM_STRUCT_API and CGLM_STRUCT_API_NAME_SUFFIX')
    ck.merge(E)
    if not ck.viol: ck.floors({'compilations': 800, 'headers reached': 150, 'struct names': 500, 'linkage units': 1})
