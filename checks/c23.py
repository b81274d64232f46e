"""C23: layout of the types: arrays, struct unions and their named members."""
from cg import build, asserts
from cg.driver import Events, pmap

V = {'vec2': ('float', 2), 'vec3': ('float', 3), 'vec4': ('float', 4), 'ivec2': ('int', 2), 'ivec3': ('int', 3), 'ivec4': ('int', 4), 'versor': ('float', 4)}
M = {'mat%d' % n if n == m else 'mat%dx%d' % (n, m): (n, m) for n in (2, 3, 4) for m in (2, 3, 4)}
NAMES = {'vec2': ['xy', 'ri', 'uv', 'st'], 'ivec2': ['xy', 'ri', 'uv', 'st'], 'vec3': ['xyz', 'rgb'], 'ivec3': ['xyz', 'rgb'],
         'vec4': ['xyzw', 'rgba'], 'ivec4': ['xyzw', 'rgba'], 'versor': ['xyzw']}

def facts(anon, unal, avx, al='_Alignof'):
    F = []
    def f(k, e): F.append((k, e))
    def align(t):
        if unal: return 4
        if t in ('mat4',): return 32 if avx else 16
        return 16 if t in ('vec4', 'versor', 'mat2') or t[-1] == '4' and t.startswith('mat') and t not in ('mat4',) else 4
    for t, (e, n) in V.items():
        f(t + ' size', 'sizeof(%s) == %d' % (t, 4 * n)); f(t + ' alignment', '%s(%s) == %d' % (al, t, align(t)))
        f(t + 's size', 'sizeof(%ss) == %d' % (t, 4 * n)); f(t + 's alignment', '%s(%ss) == %d' % (al, t, align(t)))
        f(t + 's raw', 'offsetof(%ss, raw) == 0 && sizeof(((%ss*)0)->raw) == %d' % (t, t, 4 * n))
        if anon:
            for w in NAMES[t]:
                for i, c in enumerate(w): f('%ss.%s' % (t, c), 'offsetof(%ss, %s) == %d && sizeof(((%ss*)0)->%s) == 4' % (t, c, 4 * i, t, c))
    if anon: f('versors.imag', 'offsetof(versors, imag) == 0 && sizeof(((versors*)0)->imag) == 12'); f('versors.real', 'offsetof(versors, real) == 12')
    for t, (c, r) in M.items():
        f(t + ' size', 'sizeof(%s) == %d' % (t, 4 * c * r)); f(t + ' alignment', '%s(%s) == %d' % (al, t, align(t)))
        f(t + ' column', 'sizeof(((%s*)0)[0][0]) == %d' % (t, 4 * r))
        f(t + 's size', 'sizeof(%ss) == %d' % (t, 4 * c * r)); f(t + 's alignment', '%s(%ss) == %d' % (al, t, align(t)))
        f(t + 's raw', 'offsetof(%ss, raw) == 0 && sizeof(((%ss*)0)->raw) == %d' % (t, t, 4 * c * r))
        f(t + 's col', 'offsetof(%ss, col) == 0 && sizeof(((%ss*)0)->col) == %d && sizeof(((%ss*)0)->col[0]) == %d' % (t, t, 4 * c * r, t, 4 * r))
        if anon:
            for i in range(c):
                for j in range(r): f('%ss.m%d%d' % (t, i, j), 'offsetof(%ss, m%d%d) == %d && sizeof(((%ss*)0)->m%d%d) == 4' % (t, i, j, 4 * (i * r + j), t, i, j))
    return F

def run(ck):
    ck.level = 'proof'
    ck.explanation = 'Size, alignment, member offset and member size of every type are static assertions which clang and gcc evaluate for each dialect, option and target.'
    ck.assumptions = ['the compilers evaluate sizeof, alignment and offsetof correctly']
    jobs = []
    for cfg in ['scalar', 'sse2', 'avx', 'scalar_unal', 'avx_unal', 'neon64', 'neon32', 'wasm']:
        fl = build.CONFIGS[cfg]; unal = 'unal' in cfg; avx = cfg.startswith('avx')
        for an in (1, 0):
            d = ['-DCGLM_USE_ANONYMOUS_STRUCT=%d' % an]
            jobs.append(('clang C11, %s, anonymous %d' % (cfg, an), ['clang', '-std=gnu11', '-fsyntax-only', '-w'] + fl + d, 'c', '_Static_assert', facts(an, unal, avx)))
            jobs.append(('clang C++11, %s, anonymous %d' % (cfg, an), ['clang++', '-x', 'c++', '-std=gnu++11', '-fsyntax-only', '-w'] + fl + d, 'cc', 'static_assert', facts(an, unal, avx, '__alignof__')))
            if not [x for x in fl if x.startswith('--target') and 'x86_64' not in x]:
                g = [x for x in fl if not x.startswith('--target')]
                jobs.append(('gcc C11, %s, anonymous %d' % (cfg, an), ['gcc', '-std=gnu11', '-fsyntax-only', '-w'] + g + d, 'c', '_Static_assert', facts(an, unal, avx)))
                jobs.append(('gcc C++11, %s, anonymous %d' % (cfg, an), ['g++', '-x', 'c++', '-std=gnu++11', '-fsyntax-only', '-w'] + g + d, 'cc', 'static_assert', facts(an, unal, avx, '__alignof__')))
    # when nothing is said, C11 and gnu dialects have the members, strict C99 has not
    jobs.append(('clang C11, default', ['clang', '-std=c11', '-fsyntax-only', '-w'], 'c', '_Static_assert', facts(1, 0, 0)))
    jobs.append(('clang gnu99, default', ['clang', '-std=gnu99', '-fsyntax-only', '-w'], 'c', '_Static_assert', facts(1, 0, 0)))
    jobs.append(('clang gnu++11, default', ['clang++', '-x', 'c++', '-std=gnu++11', '-fsyntax-only', '-w'], 'cc', 'static_assert', facts(1, 0, 0, '__alignof__')))
    def one(j):
        E = Events(); n, cmd, ext, kw, F = j
        F = [f for f in F if ck.wants(f[0])]
        head = '#include <stddef.h>\n#include <cglm/types-struct.h>\n' if '-nostdlibinc' not in cmd else '#include <cglm/common.h>\n#include <cglm/types-struct.h>\n'
        bad = asserts.check(F, cmd, head, ext, kw)
        for k, e in F:
            E.count('facts')
            if k in bad: E.violate('%s|%s' % (k, n), 'does not hold: %s (%s)' % (e, bad[k]))
            elif 'headers' in bad: pass
            else: E.discharge(1)
        if 'headers' in bad: E.violate('headers|%s' % n, bad['headers'])
        E.count('configurations')
        return E
    pmap(ck, one, jobs)
    ck.floors({'facts': 5000, 'configurations': len(jobs)})
