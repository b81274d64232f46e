"""Front end: compile /repo's current headers under one configuration to LLVM
IR and normalise its shape (inlining, SSA, unrolling).  Nothing is executed."""
import os, re, subprocess, tempfile, shutil, hashlib, atexit, concurrent.futures as cf
from . import decls

REPO = os.environ.get('CGLM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = REPO + '/include'
CLANG = os.environ.get('VERIF_CLANG', 'clang')
OPT = os.environ.get('VERIF_OPT', 'opt')
if not shutil.which(OPT) and os.path.exists('/usr/lib/llvm-18/bin/opt'): OPT = '/usr/lib/llvm-18/bin/opt'
LINK = 'llvm-link' if shutil.which('llvm-link') else '/usr/lib/llvm-18/bin/llvm-link'

class BuildError(Exception):
    pass

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='cgverif_')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid: shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp

UNSSE = ['-U__SSE__', '-U__SSE2__', '-U__SSE3__', '-U__SSSE3__', '-U__SSE4_1__', '-U__SSE4_2__', '-U__AVX__', '-U__AVX2__', '-U__FMA__']
X86 = ['--target=x86_64-unknown-linux-gnu']
SHIM = ['-nostdlibinc', '-isystem', VERIF + '/shim']
CONFIGS = {
    'scalar':  X86 + UNSSE,
    'sse2':    X86,
    'sse2_nid': X86 + ['-DCGLM_NO_INT_DOMAIN'],
    'sse3':    X86 + ['-msse3'],
    'sse3dot': X86 + ['-msse3', '-DCGLM_SSE3_DOT'],
    'sse4':    X86 + ['-msse4.2'],
    'sse4dot': X86 + ['-msse4.2', '-DCGLM_SSE4_DOT'],
    'avx':     X86 + ['-mavx'],
    'avx2fma': X86 + ['-mavx2', '-mfma'],
    'avx_fma_nid': X86 + ['-mavx', '-mfma', '-DCGLM_NO_INT_DOMAIN'],
    'sse2_unal': X86 + ['-DCGLM_ALL_UNALIGNED'],
    'avx_unal': X86 + ['-mavx', '-DCGLM_ALL_UNALIGNED'],
    'scalar_unal': X86 + UNSSE + ['-DCGLM_ALL_UNALIGNED'],
    'sse1':    ['--target=i686-unknown-linux-gnu', '-msse', '-mno-sse2'] + SHIM,
    'fast':    X86 + ['-DCGLM_FAST_MATH'],
    'neon64':  ['--target=aarch64-unknown-linux-gnu'] + SHIM,
    'neon32':  ['--target=armv7a-unknown-linux-gnueabihf', '-mfpu=neon-vfpv4', '-mfloat-abi=hard'] + SHIM,
    'wasm':    ['--target=wasm32-unknown-unknown', '-msimd128'] + SHIM,
    'wasm_relaxed': ['--target=wasm32-unknown-unknown', '-msimd128', '-mrelaxed-simd'] + SHIM,
}
CLIP = {
    'rh_no': [],
    'lh_no': ['-DCGLM_FORCE_LEFT_HANDED'],
    'rh_zo': ['-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'],
    'lh_zo': ['-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'],
}

PASSES = ','.join([
    'always-inline',
    'function(sroa,early-cse,instsimplify,simplifycfg)',
    'cgscc(inline)',
    'function(sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg,sccp,instsimplify,'
    'loop-simplify,lcssa,loop(loop-rotate),simplifycfg,loop-simplify,lcssa,loop(indvars),loop(loop-unroll-full),'
    'sroa<modify-cfg>,early-cse<memssa>,instsimplify,sccp,simplifycfg,'
    'loop-simplify,lcssa,loop(loop-rotate,indvars),loop(loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,instsimplify,sccp,adce,simplifycfg<no-switch-range-to-icmp;no-switch-to-lookup;no-sink-common-insts>,adce,lcssa)',
])
OPTFLAGS = ['-inline-threshold=10000000', '-inlinehint-threshold=10000000', '-inlinecold-threshold=10000000',
            '-unroll-threshold=4000000', '-unroll-max-iteration-count-to-analyze=600', '-unroll-max-percent-threshold-boost=100000',
            '-unroll-full-max-count=64', '-unroll-partial-threshold=0', '-unroll-runtime=false', '-unroll-allow-partial=false', '-phi-node-folding-threshold=1']

def run(cmd, inp=None):
    p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr.decode('utf8', 'replace')[:3000]))
    return p.stdout

# what gcc 13 accepts with a warning is analysed too (C22 asks for strict code)
LAX = ['-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-Wno-error=implicit-int']

def ast(src, config, extra=()):
    # a file of its own: workers of one check run side by side
    fd, f = tempfile.mkstemp(suffix='.c', prefix='ast_', dir=tmpdir())
    with os.fdopen(fd, 'w') as h: h.write(src)
    try: return run([CLANG, '-fsyntax-only'] + LAX + ['-Xclang', '-ast-print', '-std=gnu11', '-I', INC, '-I', VERIF + '/specs'] + CONFIGS[config] + list(extra) + [f]).decode()
    finally: os.unlink(f)

HEAD = '#include <cglm/cglm.h>\n#include <cglm/struct.h>\n#include <cglm/call.h>\n'
# the clip-space specific headers are reachable one by one whatever the default clip space is
for _d in ('clipspace', 'handed', 'struct/clipspace', 'struct/handed', 'call/clipspace', 'call/handed'):
    _p = os.path.join(INC, 'cglm', _d)
    if os.path.isdir(_p):
        HEAD += ''.join('#include <cglm/%s/%s>\n' % (_d, _f) for _f in sorted(os.listdir(_p)) if _f.endswith('.h'))

def inventory(config='scalar', extra=(), head=HEAD):
    return decls.parse_ast_print(ast(head, config, extra))

def cflags(config, extra=()):
    return ['-std=gnu11'] + LAX + ['-O2', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-ffp-contract=off',
            '-fno-math-errno', '-ftrivial-auto-var-init=pattern', '-fno-stack-protector', '-fno-vectorize', '-fno-slp-vectorize', '-fno-discard-value-names',
            '-gline-tables-only', '-I', INC, '-I', VERIF + '/specs', '-I', REPO + '/src'] + CONFIGS[config] + list(extra)

def front(src, config, extra=()):
    """textual IR of one unit as the front end emits it"""
    f = os.path.join(tempfile.mkdtemp(dir=tmpdir()), 'u.c')
    open(f, 'w').write(src)
    try: return run([CLANG] + [x for x in cflags(config) if not x.startswith('-std')] + list(extra) + ['-emit-llvm', '-S', f, '-o', '-']).decode()
    finally: os.unlink(f)

def compile_bc(src, config, extra=(), name='tu', optimise=True, libsrc=False, passes=None):
    """compile one C text (plus, with libsrc, all of /repo/src/*.c) to normalised textual IR"""
    d = tempfile.mkdtemp(dir=tmpdir())
    c = os.path.join(d, name + '.c')
    open(c, 'w').write(src)
    out = os.path.join(d, name + '.bc')
    run([CLANG] + cflags(config, extra) + ['-emit-llvm', '-c', c, '-o', out])
    if libsrc:
        bcs = [out]
        srcs = lib_sources()
        def one(s):
            o = os.path.join(d, re.sub(r'\W', '_', os.path.relpath(s, REPO)) + '.bc')
            run([CLANG] + cflags(config, extra) + ['-emit-llvm', '-c', s, '-o', o])
            return o
        with cf.ThreadPoolExecutor(8) as ex:
            bcs += list(ex.map(one, srcs))
        lo = os.path.join(d, name + '_linked.bc')
        run([LINK] + bcs + ['-o', lo])
        out = lo
    ll = os.path.join(d, name + '.ll')
    if optimise:
        run([OPT] + OPTFLAGS + ['-passes=' + (passes or PASSES), out, '-S', '-o', ll])
    else:
        run([OPT, '-passes=verify', out, '-S', '-o', ll])
    t = open(ll).read()
    shutil.rmtree(d, ignore_errors=True)
    return t

def lib_sources():
    r = []
    for root, _, fs in os.walk(REPO + '/src'):
        if 'swift' in root: continue
        r += [os.path.join(root, f) for f in fs if f.endswith('.c')]
    return sorted(r)

def chunks(items, n):
    k = max(1, (len(items) + n - 1) // n)
    return [items[i:i + k] for i in range(0, len(items), k)]
