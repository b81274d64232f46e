"""C24: constants, initialisers, alias macros and version numbers."""
import re, subprocess
from decimal import Decimal as D, getcontext
from cg import spec, build, asserts
from cg.driver import Events

def consts():
    """reference values computed to 50 digits"""
    getcontext().prec = 60
    def atan_inv(n):
        x = D(1) / n; s = x; t = x; k = 1
        while abs(t) > D(10) ** -58:
            t = -t / (n * n); k += 2; s += t / k
        return s
    pi = 4 * (4 * atan_inv(5) - atan_inv(239)); e = D(1).exp(); tau = 2 * pi
    return {'E': e, 'LOG2E': 1 / D(2).ln(), 'LOG10E': 1 / D(10).ln(), 'LN2': D(2).ln(), 'LN10': D(10).ln(), 'PI': pi, 'PI_2': pi / 2, 'PI_4': pi / 4,
            '1_PI': 1 / pi, '2_PI': 2 / pi, 'TAU': tau, 'TAU_2': pi, 'TAU_4': pi / 2, '1_TAU': 1 / tau, '2_TAU': 2 / tau, '2_SQRTPI': 2 / pi.sqrt(),
            'SQRTTAU': tau.sqrt(), '2_SQRTTAU': 2 / tau.sqrt(), 'SQRT2': D(2).sqrt(), 'SQRT1_2': 1 / D(2).sqrt()}

def run(ck):
    K = ('rh_no', 'rh_zo', 'lh_no', 'lh_zo')
    spec.run_spec(ck, ['c24.h'], quick=['scalar', 'sse2'], clips=('rh_no', 'lh_zo'), clips_more=K, floor=100)
    spec.run_spec(ck, ['c24b.h'], quick=['sse2'], more=['scalar'], parts=1, libsrc=True)
    ck.explanation += (' Numeric constants are compared by static assertion with values computed to 50 digits; version numbers with the build system\'s.')
    E = Events()
    mac = subprocess.run(['clang', '-dM', '-E', '-I', build.INC, '-x', 'c', '-'], input='#include <cglm/cglm.h>\n#include <cglm/version.h>\n', stdout=subprocess.PIPE, text=True).stdout
    M = dict(re.findall(r'^#define (\w+) (.*)$', mac, re.M))
    F = []
    for n, v in sorted(consts().items()):
        for suffix, ulp, T in (('', 53, 'double'), ('f', 24, 'float')):
            m = 'GLM_%s%s' % (n, suffix)
            if m not in M:
                if (m in ('GLM_2_SQRTTAU', 'GLM_SQRTTAUf')): continue
                E.violate(m + '|constant', 'is not defined'); continue
            r = '%.40e' % v
            F.append((m, '(%s) - %sL <= %sL / %d.0L && %sL - (%s) <= %sL / %d.0L' % (m, r, r, 1 << ulp, r, m, r, 1 << ulp)))
            F.append((m + ' type', '__is_same(decltype(%s), %s)' % (m, T)))
    for a, b in (('CGLM_PI', 'GLM_PIf'), ('CGLM_PI_2', 'GLM_PI_2f'), ('CGLM_PI_4', 'GLM_PI_4f'), ('GLM_LBN', '0'), ('GLM_LTN', '1'), ('GLM_RTN', '2'), ('GLM_RBN', '3'),
                 ('GLM_LBF', '4'), ('GLM_LTF', '5'), ('GLM_RTF', '6'), ('GLM_RBF', '7'), ('GLM_LEFT', '0'), ('GLM_RIGHT', '1'), ('GLM_BOTTOM', '2'), ('GLM_TOP', '3'),
                 ('GLM_NEAR', '4'), ('GLM_FAR', '5'), ('GLM_XXX', '0'), ('GLM_YYY', '21'), ('GLM_ZZZ', '42'), ('GLM_ZYX', '6'), ('GLM_XXXX', '0'), ('GLM_YYYY', '85'),
                 ('GLM_ZZZZ', '170'), ('GLM_WWWW', '255'), ('GLM_WZYX', '27'), ('GLM_SHUFFLE2(1, 0)', '4'), ('GLM_SHUFFLE3(2, 1, 0)', '36'), ('GLM_SHUFFLE4(3, 2, 1, 0)', '228'),
                 ('GLM_EULER_XYZ', '36'), ('GLM_EULER_XZY', '24'), ('GLM_EULER_YXZ', '33'), ('GLM_EULER_YZX', '9'), ('GLM_EULER_ZXY', '18'), ('GLM_EULER_ZYX', '6')):
        F.append((a, '(%s) == (%s)' % (a, b)))
    F = [f for f in F if ck.wants(f[0])]
    for name, cmd in (('clang', ['clang++', '-x', 'c++', '-std=gnu++17', '-fsyntax-only', '-w']), ('gcc', ['g++', '-x', 'c++', '-std=gnu++17', '-fsyntax-only', '-w'])):
        bad = asserts.check(F, cmd, '#include <cglm/cglm.h>\n', 'cc', 'static_assert')
        for k, e in F:
            E.count('constants')
            if k in bad: E.violate('%s|%s' % (k, name), 'does not have its value: %s' % M.get(k.split(' ')[0], ''))
            elif 'headers' not in bad: E.discharge(1)
    v = '.'.join(M.get('CGLM_VERSION_' + x, '?') for x in ('MAJOR', 'MINOR', 'PATCH'))
    for f, rx in (('CMakeLists.txt', r'VERSION\s+(\d+\.\d+\.\d+)'), ('meson.build', r"version\s*:\s*'(\d+\.\d+\.\d+)'")):
        try: m = re.search(rx, open(build.REPO + '/' + f).read())
        except OSError: m = None
        if not m: continue
        E.count('version numbers')
        if m.group(1) == v: E.discharge(1)
        else: E.violate('version|' + f, 'version.h says %s, %s says %s' % (v, f, m.group(1)))
    ck.merge(E)
    ck.floors({'constants': 140})
