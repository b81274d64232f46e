"""C31: every build system compiles all of src/ and installs a set of headers closed under inclusion."""
import os, re, glob
from xml.etree import ElementTree
from cg import build
from cg.driver import Broken

def strip_hash(t): return re.sub(r'(^|\s)#[^\n]*', r'\1', t)

def automake(t):
    """variables of a Makefile.am: continuation lines joined, += appended"""
    v = {}
    for l in strip_hash(re.sub(r'\\\n', ' ', t)).split('\n'):
        m = re.match(r'^([A-Za-z]\w*)\s*(\+?=)\s*(.*)$', l)
        if m: v[m.group(1)] = (v.get(m.group(1), '') + ' ' if m.group(2) == '+=' else '') + m.group(3)
    def expand(s, d=0):
        if d > 20: return s
        return re.sub(r'\$[({](\w+)[)}]', lambda m: expand(v[m.group(1)], d + 1) if m.group(1) in v else m.group(0), s)
    return {k: expand(s) for k, s in v.items()}

def parens(t, name):
    """argument texts of the calls name(...)"""
    out = []
    for m in re.finditer(r'(?<![\w.])%s\s*\(' % name, t):
        d = 1; i = m.end()
        while d and i < len(t):
            d += {'(': 1, ')': -1}.get(t[i], 0); i += 1
        out.append(t[m.end():i - 1])
    return out

def includes(path):
    """(quoted?, name) of the include directives outside comments"""
    t = re.sub(r'/\*.*?\*/', ' ', open(path, errors='replace').read(), flags=re.S)
    t = re.sub(r'//[^\n]*', '', t)
    return [(m.group(1) == '"', m.group(2)) for m in re.finditer(r'^[ \t]*#[ \t]*include[ \t]*([<"])([^">]+)[">]', t, re.M)]

def run(ck):
    ck.level = 'proof'
    ck.explanation = ('Build description query: the source lists of the autotools, CMake, Meson and Visual Studio builds are compared with the files of src/, the automake header lists (and the directory each is installed to) and the '
                      'directory installs of CMake and Meson with include/, and every include directive of an installed header must name, from the place it is installed to, another installed header.')
    ck.assumptions = ['src/swift/ belongs to the Swift package alone; Package.swift and the podspec take whole directories']
    R = build.REPO
    rd = lambda f: open(os.path.join(R, f)).read()
    rel = lambda p: os.path.relpath(p, R)
    tree = sorted(rel(p) for p in glob.glob(R + '/src/**/*.c', recursive=True) if '/swift/' not in p)
    heads = sorted(rel(p) for p in glob.glob(R + '/include/**/*.h', recursive=True))
    if not tree or not heads: raise Broken('no sources found')
    # a source file without any external definition need not be linked
    def matters(f): return bool(re.search(r'CGLM_EXPORT|DllMain', rd(f)))
    lists = {}
    if os.path.exists(R + '/Makefile.am'):
        V = automake(rd('Makefile.am'))
        lists['Makefile.am'] = set(V.get('libcglm_la_SOURCES', '').split())
    if os.path.exists(R + '/CMakeLists.txt'):
        t = strip_hash(rd('CMakeLists.txt'))
        sets = dict((a.split()[0], ' '.join(a.split()[1:])) for a in parens(t, 'set') if a.split())
        s = set()
        for a in parens(t, 'add_library') + parens(t, 'target_sources'):
            a = re.sub(r'\$\{(\w+)\}', lambda m: sets.get(m.group(1), m.group(0)), a)
            s |= set(re.findall(r'[\w./-]+\.c\b', a))
        for a in parens(t, 'file'):
            w = a.split()
            if w and w[0].startswith('GLOB'):
                for pat in w[2:]: s |= {rel(p) for p in glob.glob(os.path.join(R, re.sub(r'\$\{\w+\}/', '', pat.strip('"'))), recursive='RECURSE' in w[0])}
        lists['CMakeLists.txt'] = s
    if os.path.exists(R + '/meson.build'):
        lists['meson.build'] = set(re.findall(r"'([\w./-]+\.c)'", strip_hash(rd('meson.build'))))
    if os.path.exists(R + '/win/cglm.vcxproj'):
        x = ElementTree.fromstring(rd('win/cglm.vcxproj').lstrip('\ufeff'))
        lists['win/cglm.vcxproj'] = {os.path.normpath('win/' + e.get('Include').replace('\\', '/')) for e in x.iter() if e.tag.endswith('ClCompile') and e.get('Include')}
    for b, s in lists.items():
        s = {os.path.normpath(f) for f in s}
        ck.count('source lists')
        for f in tree:
            ck.count('sources')
            if f in s or f == 'src/dllmain.c' and b == 'CMakeLists.txt' or not matters(f): ck.discharge(1, {'build': b, 'source': f})
            else: ck.violate('%s|%s' % (b, f), '%s does not compile %s' % (b, f))
        for f in sorted(s - set(tree)):
            if not f.startswith('src/'): continue
            if not os.path.exists(os.path.join(R, f)): ck.violate('%s|%s' % (b, f), '%s names %s, which does not exist' % (b, f))
    # installed headers: path in the tree -> path below $(includedir)
    inst = {}
    if 'Makefile.am' in lists:
        d = inst['Makefile.am'] = {}
        for k, v in V.items():
            m = re.match(r'^(nobase_)?(\w+)_HEADERS$', k)
            if not m or m.group(2).startswith('no'): continue
            base = '$(includedir)' if m.group(2) == 'include' else V.get(m.group(2) + 'dir')
            if base is None: ck.violate('Makefile.am|' + k, '%s has no %sdir' % (k, m.group(2))); continue
            base = base.replace('${includedir}', '$(includedir)')
            for f in v.split():
                d[os.path.normpath(f)] = os.path.normpath(os.path.relpath(base, '$(includedir)') + '/' + (f if m.group(1) else os.path.basename(f)))
    def whole(b, src):
        inst[b] = {h: os.path.relpath(h, 'include') for h in heads if h.startswith(src)}
    if 'CMakeLists.txt' in lists:
        t = re.sub(r'\$\{PROJECT_NAME\}', 'cglm', strip_hash(rd('CMakeLists.txt')))
        for a in parens(t, 'install'):
            w = a.replace('"', ' ').split()
            if w and w[0] == 'DIRECTORY' and w[1].startswith('include/cglm'): whole('CMakeLists.txt', 'include/cglm/')
            elif w and w[0] == 'DIRECTORY' and w[1].rstrip('/') == 'include': whole('CMakeLists.txt', 'include/')
    if 'meson.build' in lists:
        if re.search(r"install_subdir\s*\(\s*'include/cglm'", strip_hash(rd('meson.build'))): whole('meson.build', 'include/cglm/')
    for b, d in inst.items():
        ck.count('install lists')
        there = set(d.values())
        roots = {'include/cglm/cglm.h', 'include/cglm/call.h', 'include/cglm/struct.h'} & set(heads)
        for r in sorted(roots - set(d)): ck.violate('%s|%s' % (b, r), '%s does not install %s' % (b, r))
        for f, to in sorted(d.items()):
            ck.count('headers')
            p = os.path.join(R, f)
            if not os.path.exists(p): ck.violate('%s|%s' % (b, f), '%s installs %s, which does not exist' % (b, f)); continue
            if to != os.path.relpath(f, 'include'): ck.violate('%s|%s' % (b, f), '%s installs %s as %s' % (b, f, to)); continue
            for q, n in includes(p):
                ck.count('include directives')
                t = os.path.normpath(os.path.join(os.path.dirname(to), n)) if q else n
                # an absent quoted file may be a system header
                src = os.path.normpath(os.path.join(os.path.dirname(f), n)) if q else 'include/' + n
                if t in there: ck.discharge(1)
                elif os.path.exists(os.path.join(R, src)): ck.violate('%s|%s|%s' % (b, f, n), '%s includes %s, which %s does not install' % (f, n, b))
                else: ck.discharge(1)
    ck.extra = {'checker_cmd': './check C31', 'trusted_base': ['checks/c31.py (reading of the four build descriptions)']}
    ck.floors({'source lists': 4, 'sources': 180, 'install lists': 3, 'include directives': 1000})
