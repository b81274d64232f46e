#!/usr/bin/env python3
"""Runs every check on behaviour-preserving rewrites of a copy of /repo (tools/refactors/*.py); every check must stay quiet.
usage: tools/quiet.py [-t] [file-regex] [check ...]"""
import sys, os, re, glob, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
test = '-t' in args
args = [a for a in args if a != '-t']
pat = args[0] if args else '.'
checks = args[1:] or ['C%02d' % i for i in range(1, 41) if os.path.exists('%s/checks/c%02d.py' % (V, i))]
T = os.environ.get('QUIET', '/root/quiet')
for f in sorted(glob.glob(V + '/tools/refactors/*.py')):
    if not re.search(pat, os.path.basename(f)): continue
    shutil.rmtree(T, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', T], check=True)
    def rd(p): return open(T + '/' + p).read()
    def wr(p, s): open(T + '/' + p, 'w').write(s)
    def span(s, fn):
        m = re.search(r'^%s\s*\(' % re.escape(fn), s, re.M)
        assert m, fn
        i = s.index('{\n', m.start()); j = re.compile(r'^\}', re.M).search(s, i).start()
        return m.start(), i + 1, j
    def body(p, fn, new):
        s = rd(p); _, i, j = span(s, fn); wr(p, s[:i] + '\n' + new.strip('\n') + '\n' + s[j:])
    def sub(p, a, b):
        s = rd(p); assert a in s, (p, a); wr(p, s.replace(a, b, 1))
    def before(p, fn, text):
        s = rd(p); k, _, _ = span(s, fn); k = s.rindex('/*!', 0, k) if '/*!' in s[:k] else k; wr(p, s[:k] + text.strip('\n') + '\n\n' + s[k:])
    exec(open(f).read(), dict(ROOT=T, body=body, sub=sub, before=before, rd=rd, wr=wr))
    os.chdir(T)
    print('==', os.path.basename(f), subprocess.run(['git', '-C', T, 'diff', '--shortstat'], capture_output=True, text=True).stdout.strip(), flush=True)
    if test:
        r = subprocess.run('cd %s && mkdir -p bq && cd bq && (cmake .. -DCGLM_USE_TEST=ON -DCMAKE_BUILD_TYPE=Release >/dev/null && make -j8 >/dev/null 2>&1 && ./tests 2>&1 | tail -4)' % T, shell=True, capture_output=True, text=True)
        print(r.stdout[-400:], r.stderr[-300:], flush=True)
    env = dict(os.environ, CGLM_REPO=T, VERIF_EVID='/tmp/evq')
    for c in checks:
        r = subprocess.run([V + '/check', c], capture_output=True, text=True, env=env, cwd=V)
        und = re.search(r'(\d+) undecided', r.stdout)
        if r.returncode or und and int(und[1]):
            print(c, 'rc=%d' % r.returncode, 'undecided', und and und[1])
            for l in r.stdout.split('\n'):
                if l.startswith(('    ', 'UNDEC', 'ANALYSIS')) and not l.startswith('      '): print('   ', l[:330])
            sys.stdout.flush()
if not os.environ.get('KEEP'): shutil.rmtree(T, ignore_errors=True)
