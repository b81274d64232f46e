#!/usr/bin/env python3
"""Development tool: turns entries of tools/bugs/*.py into /verif/seeded/<id>/ after confirming them in a scratch copy.
usage: tools/seed.py [id...]     (no argument: every entry not yet in seeded/)"""
import os, sys, subprocess, json, shutil, glob, re, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
DEMO = '''#!/bin/sh
# builds the demonstration against the headers in the current directory's tree and runs it
d=$(dirname "$0"); t=$(mktemp -d) || exit 9; trap 'rm -rf "$t"' EXIT
%s
'''
def bug(id, prop, needs, what, edits, demo, flags='', cc='gcc', lib=False, script=None):
    BUGS.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo, flags=flags, cc=cc, lib=lib, script=script))
PRE = '#include <cglm/cglm.h>\n#include <cglm/struct.h>\n#include <stdio.h>\n#include <math.h>\nstatic int near_(float a, float b) { return fabsf(a - b) < 1e-3f * (1.0f + fabsf(b)); }\n'
for f in sorted(glob.glob(V + '/tools/bugs/*.py')): exec(open(f).read())

def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(cmd, str), **kw)
def do(b):
    w = '/tmp/w/seed/' + b['id']; r = w + '/repo'
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    d = w + '/demo'; os.makedirs(d)
    if b['script']: body = b['script']
    else:
        open(d + '/demo.c', 'w').write((PRE if 'int main' not in b['demo'] or '#include' not in b['demo'] else '') + (b['demo'] if 'int main' in b['demo'] else 'int main(void) {\n' + b['demo'] + '\n}\n'))
        src = '"$d/demo.c"' + (' $(find "$PWD/src" -name "*.c")' if b['lib'] else '')
        body = '%s -std=gnu11 -w -O1 %s -I "$PWD/include" -I "$PWD/src" -o "$t/demo" %s -lm || exit 8\n"$t/demo"' % (b['cc'], b['flags'], src)
    open(d + '/demo.sh', 'w').write(DEMO % body); os.chmod(d + '/demo.sh', 0o755)
    def run(): return sh([d + '/demo.sh'], r, timeout=250)
    a = run()
    if a.returncode: return b['id'], 'demo fails on the unchanged tree: rc=%d %s' % (a.returncode, a.stdout[-800:])
    for f, old, new in b['edits']:
        if not old:            # a new file
            open(r + '/' + f, 'w').write(new); continue
        t = open(r + '/' + f).read()
        if t.count(old) != 1: return b['id'], '%s: %d matches of %r' % (f, t.count(old), old[:60])
        open(r + '/' + f, 'w').write(t.replace(old, new))
    sh('git add -A -N .', r); p = sh('git diff', r).stdout
    a = run()
    if not a.returncode: return b['id'], 'demo passes with the change'
    scr = open('/opt/vp/build.sh').read().replace('/repo', r)
    open(w + '/build.sh', 'w').write(scr)
    scr = open('/opt/vp/test.sh').read().replace('/repo', r).replace('/opt/vp/build.sh', w + '/build.sh')
    open(w + '/test.sh', 'w').write(scr)
    t = sh(['bash', w + '/test.sh', w + '/out.json'], r)
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base.get('passed') or base.get('stable') or base)
    got = set(json.load(open(w + '/out.json'))['passed'])
    if not want <= got: return b['id'], 'tests fail: %s' % sorted(want - got)[:5]
    o = '%s/seeded/%s' % (V, b['id'])
    shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    for f in os.listdir(d): shutil.copy(d + '/' + f, o)
    open(o + '/patch.diff', 'wb').write(p)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w + '/repo/_build', ignore_errors=True)
    return b['id'], 'ok (demo rc %d)' % a.returncode

if __name__ == '__main__':
    ids = sys.argv[1:]
    todo = [b for b in BUGS if (b['id'] in ids if ids else not os.path.exists('%s/seeded/%s/meta.json' % (V, b['id'])))]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(do, todo): print(i, m)
