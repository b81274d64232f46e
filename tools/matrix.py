#!/usr/bin/env python3
"""Development tool: run checks against planted changes in scratch copies.  usage: tools/matrix.py [-a] [bug ids...]
(-a: every claimed check, otherwise only the bug's own property)"""
import sys, os, json, subprocess, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; al = '-a' in args; args = [a for a in args if a != '-a']
checks = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
ids = args or sorted(os.listdir(V + '/seeded'))
def do(b):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    r = '/tmp/w/matrix/' + b
    shutil.rmtree(r, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    subprocess.check_call(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, b)], cwd=r)
    out = []
    for c in (checks if al else [m['property']]):
        if c not in checks: out.append((c, 'no check')); continue
        p = subprocess.run([V + '/check', c], env=dict(os.environ, CGLM_REPO=r, VERIF_EVID=r + '/evid', VERIF_MAXV='2'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION property=' + c)]
        if p.returncode: out.append((c, 'rc %d%s' % (p.returncode, '' if hit else ' NO VIOLATION LINE'), p.stdout.strip().split('\n')[2][:160] if hit else p.stdout[-300:]))
        elif not al: out.append((c, 'MISSED'))
    shutil.rmtree(r, ignore_errors=True)
    return b, m['property'], out
with cf.ThreadPoolExecutor(2) as ex:
    for b, p, o in ex.map(do, ids): print(b, p, o, flush=True)
