"""Compile-time witnesses: each fact is a static assertion of a translation unit which includes the headers; a false fact does not compile.
The compilers' diagnostics name the fact."""
import re, subprocess, tempfile
from . import build

def check(facts, cmd, head, ext='c', kw='_Static_assert'):
    """facts: [(key, constant expression)] -> {key: reason} for those which do not hold"""
    d = tempfile.mkdtemp(dir=build.tmpdir()); p = '%s/t.%s' % (d, ext)
    pre = head.count('\n')
    open(p, 'w').write(head + ''.join('%s(%s, "FACT");\n' % (kw, e) for k, e in facts))
    r = subprocess.run(cmd + ['-I', build.INC, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not r.returncode: return {}
    bad = {}
    for m in re.finditer(r'^%s:(\d+):\d+: error: (.*)$' % re.escape(p), r.stdout, re.M):
        n = int(m.group(1)) - 1 - pre
        if 0 <= n < len(facts): bad.setdefault(facts[n][0], m.group(2)[:200])
    if not bad: bad['headers'] = 'the unit does not compile: ' + r.stdout[:300]
    return bad
