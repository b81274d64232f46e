#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # property rows
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), technique='', level='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, state=state,
                  observe=observe, technique=technique, level=level, note=note, na=na))

VG = 'global value numbering: gated-SSA value graphs of the LLVM IR, normalised and compared cell by cell'
TB = ('Holds for all inputs as functions over the reals (rounding, overflow and NaN payloads are not distinguished). Trusts clang/opt 18 front end and inlining, '
      'the IR data-flow engine in cg/ and the lane semantics of intrinsics.')
SPEC = ' The oracle is the naive definition in specs/, written from the documentation and textbook mathematics.'
SMALL = 'The tests call each function with a handful of fixed or random inputs, in the default SSE2 x86-64 build only.'

exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                        'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in P:
    have = os.path.exists('%s/checks/%s.py' % (V, p['id'].lower()))
    if p['na']: na.append({'property': p['id'], 'reason': p['na']})
    elif have:
        checks.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else: na.append({'property': p['id'], 'reason': 'no check built yet'})
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every check reads the headers and src/ of the current working tree. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
