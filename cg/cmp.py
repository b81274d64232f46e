"""Evaluate wrapper instances and compare their final memory cell by cell."""
import json, re, signal, time
from . import build, model, llir, ev, alg, bisim, witness
from .driver import Events, Broken

API = None
def api():
    global API
    if API is None: API = json.load(open(build.VERIF + '/api.json'))
    return API

def insts_of(fns, names, prefix='W_', counts=model.COUNTS):
    out, bad = [], []
    for n in names:
        f = fns.get(n)
        if f is None: bad.append((n, 'absent')); continue
        try: out += model.instances(f, counts=counts, prefix=prefix)
        except model.Unsupported as e: bad.append((n, str(e)))
    return out, bad

def source(insts, head=build.HEAD):
    return head + '\n'.join(i.text for i in insts) + '\n'

def compile_insts(insts, config, extra=(), head=build.HEAD, libsrc=False, pre=''):
    ll = build.compile_bc(head + pre + '\n'.join(i.text for i in insts) + '\n', config, extra, libsrc=libsrc)
    return llir.parse(ll, lambda n: n.startswith(('W_', 'V_')))

class limit:
    """bounds one obligation in time; running out is a Budget event, never a verdict"""
    def __init__(self, s): self.s = s
    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self.hit); signal.setitimer(signal.ITIMER_REAL, self.s)
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, self.old)
    @staticmethod
    def hit(*a): raise alg.Budget('time')
LIMIT = 40

class Out:
    """final values: {slot name: [Poly|None]}"""
    __slots__ = ('vals', 'res', 'err')

def evaluate(mod, inst, **kw):
    o = Out(); o.err = None; o.vals = {}; o.res = None
    try:
        with limit(LIMIT): r = ev.run_wrapper(mod, inst, **kw)
        o.res = r
        names = kw.get('names') or {}; alias = kw.get('alias') or {}
        for s in inst.slots:
            if s.kind != 'obj': continue
            t = alias.get(s.name, s.name)
            ob = r.objs[names.get(t, t)]
            o.vals[s.name] = ev.cells(r, ob, s.cells, s.elem)
    except (ev.Unsupported, alg.Budget) as e:
        o.err = '%s: %s' % (type(e).__name__, e)
    except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError, ZeroDivisionError, NotImplementedError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        o.err = 'engine: %s %s at %s:%d' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno)
    return o

def region(case):
    return ' and '.join(alg.show_pred(v, o) for v, o in case) or 'every input'

def diff_cells(a, b, facts=None):
    """('eq'|'ne'|'und', text)"""
    if a is None and b is None: return 'eq', ''
    if a is None or b is None: return 'ne', 'uninitialised value on one side'
    def giveup(why):
        try:
            with limit(LIMIT): w = witness.find(a, b, (), tries=24, assume=facts.items if facts is not None else ())
        except (alg.Budget, RecursionError): w = None
        if w and not abs(w[1][0] - w[1][1]) <= 1e-3 * max(map(abs, w[1])): return 'ne', 'for example at %s: %.7g against %.7g' % (witness.show(w[0])[:300], *w[1])
        return 'und', why
    try:
        with limit(LIMIT): d = alg.equal(a, b, facts) if facts is not None else alg.equal(a, b)
    except alg.Budget as e: return giveup('budget: %s' % e)
    except (RecursionError, ZeroDivisionError, KeyError, IndexError, TypeError, AttributeError) as e:
        return 'und', 'engine: %s %s' % (type(e).__name__, e)
    if d.eq is True:
        for x in d.edges[:4]:
            try:
                with limit(6): w = witness.find_edge(a, b, x.case, assume=facts.items if facts is not None else ())
            except (alg.Budget, RecursionError): w = None
            if w: return 'ne', 'for example at %s: %.7g against %.7g' % (witness.show(w[0])[:300], *w[1])
        return 'eq', ''
    if d.eq is None: return giveup(d.why or 'undecided')
    if facts is not None and facts.items: assume = facts.items
    else: assume = ()
    und = None; left = LIMIT
    for n, x in enumerate(d.alts):
        fc = [(alg.PREDS[v][1], o - 1) for v, o in x.case if alg.PREDS[v][0] == 's']
        t0 = time.time(); w = None
        if left > 0:
            try:
                with limit(left): w = witness.find(a, b, fc, assume=assume, tries=160 if n == 0 else 60)
            except (alg.Budget, RecursionError): pass
        left -= time.time() - t0
        if w: return 'ne', 'for example at %s: %.7g against %.7g; in the region {%s} they differ by %s' % (witness.show(w[0])[:300], w[1][0], w[1][1], region(x.case)[:400], alg.show(x.diff, 6)[:300])
        if not (any(not witness.linear(p) for p, s in fc + list(assume)) or any(s == 0 for p, s in fc) or not witness.polynomial(x.diff)):
            return 'ne', 'in the region {%s} they differ by %s' % (region(x.case)[:600], alg.show(x.diff, 6)[:500])
        und = und or 'no point found in the region {%s} where they would differ' % region(x.case)[:300]
    return 'und', und

def compare_vals(key, va, vb, E, la='left', lb='right', slots=None, facts=None, xform=None, ok=None):
    """compare two {slot: cells}; reports into E; returns True when all equal"""
    bad = None; und = None
    for s in (slots or sorted(set(va) | set(vb))):
        ca, cb = va.get(s), vb.get(s)
        if ca is None or cb is None:
            bad = bad or (s, 'object missing on one side', None, None); continue
        for i, (x, y) in enumerate(zip(ca, cb)):
            if xform:
                x = None if x is None else xform(x); y = None if y is None else xform(y)
            r, t = diff_cells(x, y, facts)
            if r == 'ne' and bad is None: bad = ('%s[%d]' % (s, i), t, x, y)
            elif r == 'und' and und is None: und = ('%s[%d]' % (s, i), t)
    if bad:
        E.violate(key, '%s: %s' % (bad[0], bad[1]), **{la: 'undefined' if bad[2] is None else alg.show(bad[2]), lb: 'undefined' if bad[3] is None else alg.show(bad[3])})
        return False
    if und:
        E.undecide(key, '%s: %s' % und); return None
    smp = None
    if getattr(E, 'nsamp', 0) < 3 and hasattr(E, 'nsamp'):
        E.nsamp += 1
        s = sorted(set(va) & set(vb))[-1]
        smp = {'obligation': key, 'object': s, la: [alg.show(x, 4)[:200] for x in va[s][:2] if x is not None], 'verdict': 'equal in every cell'}
    E.discharge(1, smp); return True

def lockstep(ma, a, mb, b):
    """both functions run in lockstep on equal values (used where a loop cannot be resolved)"""
    try: return bisim.same(ma, a, mb, b)
    except (KeyError, IndexError, TypeError, ValueError): return False
