"""Shared check machinery: obligations, violations, known findings, evidence, replay files, exit status."""
import os, sys, json, time, re, traceback, hashlib
from . import build

VERIF = build.VERIF
FINDINGS = VERIF + '/known_findings.json'
EVID = os.environ.get('VERIF_EVID', VERIF + '/evidence')

class Broken(Exception):
    """the analysis itself no longer applies (vanished anchors, unusable input): an error exit, never a verdict"""

class Check:
    def __init__(self, pid, tier, only=None):
        self.pid, self.tier, self.only = pid, tier, only
        self.t0 = time.time()
        self.obl = 0; self.ok = 0; self.undecided = []; self.viol = []; self.notes = []
        self.counts = {}; self.samples = []; self.level = 'other'; self.explanation = ''
        self.assumptions = []; self.extra = {}
        self.seen = set()
        self.known = {}
        if os.path.exists(FINDINGS):
            for e in json.load(open(FINDINGS)):
                if e.get('property') == pid and e.get('status') == 'known': self.known[e['key']] = e
        self.known_hit = {}
        KNOWN_KEYS.update(self.known)
    @property
    def thorough(self): return self.tier == 'thorough'
    def count(self, what, n=1): self.counts[what] = self.counts.get(what, 0) + n
    def wants(self, name): return self.only is None or re.search(self.only, name)
    def discharge(self, n=1, sample=None):
        self.obl += n; self.ok += n
        if sample and len(self.samples) < 6: self.samples.append(sample)
    def undecide(self, key, why):
        self.obl += 1; self.undecided.append((key, why))
    def violate(self, key, msg, **detail):
        """key identifies the obligation (no line numbers); msg names the construct"""
        self.obl += 1
        if key in self.seen: return
        self.seen.add(key)
        k = key if key in self.known else key.split('|')[0]     # a finding may name a function in every configuration
        if k in self.known:
            self.known_hit[k] = msg
        else:
            self.viol.append((key, msg, detail))
    def merge(self, part):
        """part: result of a worker process (list of events)"""
        for ev in part:
            getattr(self, ev[0])(*ev[1], **ev[2])
    def note(self, s): self.notes.append(s)
    def stop(self): self.stopped = True
    def unbuilt(self): self.nobuild = getattr(self, 'nobuild', 0) + 1
    def floors(self, table):
        if getattr(self, 'nobuild', 0) and not self.ok: raise Broken('nothing that this check analyses compiles: %s' % (self.undecided[:1],))
        if self.only or self.viol or getattr(self, 'nobuild', 0): return
        for k, n in table.items():
            if self.counts.get(k, 0) < n:
                raise Broken('only %d %s analysed, expected at least %d' % (self.counts.get(k, 0), k, n))
    def finish(self):
        cov = {'explanation': self.explanation, 'obligations': self.obl, 'discharged': self.ok,
               'undecided': len(self.undecided), 'analysed': self.counts, 'samples': self.samples}
        cov.update(self.extra)
        if self.undecided: cov['undecided_list'] = ['%s: %s' % u for u in self.undecided[:40]]
        if self.notes: cov['notes'] = self.notes[:60]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        if self.level == 'translation_validation':
            cov.setdefault('programs', self.counts.get('programs', self.obl)); cov['disagreements_checked'] = self.obl
        os.makedirs(EVID + '/replay', exist_ok=True)
        with open('%s/%s.json' % (EVID, self.pid), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s [%s]: %d obligations, %d discharged, %d undecided, %d known, %d violations; %s; %.1fs' % (
            self.pid, self.tier, self.obl, self.ok, len(self.undecided), len(self.known_hit), len(self.viol),
            ', '.join('%s=%d' % kv for kv in sorted(self.counts.items())), time.time() - self.t0))
        for k, w in self.undecided[:20]: print('UNDECIDED %s: %s' % (k, w))
        for k, e in self.known.items():
            if k in self.known_hit: print('KNOWN-FINDING: property=%s %s' % (self.pid, e.get('what', k)))
            elif not self.only: print('note: listed finding no longer present: %s' % k)
        if not self.viol: return 0
        for n, (k, m, d) in enumerate(self.viol):
            if n >= int(os.environ.get('VERIF_MAXV', '25')):
                print('... and %d more violations' % (len(self.viol) - n)); break
            p = '%s/replay/%s_%s.json' % (EVID, self.pid, hashlib.md5(k.encode()).hexdigest()[:8])
            json.dump({'property': self.pid, 'key': k, 'message': m, 'detail': d,
                       'rerun': './check %s --only %s' % (self.pid, "'" + re.escape(k.split('|')[0]) + "'")}, open(p, 'w'), indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            print('    %s: %s' % (k, m))
            for a, b in d.items(): print('      %s: %s' % (a, str(b)[:700]))
        return 1

def pmap(ck, f, items, procs=8):
    """run f(item) -> list of events in forked workers; events are merged in item order"""
    import multiprocessing as mp
    items = list(items)
    global _F
    _F = f
    if len(items) <= 1 or os.environ.get('VERIF_SERIAL'):
        for it in items: ck.merge(_callf(it))
        return
    build.tmpdir()
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(items))) as pool:
        for r in pool.imap(_callf, items, chunksize=1):
            ck.merge(r)

KNOWN_KEYS = set()
ENOUGH = int(os.environ.get('VERIF_ENOUGH', '8'))
class Enough(Exception):
    """a worker has reported enough violations; what is left of its work adds nothing"""
    def __init__(self, ev): self.ev = list(ev); super().__init__('enough')

_F = None
def _callf(x):
    try: return _F(x)
    except build.BuildError as e:
        # one program in one configuration does not compile: that is C22's to report; here it is left undecided
        t = [l for l in str(e).split('\n') if 'error:' in l] or [str(e)]
        return [('undecide', ('build|%s' % (x if isinstance(x, str) else repr(x))[:80], t[0][:300]), {}), ('unbuilt', (), {})]
    except Enough as e: return e.ev + [('note', ('stopped after %d violations in one unit of work' % ENOUGH,), {}), ('stop', (), {})]

class Events(list):
    """collects Check events inside a worker"""
    nsamp = 0
    nviol = 0
    def count(self, *a): self.append(('count', a, {}))
    def discharge(self, *a, **k): self.append(('discharge', a, k))
    def undecide(self, *a): self.append(('undecide', a, {}))
    def violate(self, *a, **k):
        self.append(('violate', a, k)); self.nviol += (a[0] not in KNOWN_KEYS and a[0].split('|')[0] not in KNOWN_KEYS)
        if self.nviol >= ENOUGH: raise Enough(self)
    def note(self, *a): self.append(('note', a, {}))

def main(argv):
    import argparse, importlib
    sys.setrecursionlimit(20000)
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    mod = importlib.import_module('checks.' + a.pid.lower())
    ck = Check(a.pid, tier, a.only)
    try:
        try: mod.run(ck)
        except Enough as e: ck.merge(e.ev)
    except (Broken, build.BuildError) as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.pid, e)); return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % a.pid); return 2
    return ck.finish()
