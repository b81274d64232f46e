"""Refutes infeasible case splits: looks for a point of the input space at which two normal forms differ.

This evaluates normal forms (algebraic expressions), never the program.  A difference reported by alg.equal is believed when the case
it was found in is linear (the polyhedral domain is exact there) or when such a point exists; otherwise the obligation is undecided."""
import math, struct, random, hashlib
from fractions import Fraction
from . import alg
from .alg import ATOMS, PREDS, Poly, Node, Leaf, atoms_of

class Skip(Exception): pass
EPS = 4e-16

def hsh(*k): return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=6).digest(), 'little') / float(1 << 48)

_step = {}
def stepped(p):
    r = _step.get(p)
    if r is None: r = _step[p] = any(ATOMS[a][0] in STEP for a in atoms_of(p))
    return r
STEP = ('floor', 'trunc', 'ceil', 'fmod')
class Irr(Exception): pass
class Nan(Exception): pass

class Ev:
    def __init__(self, pt): self.pt = pt; self.mp = {}; self.ma = {}; self.bp = {}; self.xp = {}; self.xa = {}
    # exact evaluation over the rationals, where forms contain steps and nothing irrational
    def ex(self, p):
        r = self.xp.get(p)
        if r is None:
            r = Fraction(0)
            for m, c in p.t.items():
                if not isinstance(c, (int, Fraction)): raise Irr
                x = Fraction(c)
                for a, k in m:
                    y = self.xatom(a)
                    if y == 0 and k < 0: raise Skip
                    x *= y ** k
                r += x
            if r.denominator.bit_length() > 4000: raise Irr
            self.xp[p] = r
        return r
    def xatom(self, a):
        r = self.xa.get(a)
        if r is None:
            k = ATOMS[a]; n = k[0]
            if n == 'in':
                if self.pt.get(a) is None: self.pt[a] = 0.3 + hsh(a)
                r = Fraction(self.pt[a])
            elif n in ('min', 'max'): r = (min if n == 'min' else max)(self.ex(x) for x in k[1])
            elif n == 'def': r = self.ex(k[1])
            elif n == 'abs': r = abs(self.ex(k[1]))
            elif n == 'floor': r = Fraction(math.floor(self.ex(k[1])))
            elif n == 'ceil': r = Fraction(math.ceil(self.ex(k[1])))
            elif n == 'trunc': r = Fraction(math.trunc(self.ex(k[1])))
            elif n == 'inv':
                r = self.ex(k[1])
                if r == 0: raise Skip
                r = 1 / r
            elif n == 'fmod':
                x, y = self.ex(k[1]), self.ex(k[2])
                if y == 0: raise Skip
                r = x - y * math.trunc(x / y)
            elif n == 'gamma':
                d = k[1]
                while type(d) is Node: d = d.k[self.pred(d.v)]
                r = self.ex(d.x)
            elif n == 'NAN': raise Nan
            else: raise Irr
            self.xa[a] = r
        return r
    def poly(self, p):
        r = self.mp.get(p)
        if r is not None: return r
        if stepped(p):
            try: v = float(self.ex(p))
            except (Irr, OverflowError): pass
            else:
                r = self.mp[p] = (v, abs(v) * EPS)
                return r
        v = e = 0.0
        for m, c in p.t.items():
            x = float(c); rel = EPS
            for a, k in m:
                y, d = self.atom(a)
                if y == 0.0:
                    if k < 0: raise Skip
                    if k > 0:
                        e += abs(x) * (d if k == 1 else 0.0); x = 0.0; break
                x *= y ** k
                rel += abs(k) * d / abs(y)
            v += x; e += abs(x) * rel
        if not math.isfinite(v) or not math.isfinite(e): raise Skip
        r = (v, e); self.mp[p] = r
        return r
    def atom(self, a):
        r = self.ma.get(a)
        if r is None:
            try: r = self.atom_(a)
            except (OverflowError, ValueError, ZeroDivisionError): raise Skip
            self.ma[a] = r
        return r
    def atom_(self, a):
        k = ATOMS[a]; n = k[0]
        if n == 'in':
            v = self.pt.get(a)
            if v is None: v = self.pt[a] = 0.3 + hsh(a)
            return v, 0.0
        if n == 'pi': return math.pi, 0.0
        if n == 'INF': return 1e300, 0.0
        if n == 'NAN': raise Nan
        if n in ('min', 'max'):
            xs = [self.poly(x) for x in k[1]]
            return (min if n == 'min' else max)(xs)
        if n == 'gamma': return self.dd(k[1])
        if n == 'def': return self.poly(k[1])
        if n in ('sqrt', 'abs', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'inv', 'floor', 'trunc', 'ceil', 'round', 'exp', 'log') and isinstance(k[1], Poly):
            x, e = self.poly(k[1])
            if n == 'sqrt':
                if x < 0:
                    if x < -e - 1e-12: raise Skip
                    return 0.0, math.sqrt(abs(x) + e)
                s = math.sqrt(x); return s, (e / (2 * s) if s > math.sqrt(e) else math.sqrt(e)) + EPS * s
            if n == 'abs': return abs(x), e
            if n == 'sin': return math.sin(x), e + EPS
            if n == 'cos': return math.cos(x), e + EPS
            if n == 'tan':
                t = math.tan(x); return t, e * (1 + t * t) + EPS * abs(t)
            if n in ('asin', 'acos'):
                if abs(x) > 1: raise Skip
                return getattr(math, n)(x), e / math.sqrt(max(1 - x * x, 1e-12)) + EPS
            if n == 'atan': return math.atan(x), e + EPS
            if n == 'inv':
                if abs(x) <= 4 * e or x == 0: raise Skip
                return 1 / x, e / (x * x) + EPS / abs(x)
            if n == 'exp': return math.exp(x), math.exp(x) * (e + EPS)
            if n == 'log': return math.log(x), e / abs(x) + EPS
            f = {'floor': math.floor, 'trunc': math.trunc, 'ceil': math.ceil, 'round': round}[n]
            if f(x - 2 * e) != f(x + 2 * e): raise Skip
            return float(f(x)), 0.0
        if n in ('atan2', 'fmod', 'pow', 'pow_pos'):
            (x, e), (y, d) = self.poly(k[1]), self.poly(k[2])
            if n == 'atan2':
                if abs(x) <= e and abs(y) <= d: raise Skip
                if abs(x) <= e and y < 0: raise Skip
                return math.atan2(x, y), (e + d) / math.hypot(x, y) + EPS
            if n == 'fmod':
                if y == 0: raise Skip
                r = math.fmod(x, y)
                if min(abs(r), abs(abs(y) - abs(r))) <= 4 * (e + d): raise Skip
                return r, e + d * (1 + abs(x / y))
            if x <= 0: raise Skip
            r = x ** y; return r, abs(r) * (e * abs(y) / x + d * abs(math.log(x)) + EPS)
        if n == 'fn' and k[1] == 'sdiv':
            (x, e), (y, d) = self.poly(k[2]), self.poly(k[3])
            if round(y) == 0: raise Skip
            return float(math.trunc(Fraction(round(x), round(y)))), 0.0
        # opaque function: a value determined by its arguments
        xs = []
        for x in k[1:]:
            if isinstance(x, Poly): xs.append(float('%.9g' % self.poly(x)[0]))
            elif isinstance(x, frozenset): xs.append(tuple(sorted(float('%.9g' % self.poly(y)[0]) for y in x)))
            elif isinstance(x, (Node, Leaf)): xs.append(self.dd(x))
            else: xs.append(x)
        return 0.2 + hsh(n, tuple(xs)), 0.0
    def pred(self, v):
        k = PREDS[v]
        if k[0] == 's':
            if stepped(k[1]):
                try: x = self.ex(k[1])
                except Irr: pass
                else: return 1 + (x > 0) - (x < 0)
            x, e = self.poly(k[1])
            if abs(x) <= 2 * e:
                if e == 0.0 or abs(x) == 0.0: return 1
                raise Skip
            return 2 if x > 0 else 0
        r = self.bp.get(v)
        if r is None:
            kk = k[1]
            if isinstance(kk, tuple) and kk and kk[0] in ('isnan', 'isinf', 'infcmp', 'fpclass'): r = 0
            else: r = int(hsh('b', repr(kk), self.pt.get('salt', 0)) < 0.5)
            self.bp[v] = r
        return r
    def dd(self, d):
        while type(d) is Node: d = d.k[self.pred(d.v)]
        return self.poly(d.x) if isinstance(d.x, Poly) else d.x

def inputs(*ps):
    s = set()
    for p in ps: s |= {a for a in alg.atoms_of(p) if ATOMS[a][0] == 'in'}
    return sorted(s)

def sat(pt, facts):
    """number of violated facts; an unevaluable fact counts as violated"""
    E = Ev(pt); bad = []
    for p, s in facts:
        try:
            x, e = E.poly(p)
            sg = 0 if abs(x) <= 8 * e else (1 if x > 0 else -1)
        except (Skip, Nan): sg = None
        if sg != s: bad.append((p, s))
    return bad

def point(rng, ins, n):
    pt = {'salt': n}
    kind = n % 6
    sc = (1.0, 1.0, 4.0, 0.1, 30.0, 1e-3)[rng.randrange(6)] if kind else 1.0
    for a in ins:
        integral = ATOMS[a][3] in ('i', 'z', 'b')
        if integral: pt[a] = float(rng.randint(0, 9) if kind % 2 else rng.randint(-5, 5))
        elif kind == 1: pt[a] = rng.uniform(0.05, 2.0)
        elif kind == 2: pt[a] = float(rng.randint(-2, 2))
        elif kind == 3: pt[a] = rng.uniform(-1, 1) * 10 ** rng.uniform(-6, 2)
        else: pt[a] = rng.uniform(-1, 1) * sc
    return pt

def differ(a, b, pt):
    """difference of the two forms at a point, or None"""
    E = Ev(pt)
    def val(p):
        try: return E.poly(p)
        except Nan: return math.nan, 0.0
    try:
        (x, e), (y, d) = val(a), val(b)
    except Skip: return None
    if math.isnan(x) or math.isnan(y): return (x, y) if math.isnan(x) != math.isnan(y) else None
    if abs(x - y) > 2e-6 * max(abs(x), abs(y)) + 16 * (e + d): return x, y
    return None

def repair(rng, pt, facts, ins, steps=60):
    bad = sat(pt, facts)
    for _ in range(steps):
        if not bad: return pt
        p, s = rng.choice(bad)
        vs = [a for a in atoms_of(p) if a in pt and ATOMS[a][0] == 'in']
        if not vs: return None
        v = rng.choice(vs); x = pt[v]
        cand = [-x, 0.0, x * 2, x / 2, x * 1.01, x * .99, x + 1, x - 1, 1.0, -1.0, rng.uniform(-2, 2), rng.uniform(-50, 50), x * 10, x / 10, x * 1e-3, 1e-8 * rng.random()]
        # root of p along v by a secant step, and both sides of it
        try:
            f0 = Ev(pt).poly(p)[0]; h = 1e-4 * (1 + abs(x)); q = dict(pt); q[v] = x + h
            f1 = Ev(q).poly(p)[0]
            if f1 != f0:
                r = x - f0 * h / (f1 - f0); w = abs(r - x)
                cand += [r, r + .1 * w, r - .1 * w, r + 1e-3, r - 1e-3, r + 1e-8, r - 1e-8]
        except (Skip, Nan): pass
        r = root(p)
        if r is not None: cand += [r, r * .5, r * 2]
        if ATOMS[v][3] in ('i', 'z', 'b'): cand = sorted({float(f(c)) for c in cand if abs(c) < 2**31 for f in (math.floor, math.ceil)})
        best = None
        rng.shuffle(cand)
        for c in cand:
            q = dict(pt); q[v] = c
            nb = sat(q, facts)
            if best is None or len(nb) < len(best[1]): best = (q, nb)
            if not nb: break
        if len(best[1]) <= len(bad) or rng.random() < .3: pt, bad = best
    return None if bad else pt

def steer(a, b, ins, rng, short):
    """points on the rare side of the tests that only one of the two forms makes"""
    if not short: return
    own = sorted(v for v in preds(a) ^ preds(b) if PREDS[v][0] == 's')
    done = 0
    for v in own:
        p = PREDS[v][1]; vs = inputs(p)
        if not 0 < len(vs) <= 3: continue
        done += 1
        if done > 16: return
        cs = set(); consts(p, cs)
        cand = sorted({c + k for c in cs for k in (-1.5, -1, -.5, 0, .5, 1, 1.5) if abs(c) < 1e6})[:120]
        got = {}
        for n in range(6):
            pt = point(rng, ins, n)
            pt = {k: (x if k == 'salt' else round(x * 1024) / 1024) for k, x in pt.items()}
            for u in vs:
                for c in [None] + cand:
                    q = dict(pt)
                    if c is not None: q[u] = math.floor(c) * 1.0 if ATOMS[u][3] in ('i', 'z', 'b') else c
                    try:
                        x, e = Ev(q).poly(p)
                        sg = 0 if abs(x) <= 8 * e else (1 if x > 0 else -1)
                    except (Skip, Nan): continue
                    got.setdefault(sg, []).append((u, q[u]))
        if len(got) < 2: continue
        most = max(got, key=lambda g: len(got[g]))
        for g, l in sorted(got.items()):
            if g == most: continue
            l = sorted(set(l)); rng.shuffle(l)
            for k, (u, x) in enumerate(l[:4]):
                for n in (0, 3):
                    pt = point(rng, ins, n)
                    pt = {k: (y if k == 'salt' else round(y * 1024) / 1024) for k, y in pt.items()}
                    pt[u] = x
                    yield pt

def consts(p, out):
    """the numbers a form mentions"""
    for m, c in p.t.items():
        try:
            if not m: out.add(float(c)); out.add(-float(c))
        except OverflowError: pass
        for a, _ in m:
            for x in ATOMS[a][1:]:
                if isinstance(x, Poly): consts(x, out)

def root(p):
    """the place where a predicate on one input alone changes sign, when it is a float"""
    if len(p.t) > 2 or not linear(p): return None
    k = p.t.get((), 0); c = [x for m, x in p.t.items() if m]
    if len(c) != 1: return None
    r = float(-k / c[0])
    try: return r if struct.unpack('f', struct.pack('f', r))[0] == r else None
    except OverflowError: return None

def linear(p):
    return all(len(m) == 0 or len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'in' for m in p.t)

def polynomial(p): return all(ATOMS[a][0] == 'in' for a in atoms_of(p))

def find(a, b, facts=(), tries=160, assume=()):
    """a point where a and b differ (satisfying `assume`): {atom: value}, (value of a, value of b); or None"""
    ins = inputs(a, b)
    rng = random.Random(20240601)
    assume = list(assume)
    short = stepped(a) or stepped(b)
    for pt in steer(a, b, ins, rng, short):
        if assume and sat(pt, assume): continue
        d = differ(a, b, pt)
        if d: return pt, d
    for n in range(tries):
        pt = point(rng, ins, n)
        if short: pt = {k: (x if k == 'salt' else round(x * 1024) / 1024) for k, x in pt.items()}
        if assume and sat(pt, assume):
            pt = repair(rng, pt, assume, ins)
            if pt is None: continue
        d = differ(a, b, pt)
        if d: return pt, d
        if facts:
            q = repair(rng, pt, list(facts) + assume, ins, 25)
            if q:
                d = differ(a, b, q)
                if d: return q, d
        if n % 8 == 0 and n < 64:
            # along a ray, between and beside the places where some gate changes
            g = {v for x in (a, b) for v in preds(x)}
            for t in ray(pt, ins, g):
                q = {k: (x * t if k in ins else x) for k, x in pt.items()}
                if assume and sat(q, assume): continue
                d = differ(a, b, q)
                if d: return q, d
    return None

class EvX(Ev):
    """signs are decided exactly, over the rationals"""
    def pred(self, v):
        k = PREDS[v]
        if k[0] == 's':
            try: x = self.ex(k[1])
            except Irr: return super().pred(v)
            return 1 + (x > 0) - (x < 0)
        return super().pred(v)

def solve_at(q, pt, ins, rng):
    """set one input of pt so that q vanishes exactly; False when none does"""
    num = alg.clear(alg.cancel(q))[0]
    vs = [a for a in alg.atoms_of(num) if a in ins and ATOMS[a][3] == 'f']
    rng.shuffle(vs)
    for v in vs:
        A = B = Fraction(0); ok = True
        for m, c in num.t.items():
            d = dict(m).get(v, 0)
            if d not in (0, 1) or any(ATOMS[a][0] != 'in' for a, _ in m) or not isinstance(c, (int, Fraction)): ok = False; break
            x = Fraction(c)
            for a, k in m:
                if a != v: x *= Fraction(pt[a]) ** k
            if d: A += x
            else: B += x
        if not ok or A == 0: continue
        x = -B / A
        if x.denominator & (x.denominator - 1) or x.denominator > 4096 or abs(x) > 4096: continue
        pt[v] = x; return v
    return None

def find_edge(a, b, case, tries=400, assume=()):
    """an exact point (of numbers a float holds) on the surfaces of a case where a and b differ, or None"""
    zs = [PREDS[v][1] for v, o in case if PREDS[v][0] == 's' and o == 1]
    if not zs: return None
    ins = inputs(a, b); rng = random.Random(77); assume = list(assume)
    S = (0, 0, 1, 1, -1, 2, -2, Fraction(1, 2), Fraction(-1, 2), 3, 4, -4, Fraction(1, 4))
    miss = 0
    for n in range(tries):
        pt = {i: Fraction(rng.choice(S)) for i in ins}; pt['salt'] = n
        try:
            if not all(solve_at(q, pt, ins, rng) is not None for q in reversed(zs)):
                miss += 1
                if miss > 60 and miss > n * .9: return None
                continue
            E = EvX(pt)
            if any(E.ex(q) != 0 for q in zs): continue
            if any((lambda x: (x > 0) - (x < 0))(E.ex(p)) != s for p, s in assume): continue
            def val(p):
                try: return E.poly(p)
                except Nan: return math.nan, 0.0
            (x, e), (y, d) = val(a), val(b)
        except (Skip, Irr, Nan): continue
        if math.isnan(x) or math.isnan(y): continue
        if abs(x - y) > 1e-3 * max(abs(x), abs(y)) + 16 * (e + d): return {k: (x if k == 'salt' else float(x)) for k, x in pt.items()}, (x, y)
    return None

def preds(p, out=None, seen=None):
    out = set() if out is None else out; seen = set() if seen is None else seen
    def dd(d):
        if d in seen: return
        seen.add(d)
        if type(d) is Node:
            out.add(d.v)
            if PREDS[d.v][0] == 's': go(PREDS[d.v][1])
            for x in d.k: dd(x)
        elif isinstance(d.x, Poly): go(d.x)
    def go(p):
        if p in seen: return
        seen.add(p)
        for m in p.t:
            for a, _ in m:
                for x in ATOMS[a][1:]:
                    if isinstance(x, Poly): go(x)
                    elif isinstance(x, frozenset):
                        for y in x: go(y)
                    elif isinstance(x, (Node, Leaf)): dd(x)
    go(p)
    return out

def ray(pt, ins, g):
    """scales at which some gate predicate changes sign, and the middles between them"""
    ts = [10 ** (k / 2.0) for k in range(-16, 11)]
    def signs(t):
        E = Ev({k: (x * t if k in ins else x) for k, x in pt.items()}); r = []
        for v in g:
            try: r.append(E.pred(v))
            except (Skip, Nan): r.append(None)
        return r
    out = []; S = [signs(t) for t in ts]
    cuts = []
    for i in range(len(ts) - 1):
        if S[i] != S[i + 1]:
            lo, hi, sl = ts[i], ts[i + 1], S[i]
            for _ in range(24):
                m = math.sqrt(lo * hi); sm = signs(m)
                if sm == sl: lo = m
                else: hi = m
            cuts.append(lo); cuts.append(hi)
    for c in cuts: out += [c * .999, c * 1.001, c * .9, c * 1.1, c * .5, c * 2]
    return out[:120] + ts[::3]

def show(pt):
    return ', '.join('%s=%.6g' % (alg.show_atom(k), v) for k, v in sorted((k, v) for k, v in pt.items() if k != 'salt'))
