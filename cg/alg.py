"""Exact normal forms for the values of the analysed programs.

A value is a Laurent polynomial with exact rational coefficients over atoms.
Atoms are input cells, opaque functions of other values (sin, sqrt, floor ...),
reciprocals of polynomials, and gates (decision diagrams over the signs of
polynomials, the "gamma" nodes of gated SSA).  Floating point is read as the
reals: two computations have one normal form when they are the same real
function built from the same elementary functions.
"""
from fractions import Fraction
import struct, math
from functools import lru_cache

class Budget(Exception):
    """the normal form grew past the analysis' size limit: obligation undecided"""

MAXTERMS = 60000

# ---------------------------------------------------------------- atoms
ATOMS = []            # id -> (kind, *args)
_atom_ids = {}
SPECIAL = {}          # id -> rule kind for exponents
def atom(*key):
    i = _atom_ids.get(key)
    if i is None:
        i = len(ATOMS); ATOMS.append(key); _atom_ids[key] = i
        if key[0] in ('sqrt', 'abs', 'cos', 'inv'): SPECIAL[i] = key[0]
    return i

# ---------------------------------------------------------------- polynomials
def _norm_c(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c

class Poly:
    __slots__ = ('t', 'key', 'h', '_sub', '_atoms', '__weakref__')
    def __repr__(self): return show(self)
    def __add__(a, b): return padd(a, b)
    def __sub__(a, b): return padd(a, pscale(b, -1))
    def __neg__(a): return pscale(a, -1)
    def __mul__(a, b): return pmul(a, b)
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o

_polys = {}
def mk(t):
    """intern a dict mono->coeff (no zero coefficients)"""
    if len(t) > MAXTERMS: raise Budget('polynomial of %d terms' % len(t))
    key = frozenset(t.items())
    p = _polys.get(key)
    if p is None:
        p = Poly(); p.t = t; p.key = key; p.h = hash(key); p._sub = None; p._atoms = None
        _polys[key] = p
    return p

ZERO = mk({})
def const(c):
    c = _norm_c(c)
    return mk({(): c}) if c else ZERO
ONE = const(1)
def var(a): return mk({((a, 1),): 1})

def is_const(p):
    return not p.t or (len(p.t) == 1 and () in p.t)
def const_val(p):
    return p.t.get((), 0)

def padd(a, b):
    if not a.t: return b
    if not b.t: return a
    if len(a.t) < len(b.t): a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        s = t.get(m, 0) + c
        if s: t[m] = _norm_c(s)
        else: t.pop(m, None)
    return mk(t)

def pscale(a, c):
    if c == 1: return a
    if not c: return ZERO
    return mk({m: _norm_c(k * c) for m, k in a.t.items()})

def mono_mul(m1, m2):
    """merge two sorted monomials; returns (mono, needs_rule)"""
    if not m1: return m2
    if not m2: return m1
    i = j = 0; out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]; b, f = m2[j]
        if a == b:
            if e + f: out.append((a, e + f))
            i += 1; j += 1
        elif a < b: out.append(m1[i]); i += 1
        else: out.append(m2[j]); j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return tuple(out)

def _bad(m):
    for a, e in m:
        r = SPECIAL.get(a)
        if r is not None:
            if r == 'inv':
                if e < 0: return True
            elif r == 'cos':
                if e > 1: return True
            elif e != 1: return True
    return False

_reduce_memo = {}
def reduce_mono(m):
    """apply sqrt^2=p, |x|^2=x^2, cos^2=1-sin^2, inv^-1=p to one monomial"""
    r = _reduce_memo.get(m)
    if r is not None: return r
    rest, facs = [], []
    for a, e in m:
        k = SPECIAL.get(a)
        if k == 'sqrt' and e != 1:
            p = ATOMS[a][1]
            h, o = divmod(e, 2)
            if o: rest.append((a, 1))
            facs.append(ppow(p, h))
        elif k == 'abs' and e != 1:
            p = ATOMS[a][1]
            o = e % 2
            if o: rest.append((a, 1))
            facs.append(ppow(p, e - o))
        elif k == 'cos' and e > 1:
            s = var(atom('sin', ATOMS[a][1]))
            h, o = divmod(e, 2)
            if o: rest.append((a, 1))
            facs.append(ppow(ONE - s * s, h))
        elif k == 'inv' and e < 0:
            facs.append(ppow(ATOMS[a][1], -e))
        else:
            rest.append((a, e))
    r = mk({tuple(rest): 1})
    for f in facs: r = pmul(r, f)
    _reduce_memo[m] = r
    return r

CUT = 4000
NOCUT = [False]
DEFS = {}
def define(p):
    """an atom standing for the polynomial p (up to a constant factor)"""
    c = p.t[lead(p)]
    q = pscale(p, Fraction(1) / c) if c != 1 else p
    return pscale(var(atom('def', q)), c)

def pmul(a, b):
    if not a.t or not b.t: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    if len(a.t) * len(b.t) > CUT and not NOCUT[0]:
        # value numbering instead of expansion: name the big factors
        if len(a.t) > 12: a = define(a)
        if len(b.t) > 12: b = define(b)
    if len(a.t) * len(b.t) > 4 * MAXTERMS: raise Budget('product too large')
    t = {}; extra = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            if SPECIAL and _bad(m):
                q = pscale(reduce_mono(m), c)
                extra = q if extra is None else padd(extra, q)
            else:
                t[m] = t.get(m, 0) + c
    r = mk({m: _norm_c(c) for m, c in t.items() if c})
    return r if extra is None else padd(r, extra)

_pow_memo = {}
def ppow(p, n):
    if n == 0: return ONE
    if n == 1: return p
    k = (p, n)
    r = _pow_memo.get(k)
    if r is None:
        if n < 0: r = ppow(inv(p), -n)
        else:
            h = ppow(p, n // 2); r = h * h
            if n & 1: r = r * p
        _pow_memo[k] = r
    return r

def lead(p):
    return max(p.t)      # any fixed total order on monomials

def mono_content(p):
    """gcd monomial (minimum exponent of every atom over the terms)"""
    it = iter(p.t)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(g):
            e = min(g[a], d.get(a, 0))
            if e: g[a] = e
            else: del g[a]
        for a, e in d.items():
            if e < 0 and a not in g: g[a] = e
    # negative exponents in some terms only
    for m in p.t:
        d = dict(m)
        for a, e in d.items():
            if e < 0 and g.get(a, 0) > e: g[a] = e
    return tuple(sorted((a, e) for a, e in g.items() if e))

def mono_inv(m): return tuple((a, -e) for a, e in m)

def mono_poly(m, c=1):
    if _bad(m): return pscale(reduce_mono(m), c)
    return mk({m: _norm_c(c)})

_inv_memo = {}
def inv(p):
    r = _inv_memo.get(p)
    if r is not None: return r
    if not p.t: r = var(atom('inv0'))
    elif len(p.t) == 1:
        (m, c), = p.t.items()
        r = mono_poly(mono_inv(m), Fraction(1) / c)
    else:
        q = cancel(p)
        if q is not p:
            r = inv(q); _inv_memo[p] = r; return r
        if len(p.t) <= 400 and any(e > 0 and SPECIAL.get(a) == 'inv' for m in p.t for a, e in m):
            # 1/(n/d) = d/n
            n, dens = clear(p)
            if len(n.t) <= 400:
                r = inv(n)
                for k, e in dens.items():
                    if e: r = r * (ppow(ATOMS[k[1]][1], e) if k[0] == 'i' else mono_poly(((k[1], e),)))
                _inv_memo[p] = r
                return r
        g = mono_content(p)
        gi = mono_poly(mono_inv(g))
        q = p * gi if g else p
        if len(q.t) == 1 and g:
            r = inv(q) * gi
        else:
            c = q.t[lead(q)]
            q = pscale(q, Fraction(1) / c)
            r = var(atom('inv', q)) * const(Fraction(1) / c) * gi
    _inv_memo[p] = r
    return r

# ---------------------------------------------------------------- rational clearing
def clear(p):
    """(numerator polynomial with no inv atoms and no negative exponents, list of (inv atom, k), monomial)
    with p = numerator / (prod q_i^k_i * monomial)"""
    dens = {}
    n = p
    for _ in range(12):
        invs = {}
        neg = {}
        for m in n.t:
            for a, e in m:
                if e > 0 and SPECIAL.get(a) == 'inv': invs[a] = max(invs.get(a, 0), e)
                elif e < 0: neg[a] = min(neg.get(a, 0), e)
        if not invs and not neg: break
        if neg:
            mm = tuple(sorted((a, -e) for a, e in neg.items()))
            for a, e in mm: dens[('m', a)] = dens.get(('m', a), 0) + e
            # plain multiplication of exponents first, then reduction rules
            n = pmul(n, mk({mm: 1}))
        for a, k in invs.items():
            q = ATOMS[a][1]
            dens[('i', a)] = dens.get(('i', a), 0) + k
            parts = {}
            for m, c in n.t.items():
                e = 0; rest = m
                for x in m:
                    if x[0] == a: e = x[1]; rest = tuple(y for y in m if y[0] != a)
                parts.setdefault(k - e, {})[rest] = c
            n = ZERO
            for j, t in parts.items():
                n = n + (mk(t) * ppow(q, j) if j else mk(t))
    return n, dens

def pdivexact(n, d):
    """n / d when d divides n exactly as polynomials, else None"""
    if not n.t: return ZERO
    atoms = sorted({a for m in d.t for a, _ in m} | {a for m in n.t for a, _ in m})
    if len(atoms) > 40 or len(n.t) * len(d.t) > 20000: return None
    ix = {a: i for i, a in enumerate(atoms)}
    def vec(m):
        v = [0] * len(atoms)
        for a, e in m: v[ix[a]] = e
        return tuple(v)
    N = {vec(m): c for m, c in n.t.items()}
    D = {vec(m): c for m, c in d.t.items()}
    ld = max(D); cd = D[ld]
    if any(e < 0 for v in D for e in v) or any(e < 0 for v in N for e in v): return None
    Q = {}
    steps = 0
    while N:
        steps += 1
        if steps > 4000: return None
        ln = max(N)
        q = tuple(x - y for x, y in zip(ln, ld))
        if min(q) < 0: return None
        c = Fraction(N[ln]) / cd
        Q[q] = c
        for v, k in D.items():
            w = tuple(x + y for x, y in zip(v, q))
            s = N.get(w, 0) - c * k
            if s: N[w] = s
            else: N.pop(w, None)
    t = {}
    for v, c in Q.items():
        t[tuple((atoms[i], e) for i, e in enumerate(v) if e)] = _norm_c(c)
    return mk(t)

_cancel_memo = {}
def cancel(p):
    """remove reciprocals that cancel (x*inv(x) spread over the terms of a sum)"""
    r = _cancel_memo.get(p)
    if r is not None: return r
    r = p
    if any(e > 0 and SPECIAL.get(a) == 'inv' for m in p.t for a, e in m) and len(p.t) > 1:
        n, dens = clear(p)
        if not n.t:
            r = ZERO
        else:
            changed = False
            for k in list(dens):
                if k[0] != 'i': continue
                q = ATOMS[k[1]][1]
                while dens[k]:
                    d = pdivexact(n, q)
                    if d is None: break
                    n = d; dens[k] -= 1; changed = True
            if changed:
                r = n
                for k, e in dens.items():
                    if e:
                        r = r * (mk({((k[1], e),): 1}) if k[0] == 'i' else mono_poly(((k[1], -e),)))
    _cancel_memo[p] = r
    return r

def is_zero(p, tol=True):
    if not p.t: return True
    if not any((e < 0 or SPECIAL.get(a) == 'inv') for m in p.t for a, e in m): return False
    n, _ = clear(p)
    return not n.t

# ---------------------------------------------------------------- sign knowledge
_nn_memo = {}
def atom_nonneg(a):
    k = ATOMS[a]
    if k[0] in ('sqrt', 'abs', 'pow_pos', 'acos'): return True
    if k[0] == 'pi' or k[0] == 'fn' and k[1] == 'length': return True
    if k[0] == 'inv': return nonneg(k[1])
    if k[0] == 'max': return any(nonneg(x) for x in k[1])
    if k[0] == 'min': return all(nonneg(x) for x in k[1])
    if k[0] == 'gamma': return all(nonneg(l) for l in dd_leaves(k[1]))
    return False
def nonneg(p):
    r = _nn_memo.get(p)
    if r is None:
        r = all(c > 0 and all(e % 2 == 0 or atom_nonneg(a) for a, e in m) for m, c in p.t.items())
        if not r: r = fract_form(p) or bernstein(p) or perfect_square(p) is not None
        _nn_memo[p] = r
    return r
def fract_form(p):
    """c*(x - floor(x)) with c > 0, and 1 - that"""
    fl = [(m, c) for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'floor']
    for m, c in fl:
        q = ATOMS[m[0][0]][1]
        d = pscale(p, Fraction(1) / abs(Fraction(c)))
        f = q - var(m[0][0])
        if c < 0 and d is f or c > 0 and d is ONE - f: return True
    return False
def interval(a):
    """known bounds of an atom, or None"""
    k = ATOMS[a]
    if k[0] in ('sin', 'cos'): return Fraction(-1), Fraction(1)
    if k[0] in ('min', 'max'):
        cs = [Fraction(const_val(x)) for x in k[1] if is_const(x)]
        if not cs: return None
        o = [x for x in k[1] if not is_const(x)]
        if k[0] == 'min': return (Fraction(0), cs[0]) if cs[0] >= 0 and all(nonneg(x) for x in o) else None
        if len(o) == 1 and len(o[0].t) == 1:
            (m, c), = o[0].t.items()
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'min':
                b = [Fraction(const_val(x)) for x in ATOMS[m[0][0]][1] if is_const(x)]
                if b and c > 0: return cs[0], max(cs[0], b[0] * c)
    return None
def bernstein(p):
    """polynomial in one bounded atom whose Bernstein coefficients over its interval are all nonnegative"""
    a = None
    for m, c in p.t.items():
        if not isinstance(c, (int, Fraction)) or len(m) > 1: return False
        if m:
            if m[0][1] < 0 or m[0][1] > 9 or a not in (None, m[0][0]): return False
            a = m[0][0]
    if a is None: return False
    iv = interval(a)
    if iv is None: return False
    lo, w = iv[0], iv[1] - iv[0]
    n = max(m[0][1] for m in p.t if m)
    co = [Fraction(p.t.get(((a, i),) if i else (), 0)) for i in range(n + 1)]
    sh = [sum(co[j] * math.comb(j, i) * lo ** (j - i) for j in range(i, n + 1)) * w ** i for i in range(n + 1)]
    return all(sum(Fraction(math.comb(k, i), math.comb(n, i)) * sh[i] for i in range(k + 1)) >= 0 for k in range(n + 1))
def positive(p):
    """strictly positive for all inputs (by form)"""
    if not nonneg(p): return False
    return any(all(ATOMS[a][0] == 'pi' or ATOMS[a][0] == 'fn' and ATOMS[a][1] == 'length' for a, _ in m) for m in p.t) or \
        (len(p.t) == 1 and all((e < 0 or ATOMS[a][0] == 'inv') for m in p.t for a, e in m))

# ---------------------------------------------------------------- decision diagrams
# predicate variables: ('s', poly) three-valued sign; ('b', key) boolean
PREDS = []; _pred_ids = {}
def pred(*key):
    i = _pred_ids.get(key)
    if i is None:
        i = len(PREDS); PREDS.append(key); _pred_ids[key] = i
    return i
class Node:
    __slots__ = ('v', 'k', 'h')
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
_nodes = {}
def node(v, kids):
    if all(k is kids[0] for k in kids[1:]): return kids[0]
    key = (v, kids)
    n = _nodes.get(key)
    if n is None:
        n = Node(); n.v = v; n.k = kids; n.h = hash(key); _nodes[key] = n
    return n
class Leaf:
    __slots__ = ('x', 'h')
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
    def __repr__(self): return 'Leaf(%r)' % (self.x,)
_leaves = {}
def leaf(x):
    k = (type(x), x)
    l = _leaves.get(k)
    if l is None:
        l = Leaf(); l.x = x; l.h = hash(k); _leaves[k] = l
    return l
T = leaf(True); F = leaf(False)

DDLIMIT = 20000
def dd_apply(f, *ds, memo=None):
    """pointwise f over leaves of several diagrams"""
    if memo is None: memo = {}
    r = memo.get(ds)
    if r is not None: return r
    vs = [d.v for d in ds if type(d) is Node]
    if not vs:
        x = f(*[d.x for d in ds])
        r = x if isinstance(x, (Node, Leaf)) else leaf(x)
    else:
        v = min(vs)
        n = 3 if PREDS[v][0] == 's' else 2
        kids = tuple(dd_apply(f, *[(d.k[i] if type(d) is Node and d.v == v else d) for d in ds], memo=memo) for i in range(n))
        r = node(v, kids)
    memo[ds] = r
    if len(memo) > DDLIMIT: raise Budget('decision diagram too large')
    return r

def dd_and(a, b):
    if a is F or b is F: return F
    if a is T: return b
    if b is T: return a
    return dd_apply(lambda x, y: x and y, a, b)
def dd_or(a, b):
    if a is T or b is T: return T
    if a is F: return b
    if b is F: return a
    return dd_apply(lambda x, y: x or y, a, b)
def dd_not(a): return dd_apply(lambda x: not x, a)
def dd_xor(a, b): return dd_apply(lambda x, y: x != y, a, b)
def dd_ite(c, a, b):
    if c is T: return a
    if c is F: return b
    if a is b: return a
    memo = {}
    def go(c, a, b):
        if c is T: return a
        if c is F: return b
        if a is b: return a
        k = (c, a, b)
        r = memo.get(k)
        if r is not None: return r
        vs = [d.v for d in (c, a, b) if type(d) is Node]
        v = min(vs)
        n = 3 if PREDS[v][0] == 's' else 2
        r = node(v, tuple(go(*[(d.k[i] if type(d) is Node and d.v == v else d) for d in (c, a, b)]) for i in range(n)))
        memo[k] = r
        if len(memo) > DDLIMIT: raise Budget('decision diagram too large')
        return r
    return go(c, a, b)
def dd_restrict(f, c):
    """a diagram equal to f wherever c holds, with the choices c already makes removed"""
    memo = {}
    def go(f, c):
        if type(f) is Leaf or type(c) is Leaf: return f
        k = (f, c); r = memo.get(k)
        if r is not None: return r
        if c.v < f.v:
            o = F
            for x in c.k: o = dd_or(o, x)
            r = go(f, o)
        elif f.v < c.v: r = node(f.v, tuple(go(x, c) for x in f.k))
        else:
            ks = [None if y is F else go(x, y) for x, y in zip(f.k, c.k)]
            live = next(x for x in ks if x is not None)
            r = node(f.v, tuple(live if x is None else x for x in ks))
        memo[k] = r
        return r
    return f if c is F else go(f, c)
def dd_leaves(d):
    seen = set(); out = []
    st = [d]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if type(x) is Leaf: out.append(x.x)
        else: st.extend(x.k)
    return out
def dd_preds(d):
    seen = set(); out = set(); st = [d]
    while st:
        x = st.pop()
        if type(x) is Leaf or x in seen: continue
        seen.add(x); out.add(x.v); st.extend(x.k)
    return out

# ---------------------------------------------------------------- predicates
def strip_pos(p):
    """multiply/divide by positive factors so that equal-sign expressions share a form"""
    p = cancel(p)
    # clear denominators: multiply by even powers / known positive factors
    for _ in range(6):
        dens = {}
        for m in p.t:
            for a, e in m:
                if SPECIAL.get(a) == 'inv' and e > 0: dens[a] = max(dens.get(a, 0), e)
        if not dens: break
        for a, k in dens.items():
            q = ATOMS[a][1]
            kk = k if nonneg(q) else k + (k & 1)
            n = ZERO
            for m, c in p.t.items():
                e = dict(m).get(a, 0)
                rest = tuple(y for y in m if y[0] != a)
                n = n + mk({rest: c}) * ppow(q, kk - e)
            p = n
    if not p.t: return p
    g = mono_content(p)
    # remove positive monomial content: even powers and nonnegative atoms that cannot vanish where defined (negative exponent)
    mult = []
    for a, e in g:
        if e < 0:
            r = -e if atom_nonneg(a) else (-e + ((-e) & 1))
            mult.append((a, r))
    if mult: p = p * mono_poly(tuple(mult))
    if len(p.t) == 2 and () in p.t:
        # k*sqrt(q) + c with opposite signs has the sign of +-(k^2*q - c^2)
        (m, k), = ((m, k) for m, k in p.t.items() if m)
        c = p.t[()]
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'sqrt' and (k > 0) != (c > 0):
            p = strip_pos(pscale(ATOMS[m[0][0]][1], (k * k if k > 0 else -k * k)) + const(-c * c if k > 0 else c * c))
    return p

def sign_dd(p, neg, zero, pos):
    """diagram selecting by the sign of p"""
    p = strip_pos(p)
    if is_const(p):
        c = const_val(p)
        return neg if c < 0 else pos if c > 0 else zero
    if len(p.t) == 1:
        # sign of a monomial with only nonnegative atoms and one odd atom
        (m, c), = p.t.items()
        odd = [(a, 1) for a, e in m if e % 2]
    c = p.t[lead(p)]
    q = pscale(p, Fraction(1) / abs(c))
    if c < 0:
        q = -q; neg, pos = pos, neg
    if positive(q): return pos
    if positive(-q): return neg
    v = pred('s', q)
    n = node(v, (F, F, F)) if False else None
    if nonneg(q):
        # cannot be negative: share the branch with zero
        neg = zero
    if nonneg(-q): pos = zero
    sel = lambda i: [T if i == j else F for j in range(3)]
    # kids may contain lower variables: build through ite
    isneg = node(v, (T, F, F)); iszero = node(v, (F, T, F))
    return dd_ite(isneg, neg, dd_ite(iszero, zero, pos))

def cmp_dd(op, a, b):
    d = a - b
    tab = {'lt': (T, F, F), 'le': (T, T, F), 'eq': (F, T, F), 'ne': (T, F, T), 'ge': (F, T, T), 'gt': (F, F, T)}[op]
    # infinities compare as opaque predicates
    if is_inf(a) or is_inf(b): return inf_cmp(op, a, b)
    # beyond the largest float there is only infinity
    if is_const(a) and len(b.t) == 1: a, b, op = b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
    if op in ('gt', 'le') and len(a.t) == 1 and is_const(b) and abs(float(const_val(b)) / 3.4028234663852886e38 - 1) < 1e-7:
        (m, c), = a.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'abs':
            k = node(pred('b', ('isinf', canon_even(a))), (F, T))
            return k if op == 'gt' else dd_not(k)
    return sign_dd(d, *tab)

def is_inf(p):
    return len(p.t) == 1 and any(ATOMS[a][0] == 'INF' for m in p.t for a, _ in m)
def inf_cmp(op, a, b):
    if is_inf(a) and not is_inf(b):
        op = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op); a, b = b, a
    if is_inf(a): return node(pred('b', ('infcmp', op, a, b)), (F, T))
    # finite-form value compared with +-INF
    s = list(b.t.values())[0] > 0
    x, nx = a, -a
    k = node(pred('b', ('isinf', canon_even(a))), (F, T))
    if op == 'eq': return dd_and(k, sign_dd(a, F, F, T) if s else sign_dd(a, T, F, F)) if not nonneg(a) else k
    if op == 'ne': return dd_not(inf_cmp('eq', a, b))
    if (op == 'lt' and s) or (op == 'gt' and not s): return dd_not(inf_cmp('eq', a, b))
    if (op == 'ge' and s) or (op == 'le' and not s): return inf_cmp('eq', a, b)
    return T if op in ('le', 'ge') else F

def canon_even(p):
    """canonical form of p up to sign"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        m2 = m
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'abs': return canon_even(ATOMS[m[0][0]][1])
    if p.t and p.t[lead(p)] < 0: return -p
    return p

# ---------------------------------------------------------------- gamma / min / max / functions
def pure_gamma(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'gamma': return ATOMS[m[0][0]][1]
    return None
def to_dd(p):
    g = pure_gamma(p)
    return g if g is not None else leaf(p)

def from_dd(d):
    """Poly from a diagram with Poly leaves"""
    if type(d) is Leaf:
        return d.x
    # expand leaves that are pure gammas
    if any(pure_gamma(l) is not None for l in dd_leaves(d)):
        d = dd_apply(lambda x: to_dd(x), d)
        if type(d) is Leaf: return d.x
    r = minmax_pattern(d)
    if r is not None: return r
    # scale out a common constant factor: keep as is (canonical enough)
    return var(atom('gamma', d))

def minmax_pattern(d):
    """recognise ite(p<0, A, B) with A-B = c*p as B + c*min(p,0)"""
    if type(d) is not Node or PREDS[d.v][0] != 's': return None
    p = PREDS[d.v][1]
    k = d.k
    if not (type(k[0]) is Leaf and type(k[2]) is Leaf and type(k[1]) is Leaf): return None
    A, Z, B = (x.x for x in k)
    D = A - B
    if not D.t: 
        return None
    c = proportional(D, p)
    if c is None: return None
    if Z is not A and Z is not B:
        # the zero case must agree with both modulo p = 0
        if proportional(Z - A, p) is None and Z is not A: return None
    # A - B = c p ; p<0: A
    if c > 0: return pmin2(A, B)
    return pmax2(A, B)

def proportional(D, p):
    if not D.t: return Fraction(0)
    if len(D.t) != len(p.t): return None
    l = lead(p)
    if l not in D.t: return None
    c = Fraction(D.t[l]) / p.t[l]
    for m, k in p.t.items():
        if D.t.get(m) != k * c: return None
    return c

def gate(c, a, b):
    """if c then a else b"""
    if c is T: return a
    if c is F: return b
    if a is b: return a
    return from_dd(dd_ite(c, to_dd(a), to_dd(b)))

def _flat(kind, p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == kind: return ATOMS[m[0][0]][1]
    return frozenset((p,))

def _split_affine(kind, p):
    """p = c*atom(kind) + rest with one such atom: distribute? (only the bare atom is flattened)"""
    return None

def mm(kind, ps):
    other = 'max' if kind == 'min' else 'min'
    s = set()
    for p in ps: s |= _flat(kind, p)
    consts = [p for p in s if is_const(p)]
    if len(consts) > 1:
        f = min if kind == 'min' else max
        best = f(consts, key=lambda p: const_val(p))
        s -= set(consts); s.add(best)
    # drop elements dominated by a constant difference (x and x+1)
    if len(s) > 1:
        l = sorted(s, key=lambda p: sorted(map(str, p.t.items())))
        drop = set()
        for i in range(len(l)):
            for j in range(len(l)):
                if i != j and l[j] not in drop and l[i] not in drop:
                    d = l[i] - l[j]
                    if is_const(d):
                        cv = const_val(d)
                        if (cv > 0) == (kind == 'min'): drop.add(l[i])
                    elif (nonneg(d) if kind == 'min' else nonneg(-d)): drop.add(l[i])
        s -= drop
    # absorption: min(a, max(a, b)) = a
    for p in list(s):
        q = _flat(other, p)
        if len(q) > 1 and any(x in s for x in q if x is not p): s.discard(p)
    if len(s) == 1: return next(iter(s))
    if len(s) == 2 and kind == 'max':
        a, b = s
        if not (a + b).t: return fabs(a)
    if len(s) == 2 and kind == 'min':
        a, b = s
        if not (a + b).t: return -fabs(a)
        # clamp: min(max(x, lo), hi) is the canonical order; max(min(x,hi),lo) is rewritten in the 'max' case
    if len(s) == 2 and kind == 'max':
        for c, o in (tuple(s), tuple(s)[::-1]):
            if is_const(c):
                q = _flat('min', o)
                qc = [x for x in q if is_const(x)]
                if len(q) == 2 and qc and const_val(qc[0]) >= const_val(c):
                    x = [y for y in q if not is_const(y)][0]
                    return mm('min', [mm('max', [x, c]), qc[0]])
    # scale symmetric: factor a common positive constant? min(2x,2y) = 2 min(x,y)
    g = None
    for p in s:
        for c in p.t.values():
            g = abs(Fraction(c)) if g is None else _fgcd(g, abs(Fraction(c)))
    if g is not None and g != 1:
        return pscale(var(atom(kind, frozenset(pscale(p, 1 / g) for p in s))), g)
    return var(atom(kind, frozenset(s)))

def _fgcd(a, b):
    d = a.denominator * b.denominator // math.gcd(a.denominator, b.denominator)
    return Fraction(math.gcd(int(a * d), int(b * d)), d)

def pmin2(a, b): return mm('min', (a, b))
def pmax2(a, b): return mm('max', (a, b))

def fabs(p):
    if not p.t: return p
    if is_const(p): return const(abs(const_val(p)))
    if nonneg(p): return p
    if nonneg(-p): return -p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = const(abs(c))
        for a, e in m:
            if e % 2 == 0 or atom_nonneg(a): r = r * mono_poly(((a, e),))
            else:
                r = r * ppow(var(atom('abs', var(a))), e)
        return r
    l = lead(p)
    c = p.t[l]
    q = pscale(p, Fraction(1) / c)
    g = mono_content(q)
    if g:
        return const(abs(c)) * fabs(mono_poly(g)) * fabs(q * mono_poly(mono_inv(g)))
    return const(abs(c)) * var(atom('abs', q))

def _isqrt_frac(c):
    """sqrt of a nonnegative rational as (rational, squarefree integer)"""
    n, d = c.numerator * c.denominator, c.denominator
    if n > 10 ** 14: 
        r = math.isqrt(n)
        if r * r == n: return Fraction(r, d), 1
        return Fraction(1, d), n
    f, k = 1, 2
    while k * k <= n and k < 2000:
        while n % (k * k) == 0: n //= k * k; f *= k
        k += 1
    r = math.isqrt(n)
    if r * r == n: f *= r; n = 1
    return Fraction(f, d), n

def sqrt(p):
    p = cancel(p)
    if not p.t: return ZERO
    if is_const(p):
        c = Fraction(const_val(p))
        if c < 0: return var(atom('sqrt', p))
        f, n = _isqrt_frac(c)
        return const(f) if n == 1 else pscale(var(atom('sqrt', const(n))), f)
    g = mono_content(p)
    q = p * mono_poly(mono_inv(g)) if g else p
    if len(q.t) == 1 and not is_const(q):
        g = mono_mul(g, next(iter(q.t))); q = const(next(iter(q.t.values())))
    # content of coefficients, positive leading coefficient kept inside
    c = None
    for k in q.t.values(): c = abs(Fraction(k)) if c is None else _fgcd(c, abs(Fraction(k)))
    f, n = _isqrt_frac(c)
    q = pscale(q, Fraction(n) / c)
    r = const(f)
    inner = q
    for a, e in g:
        h, o = divmod(e, 2)
        if ATOMS[a][0] in ('sqrt', 'abs', 'inv') or True:
            nn = atom_nonneg(a)
            if h: r = r * (mono_poly(((a, h),)) if nn else fabs(mono_poly(((a, h),))))
            if o: inner = inner * mono_poly(((a, 1),))
    if is_const(inner):
        f2, n2 = _isqrt_frac(Fraction(const_val(inner))) if const_val(inner) > 0 else (None, None)
        if f2 is not None:
            return pscale(r, f2) if n2 == 1 else pscale(r * var(atom('sqrt', const(n2))), f2)
    s = perfect_square(inner)
    if s is not None: return r * fabs(s)
    return r * var(atom('sqrt', inner))

def perfect_square(p):
    """q with q*q == p for a sum of few terms (binomials), else None"""
    if not (3 <= len(p.t) <= 6): return None
    sq = [(m, c) for m, c in p.t.items() if c > 0 and all(e % 2 == 0 for _, e in m)]
    roots = []
    for m, c in sq:
        f, n = _isqrt_frac(Fraction(c))
        if n == 1: roots.append(mono_poly(tuple((a, e // 2) for a, e in m), f))
    import itertools
    for k in (2, 3):
        for rs in itertools.combinations(roots, k):
            for sg in itertools.product((1, -1), repeat=k - 1):
                q = rs[0]
                for s, r in zip(sg, rs[1:]): q = q + pscale(r, s)
                if q * q is p: return q
    return None

PI = atom('pi')

def trig_const(p):
    """p = c*pi with rational c, else None"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if m == ((PI, 1),): return Fraction(c)
    return None

_TRIG = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
def sincos(p):
    p = cancel(p)
    if not p.t: return ZERO, ONE
    c = trig_const(p)
    if c is not None:
        c %= 2
        if c in _TRIG: s, k = _TRIG[c]; return const(s), const(k)
        if c == Fraction(1, 4): return pscale(sqrt(const(2)), Fraction(1, 2)), pscale(sqrt(const(2)), Fraction(1, 2))
    # quarter turns: sin(q + k pi/2)
    c = p.t.get(((PI, 1),))
    if c is not None and len(p.t) > 1:
        k = math.floor(Fraction(c) * 2)
        if k:
            s, o = sincos(p - pscale(var(PI), Fraction(k, 2)))
            return ((s, o), (o, -s), (-s, -o), (-o, s))[k % 4]
    if p.t[lead(p)] < 0:
        s, k = sincos(-p); return -s, k
    # inverse functions
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k = ATOMS[m[0][0]]
            if k[0] == 'acos': return sqrt(ONE - k[1] * k[1]), k[1]
            if k[0] == 'asin': return k[1], sqrt(ONE - k[1] * k[1])
            if k[0] == 'atan2':
                h = inv(sqrt(k[1] * k[1] + k[2] * k[2])); return k[1] * h, k[2] * h
    # even content: double angle
    g = None
    for c in p.t.values():
        f = abs(Fraction(c)); g = f if g is None else _fgcd(g, f)
    if g.denominator == 1 and g.numerator % 2 == 0:
        s, k = sincos(pscale(p, Fraction(1, 2)))
        return pscale(s * k, 2), ONE - pscale(s * s, 2)
    return var(atom('sin', p)), var(atom('cos', p))
def sin(p): return sincos(p)[0]
def cos(p): return sincos(p)[1]
def tan(p):
    p = cancel(p)
    if not p.t: return ZERO
    if p.t[lead(p)] < 0: return -tan(-p)
    return var(atom('tan', p))
def odd_fn(name, p):
    p = cancel(p)
    if not p.t: return ZERO
    if p.t[lead(p)] < 0: return -var(atom(name, -p))
    return var(atom(name, p))
def asin(p):
    if is_const(p) and const_val(p) in (1, -1): return pscale(var(PI), Fraction(const_val(p), 2))
    return odd_fn('asin', p)
def acos(p):
    p = cancel(p)
    if is_const(p):
        c = const_val(p)
        if c == 1: return ZERO
        if c == -1: return var(PI)
        if c == 0: return pscale(var(PI), Fraction(1, 2))
    return var(atom('acos', p))
def atan(p): return odd_fn('atan', p)
def atan2(y, x):
    y, x = cancel(y), cancel(x)
    # scale out a common positive rational
    c = None
    for p in (y, x):
        for k in p.t.values():
            f = abs(Fraction(k)); c = f if c is None else _fgcd(c, f)
    if c: y, x = pscale(y, 1 / c), pscale(x, 1 / c)
    if y.t and y.t[lead(y)] < 0: return -var(atom('atan2', -y, x))
    return var(atom('atan2', y, x))
def floor(p):
    p = cancel(p)
    c = p.t.get((), 0)
    k = math.floor(c) if isinstance(c, (int, Fraction)) else 0
    q = p - const(k)
    if is_const(q): return const(k)
    if integral(q): return p
    return var(atom('floor', q)) + const(k)
def integral(p):
    return all(Fraction(c).denominator == 1 and all(e > 0 and ATOMS[a][0] in ('floor', 'trunc', 'round', 'ceil') for a, e in m) for m, c in p.t.items())
def trunc(p):
    p = cancel(p)
    if is_const(p): return const(math.trunc(const_val(p)))
    if integral(p): return p
    return odd_fn('trunc', p)
def fmod(a, b):
    a, b = cancel(a), cancel(b)
    if is_const(a) and is_const(b) and const_val(b):
        x, y = Fraction(const_val(a)), Fraction(const_val(b))
        return const(x - y * math.trunc(x / y))
    if b.t and b.t[lead(b)] < 0: b = -b
    if a.t and a.t[lead(a)] < 0: return -fmod(-a, b)
    return var(atom('fmod', a, b))
def pw(a, b):
    a, b = cancel(a), cancel(b)
    if is_const(b):
        e = Fraction(const_val(b))
        if e.denominator == 1 and abs(e) <= 16: return ppow(a, int(e))
        if e == Fraction(1, 2): return sqrt(a)
        if e == Fraction(-1, 2): return inv(sqrt(a))
    if is_const(a) and const_val(a) == 1: return ONE
    if is_const(a) and const_val(a) > 0:
        # c^(k + rest) = c^k c^rest for integer k, c^(-x) = 1/c^x
        k = b.t.get((), 0)
        kk = math.floor(k)
        f = Fraction(const_val(a)) ** kk if abs(kk) <= 64 else None
        if f is not None and kk:
            return pscale(pw(a, b - const(kk)), f)
        if b.t[lead(b)] < 0: return inv(pw(a, -b))
        return var(atom('pow_pos', a, b))
    return var(atom('pow', a, b))
def fn(name, *args):
    return var(atom('fn', name) + tuple()) if False else var(atom('fn', name, *[cancel(a) for a in args]))

# ---------------------------------------------------------------- constants
PIF = Fraction(3141592653589793238462643383279502884197, 10 ** 39)
def _f32(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.inf
def _shortest(x, single):
    if not single: return repr(x)
    for d in range(1, 12):
        s = '%.*g' % (d, x)
        if _f32(float(s)) == x: return s
    return repr(x)
@lru_cache(maxsize=None)
def snap(x, single=True):
    """exact meaning of a floating literal: short decimal, small fraction, multiple of pi / sqrt2, else its shortest decimal"""
    if x == 0: return ZERO
    if math.isinf(x): return pscale(var(atom('INF')), 1 if x > 0 else -1)
    if math.isnan(x): return var(atom('NAN'))
    if x < 0: return -snap(-x, single)
    if x == int(x) and x < 1e9: return const(int(x))
    s = _shortest(x, single)
    digits = len(s.split('e')[0].replace('.', '').strip('0'))
    same = (lambda y: _f32(float(y)) == x) if single else (lambda y: float(y) == x)
    if digits <= 6: return const(Fraction(s))
    fr = Fraction(x)
    if math.frexp(x)[0] == 0.5: return const(fr)
    q = fr.limit_denominator(400)
    if q and same(q): return const(q)
    for base, mkp in ((PIF, lambda k: pscale(var(PI), k)), (1 / PIF, lambda k: pscale(mono_poly(((PI, -1),)), k))):
        k = (fr / base).limit_denominator(400)
        if k and k.numerator * k.denominator <= 5000 and same(k * base): return mkp(k)
    r2 = Fraction(math.isqrt(2 * 10 ** 60), 10 ** 30)
    k = (fr / r2).limit_denominator(64)
    if k and k.numerator <= 64 and same(k * r2): return pscale(sqrt(const(2)), k)
    return const(Fraction(s))

# ---------------------------------------------------------------- substitution
def atoms_of(p):
    """set of all atoms occurring in p, transitively"""
    if p._atoms is not None: return p._atoms
    r = set()
    for m in p.t:
        for a, _ in m:
            if a not in r:
                r.add(a); r |= atom_atoms(a)
    p._atoms = frozenset(r)
    return p._atoms
_aa = {}
def atom_atoms(a):
    r = _aa.get(a)
    if r is not None: return r
    r = set()
    for x in ATOMS[a][1:]:
        if isinstance(x, Poly): r |= atoms_of(x)
        elif isinstance(x, frozenset):
            for y in x:
                if isinstance(y, Poly): r |= atoms_of(y)
        elif isinstance(x, (Node, Leaf)): r |= dd_atoms(x)
    _aa[a] = frozenset(r)
    return _aa[a]
_da = {}
def dd_atoms(d):
    r = _da.get(d)
    if r is not None: return r
    if type(d) is Leaf:
        r = atoms_of(d.x) if isinstance(d.x, Poly) else frozenset()
    else:
        r = set(pred_atoms(d.v))
        for k in d.k: r |= dd_atoms(k)
        r = frozenset(r)
    _da[d] = r
    return r
def pred_atoms(v):
    r = set()
    def walk(x):
        if isinstance(x, Poly): r.update(atoms_of(x))
        elif isinstance(x, (tuple, frozenset)):
            for y in x: walk(y)
    for x in PREDS[v][1:]: walk(x)
    return r

class Subst:
    """simultaneous substitution of atoms by polynomials and predicates by outcomes"""
    def __init__(self, atoms=None, preds=None):
        self.a = atoms or {}; self.p = preds or {}
        self.ma = {}; self.mp = {}; self.md = {}
        self.targets = set(self.a)
    def touches(self, atoms):
        if self.p:
            return True
        return not self.targets.isdisjoint(atoms)
    def poly(self, p):
        if not self.p and self.targets.isdisjoint(atoms_of(p)): return p
        r = self.mp.get(p)
        if r is not None: return r
        r = ZERO; plain = {}
        for m, c in p.t.items():
            if all(self.atom(a) is None for a, _ in m): plain[m] = c
            else:
                q = const(c)
                for a, e in m:
                    s = self.atom(a)
                    q = q * (ppow(s, e) if s is not None else mono_poly(((a, e),)))
                r = r + q
        r = r + mk(plain) if plain else r
        r = cancel(r) if r is not p else r
        self.mp[p] = r
        return r
    def atom(self, a):
        """replacement polynomial or None when unchanged"""
        if a in self.ma: return self.ma[a]
        r = None
        if a in self.a: r = self.a[a]
        else:
            k = ATOMS[a]
            if len(k) > 1 and k[0] not in ('in',) and (self.p or not self.targets.isdisjoint(atom_atoms(a))):
                q = self.rebuild(a, k)
                if q is not var(a): r = q
        self.ma[a] = r
        return r
    def rebuild(self, a, k):
        n = k[0]
        P = self.poly
        if n == 'gamma': return from_dd_any(self.dd(k[1]))
        if n in ('min', 'max'): return self.minmax(n, k[1])
        if n == 'abs':
            q = P(k[1])
            return self.abs_(q)
        if n == 'inv':
            return inv(P(k[1]))
        if n == 'def':
            q = P(k[1])
            return define(q) if len(q.t) > 12 else q
        if n == 'sqrt': return sqrt(P(k[1]))
        if n == 'sin': return sin(P(k[1]))
        if n == 'cos': return cos(P(k[1]))
        if n == 'tan': return tan(P(k[1]))
        if n == 'asin': return asin(P(k[1]))
        if n == 'acos': return acos(P(k[1]))
        if n == 'atan': return atan(P(k[1]))
        if n == 'atan2': return atan2(P(k[1]), P(k[2]))
        if n == 'floor': return floor(P(k[1]))
        if n == 'trunc': return trunc(P(k[1]))
        if n == 'fmod': return fmod(P(k[1]), P(k[2]))
        if n in ('pow', 'pow_pos'): return pw(P(k[1]), P(k[2]))
        if n == 'fn':
            xs = [P(x) if isinstance(x, Poly) else x for x in k[2:]]
            if k[1] == 'sdiv' and is_const(xs[1]):
                d = const_val(xs[1])
                if abs(d) == 1: return pscale(xs[0], d)
                if d and is_const(xs[0]):
                    q = Fraction(const_val(xs[0])) / Fraction(d)
                    return const(math.trunc(q))
            return var(atom('fn', k[1], *xs))
        return var(a)
    def abs_(self, q):
        r = fabs(q)
        if self.p:
            # decided by an assumed sign
            d = sign_dd(q, leaf(-q), leaf(ZERO), leaf(q))
            d = self.decide(d)
            if type(d) is Leaf: return d.x
        return r
    def minmax(self, n, s):
        s2 = [self.poly(x) for x in s]
        if self.p:
            keep = list(s2)
            for x in s2:
                for y in s2:
                    if x is y or x not in keep or y not in keep: continue
                    d = self.decide(sign_dd(x - y, leaf(-1), leaf(0), leaf(1)))
                    if type(d) is Leaf:
                        if d.x == 0 or (d.x > 0) == (n == 'min'): keep.remove(x)
            s2 = keep
        return mm(n, s2)
    def decide(self, d):
        """follow assumed predicates at the top of a diagram with non-poly leaves"""
        while type(d) is Node and d.v in self.p:
            d = d.k[self.p[d.v]]
        return d
    def dd(self, d):
        r = self.md.get(d)
        if r is not None: return r
        if type(d) is Leaf:
            r = leaf(self.poly(d.x)) if isinstance(d.x, Poly) else d
        elif d.v in self.p:
            r = self.dd(d.k[self.p[d.v]])
        else:
            key = PREDS[d.v]
            if not self.targets.isdisjoint(pred_atoms(d.v)) or self.p:
                r = self.pred_node(key, d)
            else:
                kids = tuple(self.dd(k) for k in d.k)
                r = node(d.v, kids) if not any(type(k) is Node and k.v < d.v for k in kids) else None
                if r is None: r = self.pred_node(key, d)
        self.md[d] = r
        return r
    def pred_node(self, key, d):
        if key[0] == 's':
            q = self.poly(key[1])
            sel = sign_dd(q, leaf(0), leaf(1), leaf(2))
        else:
            k2 = self._bkey(key[1])
            sel = node(pred('b', k2), (leaf(0), leaf(1)))
        # follow assumptions in the selector
        def go(s):
            if type(s) is Leaf: return s
            if s.v in self.p: return go(s.k[self.p[s.v]])
            return s
        sel = go(sel)
        if type(sel) is Leaf: return self.dd(d.k[sel.x])
        kids = [self.dd(k) for k in d.k]
        r = kids[-1]
        for i in range(len(kids) - 2, -1, -1):
            c = dd_apply(lambda x, i=i: x == i, sel)
            r = dd_ite(c, kids[i], r)
        return r
    def _bkey(self, k):
        if isinstance(k, Poly): return self.poly(k)
        if isinstance(k, tuple): return tuple(self._bkey(x) for x in k)
        return k

def from_dd_any(d):
    if type(d) is Leaf: return d.x
    return from_dd(d)

# ---------------------------------------------------------------- random interpretation
# (Gulwani & Necula, POPL'03/'04): a value graph over named sub-terms is hashed homomorphically in a prime field
FP = (1 << 61) - 1
import hashlib
def _h(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=16).digest(), 'little') % FP
class Finger:
    def __init__(self, seed): self.s = seed; self.mp = {}; self.ma = {}; self.md = {}
    def poly(self, p):
        r = self.mp.get(p)
        if r is None:
            r = 0
            for m, c in p.t.items():
                v = self.c(c)
                for a, e in m: v = v * pow(self.atom(a), e, FP) % FP
                r += v
            r %= FP; self.mp[p] = r
        return r
    def c(self, c):
        if type(c) is int: return c % FP
        c = Fraction(c); return c.numerator * pow(c.denominator, -1, FP) % FP
    def atom(self, a):
        r = self.ma.get(a)
        if r is None:
            k = ATOMS[a]
            if k[0] == 'def': r = self.poly(k[1])
            elif k[0] == 'inv': r = pow(self.poly(k[1]) or 1, -1, FP)
            else:
                xs = []
                for x in k[1:]:
                    if isinstance(x, Poly): xs.append(self.poly(x))
                    elif isinstance(x, frozenset): xs.append(tuple(sorted(self.poly(y) for y in x)))
                    elif isinstance(x, (Node, Leaf)): xs.append(self.dd(x))
                    else: xs.append(x)
                r = _h(self.s, k[0], tuple(xs)) or 1
            self.ma[a] = r
        return r
    def dd(self, d):
        r = self.md.get(d)
        if r is None:
            if type(d) is Leaf: r = self.poly(d.x) if isinstance(d.x, Poly) else _h(self.s, d.x)
            else:
                key = PREDS[d.v]
                kk = self.poly(key[1]) if key[0] == 's' else repr(key[1])
                r = _h(self.s, 'dd', kk, tuple(self.dd(x) for x in d.k))
            self.md[d] = r
        return r
FINGERS = [Finger(1), Finger(2)]
def finger(p): return tuple(f.poly(p) for f in FINGERS)
def has_def(p): return any(ATOMS[a][0] == 'def' for a in atoms_of(p))
def has_gate(p): return any(ATOMS[a][0] in ('gamma', 'min', 'max', 'abs') for a in atoms_of(p))

# ---------------------------------------------------------------- equality
def case_pred(p):
    """an innermost undecided predicate of the gates in p: ('p', pred id) or ('s', poly) or None"""
    seen = set()
    def in_poly(p):
        for m in p.t:
            for a, _ in m:
                r = in_atom(a)
                if r: return r
        return None
    def in_atom(a):
        if a in seen: return None
        seen.add(a)
        k = ATOMS[a]
        if k[0] == 'in': return None
        # inner atoms first
        for x in k[1:]:
            if isinstance(x, Poly):
                r = in_poly(x)
                if r: return r
            elif isinstance(x, frozenset):
                for y in sorted(x, key=lambda q: q.h):
                    r = in_poly(y)
                    if r: return r
            elif isinstance(x, (Node, Leaf)):
                r = in_dd(x)
                if r: return r
        if k[0] in ('min', 'max'):
            l = sorted(k[1], key=lambda q: q.h)
            return ('s', l[0] - l[1])
        if k[0] == 'abs': return ('s', k[1])
        return None
    def in_dd(d):
        if type(d) is Leaf:
            return in_poly(d.x) if isinstance(d.x, Poly) and False else None
        # gates inside the predicate itself first
        key = PREDS[d.v]
        if key[0] == 's':
            r = in_poly(key[1])
            if r: return r
        return ('p', d.v)
    return in_poly(p)

class Facts:
    """conjunction of sign facts: polyhedral over-approximation (monomials are variables)"""
    def __init__(self, items=()):
        self.items = list(items)      # (poly, sign) sign in -1,0,1
    def add(self, p, s):
        return Facts(self.items + [(p, s)])
    def feasible(self):
        return fm_feasible(self.items)

def fm_feasible(items):
    """Fourier-Motzkin over the rationals; True when not refuted"""
    # constraint: dict mono->coeff  (<0 strict or ==0) ; constant monomial ()
    eqs, les = [], []
    for p, s in items:
        if s == 0: eqs.append(dict(p.t))
        elif s < 0: les.append((dict(p.t), True))
        else: les.append(({m: -c for m, c in p.t.items()}, True))
    # known signs of nonnegative monomials
    monos = {m for e in eqs for m in e} | {m for e, _ in les for m in e}
    sg = {}     # atoms whose sign follows from a fact about that atom alone
    for p, s in items:
        vs = [m for m in p.t if m]
        if s and len(vs) == 1 and len(vs[0]) == 1 and vs[0][0][1] == 1:
            c, k = p.t[vs[0]], p.t.get((), 0)
            up = s > 0 if c > 0 else s < 0          # bounded from below
            if (up and -Fraction(k) / c >= 0) or (not up and -Fraction(k) / c <= 0): sg[vs[0][0][0]] = 1 if up else -1
    for m in monos:
        if m and all(e % 2 == 0 or atom_nonneg(a) for a, e in m): les.append(({m: -1}, all(a in sg for a, e in m)))
        elif m and sg and len(m) + m[0][1] > 2 and all(e % 2 == 0 or a in sg or atom_nonneg(a) for a, e in m):
            g = 1
            for a, e in m:
                if e % 2 and sg.get(a, 1) < 0: g = -g
            les.append(({m: -g}, all(a in sg for a, e in m)))
    # constants bounded by known ranges
    for m in monos:
        if len(m) == 1 and m[0][1] == 1:
            k = ATOMS[m[0][0]]
            if k[0] in ('sin', 'cos'):
                les.append(({m: 1, (): -1}, False)); les.append(({m: -1, (): -1}, False))
            if k[0] == 'pi':
                les.append(({m: 1, (): -Fraction(3142, 1000)}, True)); les.append(({m: -1, (): Fraction(3141, 1000)}, True))
            if k[0] in ('min', 'max'):
                for x in k[1]:
                    t = dict((var(m[0][0]) - x).t if k[0] == 'min' else (x - var(m[0][0])).t)
                    les.append((t, False))
    # eliminate equalities
    while eqs:
        e = eqs.pop()
        piv = next((m for m in e if m), None)
        if piv is None:
            if e.get((), 0): return False
            continue
        c = e[piv]
        def sub(d):
            k = d.get(piv)
            if not k: return d
            f = Fraction(k) / c
            r = dict(d)
            for m, v in e.items():
                s = r.get(m, 0) - f * v
                if s: r[m] = s
                else: r.pop(m, None)
            return r
        eqs = [sub(x) for x in eqs]
        les = [(sub(x), st) for x, st in les]
    vs = {m for d, _ in les for m in d if m}
    rounds = 0
    while vs:
        # pick the variable with the fewest products
        best = None
        for v in vs:
            pcount = sum(1 for d, _ in les if d.get(v, 0) > 0); ncount = sum(1 for d, _ in les if d.get(v, 0) < 0)
            k = pcount * ncount
            if best is None or k < best[0]: best = (k, v)
        v = best[1]
        if best[0] > 400: return True
        P = [(d, s) for d, s in les if d.get(v, 0) > 0]; N = [(d, s) for d, s in les if d.get(v, 0) < 0]
        R = [(d, s) for d, s in les if not d.get(v, 0)]
        for d1, s1 in P:
            for d2, s2 in N:
                f1, f2 = Fraction(1) / d1[v], Fraction(-1) / d2[v]
                r = {}
                for m, c in d1.items(): r[m] = r.get(m, 0) + f1 * c
                for m, c in d2.items(): r[m] = r.get(m, 0) + f2 * c
                r = {m: c for m, c in r.items() if c and m != v}
                R.append((r, s1 or s2))
        les = []
        seen = set()
        for d, s in R:
            if not [m for m in d if m]:
                c = d.get((), 0)
                if c > 0 or (s and c == 0): return False
                continue
            # normalise
            k = abs(next(iter(sorted(d.items())))[1])
            key = (frozenset((m, Fraction(c) / k) for m, c in d.items()), s)
            if key in seen: continue
            seen.add(key); les.append((d, s))
        if len(les) > 600: return True
        vs = {m for d, _ in les for m in d if m}
    return all(not (d.get((), 0) > 0 or (s and d.get((), 0) == 0)) for d, s in les if not [m for m in d if m])

def solve_zero(p):
    """substitution {atom: poly} making p zero (p linear in an input atom), list for sums of squares, or None"""
    inn = [m for m in p.t if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'in']
    for m in sorted(inn, reverse=True):
        a = m[0][0]
        rest = mk({k: c for k, c in p.t.items() if k != m})
        if a in atoms_of(rest): continue
        return {a: pscale(rest, Fraction(-1) / p.t[m])}
    # single monomial that vanishes
    if nonneg(p) and all(len(m) == 1 and ATOMS[m[0][0]][0] == 'in' for m in p.t):
        return {m[0][0]: ZERO for m in p.t}
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and ATOMS[m[0][0]][0] == 'in': return {m[0][0]: ZERO}
        if len(m) == 1 and ATOMS[m[0][0]][0] in ('sqrt', 'abs') : return solve_zero(ATOMS[m[0][0]][1])
    return None

class Diff:
    """result of a comparison"""
    __slots__ = ('eq', 'case', 'diff', 'why', 'alts', 'edges')
    def __init__(self, eq, case=(), diff=None, why=''):
        self.eq, self.case, self.diff, self.why = eq, case, diff, why; self.alts = [self]; self.edges = []

CASELIMIT = 3000

def tiny(p, ref):
    """all coefficients negligible against the coefficients of the compared values (constant folding in float)"""
    if not p.t: return True
    big = max([abs(float(c)) for q in ref for c in q.t.values()] or [1.0])
    return all(abs(float(c)) <= 4e-7 * big for c in p.t.values())

class Enough(Exception): pass
DIFFS = 8     # differing cases collected, so that one without a point does not hide another

def equal(a, b, facts=None, sample=None):
    """Diff(True) when a and b are the same function; Diff(False) with a region and the difference; Diff(None) undecided"""
    if a is b: return Diff(True)
    if has_def(a) or has_def(b):
        if finger(a) == finger(b): return Diff(True)
        if not has_gate(a) and not has_gate(b): return Diff(False, (), a - b)
    cnt = [0]; found = []; edges = []     # edges: cases on surfaces that have no linear parametrisation, where they seem to differ
    def rec(d, facts, case):
        if not d.t: return Diff(True)
        n = cancel(d)
        if is_zero(n): return Diff(True)
        cnt[0] += 1
        if cnt[0] > CASELIMIT: return Diff(None, case, d, 'case limit')
        cp = case_pred(n)
        if cp is None:
            if tiny(clear(n)[0], (clear(a)[0], clear(b)[0])): return Diff(True)
            found.append(Diff(False, case, n))
            if len(found) >= DIFFS: raise Enough
            return Diff(True)
        if cp[0] == 'p' and PREDS[cp[1]][0] == 'b':
            und = None
            for o in (0, 1):
                s = Subst(preds={cp[1]: o})
                r = rec(s.poly(n), facts, case + ((cp[1], o),))
                if r.eq is None: und = r
            return und or Diff(True)
        q = PREDS[cp[1]][1] if cp[0] == 'p' else cp[1]
        q = strip_pos(q)
        if not q.t: 
            return Diff(None, case, d, 'degenerate predicate')
        c = q.t[lead(q)]
        q = pscale(q, Fraction(1) / c)
        v = pred('s', q)
        und = None
        for o in (0, 2, 1):
            if o == 0 and nonneg(q) or o == 2 and nonneg(-q): continue
            f2 = facts.add(q, o - 1)
            if not f2.feasible(): continue
            if o == 1:
                z = solve_zero(q)
                if z is None:
                    # a case of measure zero that the domain cannot express: compare modulo the equation
                    s = Subst(preds={v: 1})
                    dn = s.poly(n)
                    if dn is n: continue
                    num = clear(cancel(dn))[0]
                    if not num.t or pdivexact(num, q) is not None: continue
                    if case_pred(num) is None:
                        edges.append(Diff(False, case + ((v, 1),), dn))
                        continue
                    held = found[:]; found.clear(); r = None
                    try: r = rec(dn, f2, case + ((v, 1),))
                    except Enough: pass
                    edges.extend(found); found[:] = held
                    if r is not None and r.eq is None: und = r
                    continue
                s = Subst(preds={v: 1})
                dn = s.poly(n)
                s = Subst(atoms=z)
                dn = s.poly(dn)
                fs = Facts([(s.poly(p_), sg) for p_, sg in facts.items])
                # facts that became constants refute the case
                bad = False; items = []
                for p_, sg in fs.items:
                    if is_const(p_):
                        cv = const_val(p_)
                        if (cv > 0) - (cv < 0) != sg: bad = True
                    else: items.append((p_, sg))
                if bad: continue
                fs = Facts(items)
                if not fs.feasible(): continue
                r = rec(dn, fs, case + ((v, 1),))
            else:
                s = Subst(preds={v: o})
                dn = s.poly(n)
                if dn is n:
                    return Diff(None, case, d, 'case split made no progress')
                r = rec(dn, f2, case + ((v, o),))
            if r.eq is None: und = r
        return und or Diff(True)
    def answer():
        d = Diff(False, found[0].case, found[0].diff)
        d.alts = found
        return d
    try:
        r = rec(a - b, facts or Facts(), ())
        if found: return answer()
        if r.eq is True and edges: r.edges = edges
        return r
    except Enough: return answer()
    except Budget as e:
        return answer() if found else Diff(None, (), None, str(e))

# ---------------------------------------------------------------- printing
NAMES = {}
_BUD = [None]
def _budgeted(f):
    """the printers share one budget per outermost call: a gate is a DAG whose tree is exponential"""
    def g(*a, **k):
        top = _BUD[0] is None
        if top: _BUD[0] = 400
        try:
            _BUD[0] -= 1
            return '...' if _BUD[0] < 0 else f(*a, **k)
        finally:
            if top: _BUD[0] = None
    return g
@_budgeted
def show_atom(a):
    k = ATOMS[a]
    if k[0] == 'in': return '%s[%s]' % (k[1], k[2]) if k[2] is not None else str(k[1])
    if k[0] == 'pi': return 'pi'
    if k[0] == 'gamma': return 'gate{%s}' % show_dd(k[1])
    if k[0] in ('min', 'max'): return '%s{%s}' % (k[0], ', '.join(sorted(show(x) for x in k[1])))
    if k[0] == 'inv': return '1/(%s)' % show(k[1])
    return '%s(%s)' % (k[0], ', '.join(show(x) if isinstance(x, Poly) else str(x) for x in k[1:]))
@_budgeted
def show(p, limit=12):
    if not p.t: return '0'
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda x: str(x))):
        if i >= limit: out.append('... (%d terms)' % len(p.t)); break
        s = '*'.join(show_atom(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if not s: s = str(c)
        elif c == -1: s = '-' + s
        elif c != 1: s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out)
def show_pred(v, o):
    k = PREDS[v]
    if k[0] == 's': return '(%s) %s 0' % (show(k[1]), '<=>'[o] if o != 1 else '=')
    return '%s%s' % ('' if o else '!', str(k[1]))
@_budgeted
def show_dd(d):
    if type(d) is Leaf: return show(d.x) if isinstance(d.x, Poly) else str(d.x)
    k = PREDS[d.v]
    nm = show(k[1]) if k[0] == 's' else str(k[1])
    return 'sign(%s)?[%s]' % (nm, ' | '.join(show_dd(x) for x in d.k))
