"""Forward data-flow over the loop-free SSA of one wrapper: every SSA name and
every memory cell gets its value as a normal form over the entry values (global
value numbering on gated SSA).  Nothing is executed; joins build gates."""
from collections import namedtuple
from fractions import Fraction
import struct, re, heapq
from . import alg as A
from .alg import (Poly, Node, Leaf, leaf, T, F, dd_and, dd_or, dd_not, dd_xor, dd_ite, dd_apply, dd_leaves, from_dd, gate,
                  ZERO, ONE, const, var, atom, inv, cmp_dd, snap, mm, fabs, is_const, const_val)
from . import llir

class Unsupported(Exception):
    pass

class K(namedtuple('K', 'v w')):
    """integer constant of width w (unsigned representation)"""
    __slots__ = ()
class U_:
    def __repr__(self): return 'undef'
U = U_()
class Wide:
    """integer wider than 32 bits seen as 32-bit pieces, least significant first"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class Byte(namedtuple('Byte', 'piece k n')):
    """part k of n of a 32-bit piece"""
    __slots__ = ()
class SB(namedtuple('SB', 'p')):
    """the isolated sign bit of a real value"""
    __slots__ = ()
class NotP(namedtuple('NotP', 'p')):
    __slots__ = ()
class Half(namedtuple('Half', 'x')):
    __slots__ = ()
class Ptr(namedtuple('Ptr', 'o off')):
    __slots__ = ()
class Vec(list): pass
class Agg(list): pass

def Kn(v, w): return K(v & ((1 << w) - 1), w)
def sgn(k): return k.v - (1 << k.w) if k.v >> (k.w - 1) & 1 else k.v

def isdd(x): return type(x) is Node or type(x) is Leaf

def undd(x):
    return x.x if type(x) is Leaf else x

# in exact mode floating-point arithmetic stays opaque, so that a value equals an operand only when it is that operand bit for bit
EXACT = False
def const_gate(p):
    """decision diagram of a value that is one of several constants, chosen by a comparison"""
    if is_const(p): return leaf(p)
    c0 = A.ZERO; g = None
    for m, c in p.t.items():
        if not m: c0 = const(c); continue
        if g is not None or len(m) != 1 or m[0][1] != 1 or A.ATOMS[m[0][0]][0] != 'gamma': return None
        g = (A.ATOMS[m[0][0]][1], const(c))
    if not all(isinstance(l, Poly) and is_const(l) for l in dd_leaves(g[0])): return None
    return dd_apply(lambda l: leaf(c0 + g[1] * l), g[0])
ARITH = re.compile(r'hadd|hsub|addsub|dpps|\.dp\.ps|faddp|vpadd|faddv|f?recp[es]|rsqrt[es]|fabd|vabds|madd')

_real_memo = {}
def real(x):
    """real value of a 32-bit piece (or double)"""
    if type(x) is Poly: return x
    if type(x) is K:
        if x.w == 32: return snap(struct.unpack('<f', struct.pack('<I', x.v))[0], True)
        if x.w == 64: return snap(struct.unpack('<d', struct.pack('<Q', x.v))[0], False)
        raise Unsupported('float from i%d' % x.w)
    if x is U: raise Unsupported('use of an undefined value')
    if type(x) is Node:
        r = _real_memo.get(x)
        if r is None:
            r = A.from_dd_any(dd_apply(lambda l: real(l), x)); _real_memo[x] = r
        return r
    if type(x) is Leaf: return real(x.x)
    if type(x) is NotP and type(x.p) is Poly and any(A.ATOMS[a][0] == 'in' and A.ATOMS[a][3] == 'f' for a in A.atoms_of(x.p)):
        return var(atom('NAN'))         # a float with all bits turned: an exclusive or with an uninitialised (all ones) variable
    raise Unsupported('real value of %s' % type(x).__name__)

INT_OK = {}
def int_atom_ok(a):
    k = A.ATOMS[a]
    if k[0] == 'in': return k[3] in ('i', 'z', 'b')
    if k[0] in ('fn', 'trunc', 'gamma', 'min', 'max', 'abs', 'floor'): return True
    return False

def integer(x):
    """integer value (mathematical integer, no wrap-around) of a scalar int"""
    if type(x) is K: return const(sgn(x))
    if type(x) is Poly:
        r = INT_OK.get(x)
        if r is None:
            r = all(int_atom_ok(a) and e > 0 for m in x.t for a, e in m); INT_OK[x] = r
        if not r: raise Unsupported('integer arithmetic on the bits of a float')
        return x
    if type(x) is Node: return A.from_dd_any(dd_apply(lambda l: integer(l), x))
    if type(x) is Leaf: return integer(x.x)
    raise Unsupported('integer value of %s' % type(x).__name__)

def gpiece(c, a, b):
    """gate on untyped pieces"""
    if c is T or a is b: return a
    if c is F: return b
    if a is U: return b
    if b is U: return a
    if type(a) is K and a == b: return a
    if type(a) is Poly and type(b) is Poly: return gate(c, a, b)
    return undd(dd_ite(c, a if isdd(a) else leaf(a), b if isdd(b) else leaf(b)))

_junk = {}
def junk(a):
    """a choice one arm of which is an uninitialised value"""
    r = _junk.get(a)
    if r is None:
        k = A.ATOMS[a]
        r = _junk[a] = k[0] == 'gamma' and any(type(l) is Poly and (l.t.get(()) == PATTERN or any(A.ATOMS[x][0] == 'NAN' for m in l.t for x, _ in m)) for l in A.dd_leaves(k[1]))
    return r
PATTERN = 0xAAAAAAAA - (1 << 32)
def refine(x, c):
    """x where c holds: an arm that is an uninitialised value goes when c rules it out"""
    if type(x) is Poly: js = [a for a in A.atoms_of(x) if junk(a)]
    elif isdd(x) and type(x) is Node: js = [a for a in A.dd_atoms(x) if junk(a)]
    else: return x
    if not js: return x
    m = {}
    for a in js:
        d = A.ATOMS[a][1]; r = A.dd_restrict(d, c)
        if r is not d: m[a] = from_dd(r)
    if not m: return x
    S = A.Subst(m)
    return S.poly(x) if type(x) is Poly else S.dd(x)
def gval(c, a, b, ty=None):
    if c is T or a is b: return a
    if c is F: return b
    if not isinstance(a, (Vec, Agg)) and not isinstance(b, (Vec, Agg)): a, b = refine(a, c), refine(b, dd_not(c))
    return gval1(c, a, b, ty)
def gval1(c, a, b, ty=None):
    if a is b: return a
    if isinstance(a, Vec): return Vec(gval(c, x, y) for x, y in zip(a, b)) if isinstance(b, Vec) else a
    if isinstance(b, Vec): return b
    if isinstance(a, Agg): return Agg(gval(c, x, y) for x, y in zip(a, b))
    if type(a) is Wide or type(b) is Wide:
        if a is U: return b
        if b is U: return a
        pa, pb = pieces64(a), pieces64(b)
        return Wide([gpiece(c, x, y) for x, y in zip(pa, pb)])
    if a is T or a is F or b is T or b is F or (isdd(a) and isdd(b) and _isbool(a) and _isbool(b)):
        if a is U: return b
        if b is U: return a
        return dd_ite(c, a, b)
    return gpiece(c, a, b)

def _isbool(d):
    while type(d) is Node: d = d.k[0]
    return type(d.x) is bool

def pieces64(x):
    if type(x) is Wide: return x.p
    if type(x) is K: return [Kn(x.v >> (32 * i), 32) for i in range(x.w // 32)]
    if x is U: return [U, U]
    if type(x) is Poly: raise Unsupported('pieces of a symbolic wide integer')
    if isdd(x):
        return [undd(dd_apply(lambda l, i=i: leaf(Kn(l.v >> (32 * i), 32)), x)) for i in range(2)]
    raise Unsupported('pieces of %s' % type(x).__name__)

SIGN = 0x80000000

def bit_leaf(op, a, b):
    """and/or/xor on two non-gated 32-bit pieces"""
    if type(a) is K and type(b) is K:
        return K({'and': a.v & b.v, 'or': a.v | b.v, 'xor': a.v ^ b.v}[op], a.w)
    if type(a) is K: a, b = b, a
    m = (1 << 32) - 1
    if type(b) is K:
        if op == 'and':
            if b.v == 0: return b
            if b.v == (1 << b.w) - 1: return a
            if b.w == 32 and b.v == m ^ SIGN: return fabs(real(a))
            if b.w == 32 and b.v == SIGN:
                return a if type(a) is SB else SB(real(a))
        if op == 'or':
            if b.v == 0: return a
            if b.v == (1 << b.w) - 1: return b
            if b.w == 32 and b.v == SIGN: return -fabs(real(a))
        if op == 'xor':
            if b.v == 0: return a
            if b.v == (1 << b.w) - 1:
                return a.p if type(a) is NotP else NotP(a)
            if b.w == 32 and b.v == SIGN:
                return SB(-a.p) if type(a) is SB else -real(a)
    if a is b or a == b:
        return a if op in ('and', 'or') else K(0, 32)
    if type(b) is SB and type(a) is Poly or type(a) is SB and type(b) is Poly:
        if type(a) is SB: a, b = b, a
        if op == 'xor':      # multiply by the sign
            return A.from_dd_any(A.sign_dd(b.p, leaf(-a), leaf(a), leaf(a)))
        if op == 'or' and A.nonneg(a):
            return A.from_dd_any(A.sign_dd(b.p, leaf(-a), leaf(a), leaf(a)))
    if type(a) is SB and type(b) is SB and op == 'xor':
        return SB(a.p * b.p)
    if type(a) is Poly and type(b) is Poly and op in ('and', 'or', 'xor'):
        return var(atom('fn', op, *sorted((integer(a), integer(b)), key=lambda p: p.h)))
    if type(a) is Poly and type(b) is K: return var(atom('fn', op, integer(a), integer(b)))
    raise Unsupported('bitwise %s of %s and %s' % (op, type(a).__name__, type(b).__name__))

def bitop(op, a, b, w):
    if a is U or b is U: return U
    if isdd(a) or isdd(b):
        # NotP of a mask distributes
        return undd(dd_apply(lambda x, y: leaf(bit_leaf(op, x, y)), a if isdd(a) else leaf(a), b if isdd(b) else leaf(b)))
    return bit_leaf(op, a, b)

class Obj:
    __slots__ = ('name', 'elem', 'size', 'kind', 'slot')
    def __init__(self, name, elem, size, kind):
        self.name, self.elem, self.size, self.kind = name, elem, size, kind   # size in bytes or None
    def __repr__(self): return self.name

class Result:
    """abstract effect of a wrapper: final memory of the objects, accesses, opaque calls"""
    def __init__(self):
        self.mem = {}; self.reads = {}; self.writes = {}; self.oob = []; self.calls = {}; self.divs = []
        self.estimates = 0; self.refinements = 0

class Eval:
    def __init__(self, mod, fname, args, objs, zero_init=()):
        self.m = mod; self.fn = llir.get(mod, fname)
        self.env = {}
        self.objs = objs
        self.res = Result()
        self.allocas = 0
        self.cur = None
        if len(args) != len(self.fn.args): raise Unsupported('argument count of %s' % fname)
        for (t, n), v in zip(self.fn.args, args): self.env[n] = v

    # ------------------------------------------------------------ operands
    def op(self, t, v):
        k = v[0]
        if k == 'l':
            try: return self.env[v[1]]
            except KeyError: raise Unsupported('value %s before its definition' % v[1])
        if k == 'c':
            if t[0] == 'i':
                if t[1] == 1: return T if v[1] else F
                return Kn(v[1], t[1])
            if t == ('f', 32): return K(struct.unpack('<I', struct.pack('<f', v[1]))[0], 32)
            if t == ('f', 64): return K(struct.unpack('<Q', struct.pack('<d', v[1]))[0], 64)
            raise Unsupported('constant type %r' % (t,))
        if k == 'u':
            if t[0] == 'v': return Vec([U] * t[1])
            if t[0] == 's': return Agg([self.op(x, v) for x in t[1]])
            if t[0] == 'a': return Agg([self.op(t[2], v) for _ in range(t[1])])
            if t[0] == 'n': return self.op(self.m.types[t[1]], v)
            return U
        if k == 'z': return self.zero(t)
        if k == 'agg':
            vals = [self.op(et, x) for et, x in v[1]]
            return Vec(vals) if t[0] == 'v' else Agg(vals)
        if k == 'g': return Ptr(self.global_obj(v[1]), 0)
        if k == 'null': return Ptr(None, 0)
        if k == 'ce_gep':
            return self.gep(v[1], [(ot, self.op(ot, x)) for ot, x in v[2]])
        if k == 'bytes':
            return v
        raise Unsupported('operand %r' % (v,))

    def zero(self, t):
        if t[0] == 'i': return F if t[1] == 1 else K(0, t[1])
        if t == ('f', 32): return K(0, 32)
        if t == ('f', 64): return K(0, 64)
        if t[0] == 'v': return Vec([self.zero(t[2]) for _ in range(t[1])])
        if t[0] == 'a': return Agg([self.zero(t[2]) for _ in range(t[1])])
        if t[0] == 's': return Agg([self.zero(x) for x in t[1]])
        if t[0] == 'n': return self.zero(self.m.types[t[1]])
        if t[0] == 'ptr': return Ptr(None, 0)
        raise Unsupported('zero %r' % (t,))

    def global_obj(self, name):
        o = self.objs.get(name)
        if o is None:
            text = self.m.globals.get(name)
            if text is None: raise Unsupported('global %s' % name)
            o = Obj(name, None, None, 'global'); self.objs[name] = o
            o.slot = None
            import re
            mt = re.search(r'\b(constant|global) (.*)$', text)
            if not mt: raise Unsupported('global %s' % name)
            if mt.group(1) != 'constant':
                o.kind = 'mutglobal'; self.res.calls.setdefault('mutable global ' + name, None)
            s = mt.group(2)
            k = s.rfind(', align')
            if k >= 0: s = s[:k]
            try:
                p = llir.P(llir.tokenize(s.split(', !')[0]), self.m); t = p.type(); v = p.value(t)
                mem = {}
                self.put(mem, 0, t, self.op(t, v)) if v[0] != 'bytes' else None
                self.gmem[o] = mem; o.size = self.m.size(t)
            except (ValueError, IndexError):
                raise Unsupported('initialiser of %s' % name)
        return o

    # ------------------------------------------------------------ memory
    def put(self, mem, off, t, v):
        """store value v of type t into a cell dict"""
        k = t[0]
        if k == 'n': return self.put(mem, off, self.m.types[t[1]], v)
        if k == 'v':
            es = self.m.size(t[2])
            for i, x in enumerate(v): self.put(mem, off + i * es, t[2], x)
            return
        if k == 'a':
            es = self.m.size(t[2])
            for i, x in enumerate(v): self.put(mem, off + i * es, t[2], x)
            return
        if k == 's':
            for i, x in enumerate(v):
                o, ft = self.m.field_off(t, i); self.put(mem, off + o, ft, x)
            return
        if k == 'ptr':
            mem[off] = (self.m.ptrsize, v)
            return
        sz = self.m.size(t)
        if k == 'f' and sz == 4 or k == 'i' and sz == 4:
            self.cell(mem, off, 4, v); return
        if sz in (8, 16) and k in 'if':
            if k == 'f':
                if type(v) is K:
                    for i, x in enumerate(pieces64(v)): self.cell(mem, off + 4 * i, 4, x)
                else:
                    self.cell(mem, off, 8, v)
                return
            if v is U: ps = [U] * (sz // 4)
            elif type(v) is Poly:
                self.cell(mem, off, 8, v); return
            else: ps = pieces64(v)
            for i, x in enumerate(ps): self.cell(mem, off + 4 * i, 4, x)
            return
        if sz in (1, 2):
            self.cell(mem, off, sz, v); return
        raise Unsupported('store of %r' % (t,))

    def cell(self, mem, off, sz, v):
        for o in range(off - 7, off + sz):
            if o in mem and o != off:
                s2, v2 = mem[o]
                if o + s2 > off:
                    if o > off and o + s2 <= off + sz: del mem[o]
                    else: raise Unsupported('overlapping store')
        if off in mem and mem[off][0] > sz: raise Unsupported('partial overwrite')
        mem[off] = (sz, v)

    def getp(self, mem, o, off, sz):
        if off in mem:
            s, v = mem[off]
            if s == sz: return v
            if s == 4 and sz in (1, 2):
                if type(v) is K: return Kn(v.v, 8 * sz)
                if v is U: return U
                return Byte(v, 0, 4 // sz)
            raise Unsupported('load of %d bytes from a %d byte cell of %s' % (sz, s, o.name))
        if any(off < q < off + sz for q in mem):
            raise Unsupported('load across cells')
        for q in range(max(0, off - 3), off):
            if q in mem and mem[q][0] + q > off:
                s, v = mem[q]
                if s == 4 and type(v) is K: return Kn(v.v >> (8 * (off - q)), 8 * sz)
                raise Unsupported('load inside a cell')
        if o.kind == 'param':
            if sz == 4 and off % 4 == 0: return var(atom('in', o.name, off // 4, o.elem))
            raise Unsupported('sub-cell access to parameter %s' % o.name)
        if o.kind in ('alloca',): return U
        raise Unsupported('load from %s' % o.name)

    def getv(self, mem, o, off, t):
        k = t[0]
        if k == 'n': return self.getv(mem, o, off, self.m.types[t[1]])
        if k == 'v':
            es = self.m.size(t[2])
            return Vec(self.getv(mem, o, off + i * es, t[2]) for i in range(t[1]))
        if k == 'a':
            es = self.m.size(t[2])
            return Agg(self.getv(mem, o, off + i * es, t[2]) for i in range(t[1]))
        if k == 's':
            return Agg(self.getv(mem, o, off + self.m.field_off(t, i)[0], t[1][i]) for i in range(len(t[1])))
        if k == 'ptr':
            if off in mem: return mem[off][1]
            raise Unsupported('load of a pointer')
        sz = self.m.size(t)
        if sz == 4: return self.getp(mem, o, off, 4)
        if sz in (8, 16):
            if sz == 8 and off in mem and mem[off][0] == 8: return mem[off][1]
            ps = [self.getp(mem, o, off + 4 * i, 4) for i in range(sz // 4)]
            if all(type(p) is K for p in ps):
                return K(sum(p.v << (32 * i) for i, p in enumerate(ps)), 8 * sz)
            return Wide(ps)
        if t == ('i', 1) : 
            v = self.getp(mem, o, off, 1)
            return self.to_bool(v)
        return self.getp(mem, o, off, sz)

    def to_bool(self, v):
        if type(v) is K: return T if v.v & 1 else F
        if isdd(v): return v if _isbool(v) else dd_apply(lambda l: bool(l.v & 1), v)
        if v is U: return F
        raise Unsupported('bool from %s' % type(v).__name__)

    def access(self, o, off, n, kind):
        if o is None:
            raise Unsupported('null pointer access')
        if o.kind == 'param':
            d = self.res.reads if kind == 'r' else self.res.writes
            key = (o.name, off, n)
            if key not in d: d[key] = self.cur
            if off < 0 or (o.size is not None and off + n > o.size):
                self.res.oob.append((kind, o.name, off, n, self.cur))
        elif o.kind == 'mutglobal' or o.kind == 'global' and kind == 'w':
            d = self.res.reads if kind == 'r' else self.res.writes
            d[(o.name, off, n)] = self.cur
        elif o.size is not None and (off < 0 or off + n > o.size):
            self.res.oob.append((kind, o.name, off, n, self.cur))

    def load(self, st, p, t):
        if isdd(p):
            r = None
            def go(d):
                if type(d) is Leaf: return self.load(st, d.x, t)
                vals = [go(k) for k in d.k]
                v = vals[-1]
                for i in range(len(vals) - 2, -1, -1):
                    kids = tuple(T if j == i else F for j in range(len(vals)))
                    v = gval(A.node(d.v, kids), vals[i], v)
                return v
            return go(p)
        if type(p) is not Ptr: raise Unsupported('load through %s' % type(p).__name__)
        if p.o is None: raise Unsupported('null load')
        self.access(p.o, p.off, self.m.size(t), 'r')
        mem = st.get(p.o)
        if mem is None: mem = self.gmem.get(p.o, {})
        return self.getv(mem, p.o, p.off, t)

    def store(self, st, p, t, v):
        if isdd(p):
            if self.m.size(t) != 4: raise Unsupported('store through a gated pointer')
            when = {}           # target -> condition under which it is the one written
            def go(d, c):
                if type(d) is Leaf:
                    when[d.x] = dd_or(when.get(d.x, F), c)
                    return
                for i, kd in enumerate(d.k):
                    kids = tuple(T if j == i else F for j in range(len(d.k)))
                    go(kd, A.dd_and(c, A.node(d.v, kids)))
            go(p, T)
            for q, x in [(q, gval(c, v, self.load(st, q, t))) for q, c in when.items() if c is not F]: self.store(st, q, t, x)
            return
        if type(p) is not Ptr: raise Unsupported('store through %s' % type(p).__name__)
        self.access(p.o, p.off, self.m.size(t), 'w')
        if p.o.kind == 'param': v = self.typed(p.o, t, v)
        mem = st.setdefault(p.o, {})
        self.put(mem, p.off, t, v)

    def typed(self, o, t, v):
        return v

    def gep(self, bt, ops):
        base = ops[0][1]
        t = bt
        off = 0
        dds = []
        first = True
        for it, iv in ops[1:]:
            if first:
                sz = self.m.size(t); first = False
            elif t[0] == 'n' or t[0] == 's':
                tt = self.m.types[t[1]] if t[0] == 'n' else t
                if type(iv) is not K: raise Unsupported('struct index')
                o, t = self.m.field_off(tt, iv.v); off += o; continue
            else:
                t = t[2]; sz = self.m.size(t)
            if type(iv) is K: off += sgn(iv) * sz
            elif isdd(iv): dds.append((iv, sz))
            elif type(iv) is Poly:
                g = A.pure_gamma(iv)
                if is_const(iv): off += int(const_val(iv)) * sz
                elif g is not None and all(is_const(l) for l in dd_leaves(g)):
                    dds.append((dd_apply(lambda l: leaf(Kn(int(const_val(l)), 64)), g), sz))
                else: raise Unsupported('data-dependent index')
            else: raise Unsupported('index %s' % type(iv).__name__)
        if isdd(base):
            r = dd_apply(lambda b: leaf(Ptr(b.o, b.off + off)), base)
        else:
            if type(base) is not Ptr: raise Unsupported('address arithmetic on %s' % type(base).__name__)
            r = Ptr(base.o, base.off + off)
        for d, sz in dds:
            r = dd_apply(lambda b, i, sz=sz: leaf(Ptr(b.o, b.off + sgn(i) * sz)), r if isdd(r) else leaf(r), d)
        return undd(r)

    # ------------------------------------------------------------ bit casts
    def flatten(self, t, v):
        """32-bit pieces of a value"""
        k = t[0]
        if k == 'v':
            es = self.m.size(t[2])
            if es >= 4:
                out = []
                for x in v: out += self.flatten(t[2], x)
                return out
            n = 4 // es
            out = []
            for i in range(0, len(v), n):
                g = v[i:i + n]
                if all(type(x) is K for x in g): out.append(K(sum(x.v << (8 * es * j) for j, x in enumerate(g)), 32))
                elif all(type(x) is Byte and x.k == j and x.n == n for j, x in enumerate(g)) and all(x.piece is g[0].piece or x.piece == g[0].piece for x in g):
                    out.append(g[0].piece)
                elif all(x is U for x in g): out.append(U)
                elif all(isdd(x) or type(x) is K for x in g) and all(g[0] is x or g[0] == x for x in g) and isdd(g[0]):
                    # a lane-wide mask
                    out.append(undd(dd_apply(lambda l: leaf(K(sum(l.v << (8 * es * j) for j in range(n)), 32)), g[0])))
                else: raise Unsupported('mixed sub-lanes')
            return out
        sz = self.m.size(t)
        if sz == 4: return [v]
        if k == 'f' and sz == 8:
            if type(v) is K: return pieces64(v)
            if v is U: return [U, U]
            raise Unsupported('bits of a double')
        if sz in (8, 16):
            if v is U: return [U] * (sz // 4)
            return pieces64(v)
        raise Unsupported('bitcast of %r' % (t,))

    def unflatten(self, t, ps):
        k = t[0]
        if k == 'v':
            es = self.m.size(t[2])
            if es >= 4:
                n = es // 4
                return Vec(self.unflatten(t[2], ps[i * n:(i + 1) * n]) for i in range(t[1]))
            n = 4 // es
            out = Vec()
            for p in ps:
                for j in range(n):
                    if type(p) is K: out.append(Kn(p.v >> (8 * es * j), 8 * es))
                    elif p is U: out.append(U)
                    elif isdd(p) and all(type(l) is K for l in dd_leaves(p)):
                        out.append(undd(dd_apply(lambda l, j=j: leaf(Kn(l.v >> (8 * es * j), 8 * es)), p)))
                    else: out.append(Byte(p, j, n))
            return out
        sz = self.m.size(t)
        if sz == 4: return ps[0]
        if all(type(p) is K for p in ps):
            return K(sum(p.v << (32 * i) for i, p in enumerate(ps)), 8 * sz)
        if k == 'f' and sz == 8: raise Unsupported('double from pieces')
        return Wide(list(ps))

    # ------------------------------------------------------------ operations
    def fbin(self, op, a, b):
        if a is U or b is U: return U
        x, y = real(a), real(b)
        if EXACT and not (is_const(x) and is_const(y)):
            # only what leaves every operand as it is, to the bit, is simplified
            if is_const(y) and op in ('fmul', 'fdiv') and abs(const_val(y)) == 1: return x if const_val(y) > 0 else -x
            if is_const(x) and op == 'fmul' and abs(const_val(x)) == 1: return y if const_val(x) > 0 else -y
            if op == 'fsub' and a == K(SIGN, 32): return -y
            if b == K(SIGN if op == 'fadd' else 0, 32) and op in ('fadd', 'fsub'): return x
            if op == 'fadd' and a == K(SIGN, 32): return y
            if op == 'fmul' and (not x.t and bounded_fn(y) or not y.t and bounded_fn(x)): return ZERO     # nothing finite is lost
            g, h = const_gate(x), const_gate(y)
            if g is not None and h is not None and op != 'frem' and not (op == 'fdiv' and any(not const_val(l) for l in dd_leaves(h))):
                f = {'fadd': lambda u, v: u + v, 'fsub': lambda u, v: u - v, 'fmul': lambda u, v: u * v, 'fdiv': lambda u, v: u * inv(v)}[op]
                return A.from_dd_any(dd_apply(lambda u, v: leaf(f(u, v)), g, h))
            for k, o in ((g, y), (h, x)):
                if k is not None and (op == 'fmul' or op == 'fdiv' and o is x) and all(abs(const_val(l)) == 1 for l in dd_leaves(k)):
                    return A.from_dd_any(dd_apply(lambda u: leaf(o if const_val(u) > 0 else -o), k))
            return var(atom('fn', '~' + op, x, y))
        if op in ('fadd', 'fsub') and len(x.t) <= 2 and len(y.t) <= 2 and (is_const(x) or is_const(y)) and not (is_const(x) and is_const(y)):
            g, h = const_gate(x), const_gate(y)
            if g is not None and h is not None:
                return A.from_dd_any(dd_apply(lambda u, v: leaf(u + v if op == 'fadd' else u - v), g, h))
        if op == 'fadd': return x + y
        if op == 'fsub': return x - y
        if op == 'fmul': return x * y
        if op == 'fdiv':
            if not is_const(y): self.res.divs.append((y, self.cur))
            if not y.t and not x.t: return var(atom('NAN'))
            return x * inv(y)
        if op == 'frem': return A.fmod(x, y)

    def ibin(self, op, a, b, w):
        if w == 1:
            a, b = self.to_bool(a), self.to_bool(b)
            if op == 'and': return dd_and(a, b)
            if op == 'or': return dd_or(a, b)
            if op in ('xor', 'add', 'sub'): return dd_xor(a, b)
            raise Unsupported('i1 ' + op)
        if a is U or b is U: return U
        if w == 8 and (_boolish(a) or _boolish(b)):
            # bool bytes
            return undd(dd_apply(lambda x, y: leaf(kbin(op, kb(x), kb(y), 8)), a if isdd(a) else leaf(a), b if isdd(b) else leaf(b)))
        if type(a) is K and type(b) is K: return kbin(op, a, b, w)
        if type(a) is Wide or type(b) is Wide: return self.widebin(op, a, b, w)
        if type(a) is Byte or type(b) is Byte:
            if op in ('and', 'or', 'xor'):
                return self.bytebin(op, a, b)
            raise Unsupported('sub-lane arithmetic')
        if op in ('and', 'or', 'xor'):
            if w == 32 or isdd(a) or isdd(b) or type(a) in (NotP, SB) or type(b) in (NotP, SB): return bitop(op, a, b, w)
            if type(b) is K and b.v == 0: return b if op == 'and' else a
            if type(b) is K and b.v == (1 << w) - 1 and op == 'and': return a
            return var(atom('fn', op, integer(a), integer(b)))
        if isdd(a) or isdd(b):
            if all(type(l) is K for l in dd_leaves(a if isdd(a) else leaf(a))) and all(type(l) is K for l in dd_leaves(b if isdd(b) else leaf(b))):
                return undd(dd_apply(lambda x, y: leaf(kbin(op, x, y, w)), a if isdd(a) else leaf(a), b if isdd(b) else leaf(b)))
        if op == 'ashr' and type(b) is K and w == 32 and b.v == 31:
            if type(a) is Poly and any(A.ATOMS[x][0] == 'in' and A.ATOMS[x][3] == 'f' for x in A.atoms_of(a)):
                return undd(A.sign_dd(a, leaf(Kn(-1, 32)), leaf(K(0, 32)), leaf(K(0, 32))))
            return undd(A.sign_dd(integer(a), leaf(Kn(-1, 32)), leaf(K(0, 32)), leaf(K(0, 32))))
        if op == 'lshr' and type(b) is K and w == 32 and b.v == 31:
            return undd(A.sign_dd(integer(a), leaf(K(1, 32)), leaf(K(0, 32)), leaf(K(0, 32))))
        if op == 'shl' and type(b) is K: return A.pscale(integer(a), 1 << b.v)
        x, y = integer(a), integer(b)
        if op == 'add': return x + y
        if op == 'sub': return x - y
        if op == 'mul': return x * y
        if op in ('sdiv', 'srem') and is_const(y) and abs(const_val(y)) == 1: return A.pscale(x, const_val(y)) if op == 'sdiv' else A.ZERO
        if op in ('sdiv', 'srem') and is_const(x) and is_const(y) and const_val(y):
            q = abs(const_val(x)) // abs(const_val(y)) * (1 if (const_val(x) < 0) == (const_val(y) < 0) else -1)
            return const(q) if op == 'sdiv' else const(const_val(x) - q * const_val(y))
        if op in ('sdiv', 'srem') and not is_const(y): self.res.divs.append((y, self.cur))
        if op == 'srem': return x - y * var(atom('fn', 'sdiv', x, y))
        return var(atom('fn', op, x, y))

    def bytebin(self, op, a, b):
        if type(a) is K: a, b = b, a
        if type(a) is Byte and type(b) is K:
            full = 0xff if a.n == 4 else 0xffff
            if op == 'and' and b.v == 0: return b
            if op == 'and' and b.v == full: return a
            if op in ('or', 'xor') and b.v == 0: return a
            # keep as a byte of the piecewise operation; recombined only when uniform
        raise Unsupported('sub-lane bit operation')

    def widebin(self, op, a, b, w):
        n = w // 32
        if op in ('and', 'or', 'xor'):
            pa, pb = pieces64(a), pieces64(b)
            return Wide([bitop(op, x, y, 32) for x, y in zip(pa, pb)])
        if type(b) is K and op in ('lshr', 'shl', 'ashr') and b.v % 32 == 0:
            s = b.v // 32; pa = pieces64(a); z = K(0, 32)
            if op == 'lshr': return Wide(pa[s:] + [z] * s)
            if op == 'shl': return Wide([z] * s + pa[:n - s])
        raise Unsupported('wide ' + op)

    def cast(self, op, st, tt, v):
        if st[0] == 'v' and op != 'bitcast':
            return Vec(self.cast(op, st[2], tt[2], x) for x in v)
        if op == 'bitcast':
            if st[0] == 'ptr': return v
            if tt[0] == 'i' and st[0] == 'v' and st[2] == ('i', 1):
                return Agg(v)      # <n x i1> -> iN mask
            return self.unflatten(tt, self.flatten(st, v))
        if v is U: return U
        if op in ('zext', 'sext'):
            if st == ('i', 1):
                one = Kn(1 if op == 'zext' else -1, tt[1])
                return undd(dd_apply(lambda l: leaf(one if l else K(0, tt[1])), v))
            if type(v) is K: return Kn(v.v if op == 'zext' else sgn(v), tt[1])
            if isdd(v) and _isbool(v): return undd(dd_apply(lambda l: leaf(K(1 if l else 0, tt[1])), v))
            if isdd(v) and all(type(l) is K for l in dd_leaves(v)):
                return undd(dd_apply(lambda l: leaf(Kn(l.v if op == 'zext' else sgn(l), tt[1])), v))
            if st[1] == 32 and tt[1] == 64:
                if op == 'zext':
                    if type(v) is Poly and all(int_atom_ok(a) for m in v.t for a, _ in m) and False: return v
                    return Wide([v, K(0, 32)])
                return v if type(v) is Poly else integer(v)
            if st[1] == 8 and isinstance(v, Poly): return v
            if isinstance(v, Agg): raise Unsupported('mask zext')
            raise Unsupported('%s of %s' % (op, type(v).__name__))
        if op == 'trunc':
            if tt == ('i', 1): return self.to_bool(v)
            if type(v) is K: return Kn(v.v, tt[1])
            if type(v) is Wide:
                if tt[1] == 32: return v.p[0]
                if tt[1] == 64: return Wide(v.p[:2])
            if isdd(v) and _isbool(v): return v
            if isdd(v): return undd(dd_apply(lambda l: leaf(Kn(l.v, tt[1])), v))
            if type(v) is Poly: return v
            raise Unsupported('trunc of %s' % type(v).__name__)
        if op in ('fpext', 'fptrunc'):
            if type(v) is K:
                if op == 'fpext':
                    x = struct.unpack('<f', struct.pack('<I', v.v))[0]
                    return snap(x, True)
                return snap(struct.unpack('<d', struct.pack('<Q', v.v))[0], False)
            return real(v)
        if op in ('sitofp', 'uitofp'):
            if isdd(v) and _isbool(v): return A.from_dd_any(dd_apply(lambda l: leaf(const(1 if l else 0) if op == 'uitofp' else const(-1 if l else 0)), v))
            return integer(v)
        if op in ('fptosi', 'fptoui'):
            p = A.trunc(real(v))
            if is_const(p): return Kn(int(const_val(p)), tt[1])
            return p
        raise Unsupported(op)

    def icmp(self, pr, t, a, b):
        if t[0] == 'v': return Vec(self.icmp(pr, t[2], x, y) for x, y in zip(a, b))
        if t[0] == 'ptr':
            if type(a) is Ptr and type(b) is Ptr:
                if pr == 'eq': return T if a == b else F
                if pr == 'ne': return F if a == b else T
                if a.o is not None and a.o is b.o: return T if {'ult': a.off < b.off, 'ule': a.off <= b.off, 'ugt': a.off > b.off, 'uge': a.off >= b.off, 'slt': a.off < b.off, 'sle': a.off <= b.off, 'sgt': a.off > b.off, 'sge': a.off >= b.off}[pr] else F
            raise Unsupported('pointer comparison')
        w = t[1]
        if type(a) is K and type(b) is K:
            x, y = (a.v, b.v) if pr[0] == 'u' else (sgn(a), sgn(b))
            return T if {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr[-2:]] else F
        if w == 1:
            a, b = self.to_bool(a), self.to_bool(b)
            x = dd_xor(a, b)
            if pr == 'ne': return x
            if pr == 'eq': return dd_not(x)
            raise Unsupported('i1 compare')
        if isdd(a) or isdd(b):
            da, db = a if isdd(a) else leaf(a), b if isdd(b) else leaf(b)
            if all(type(l) in (K, bool) for l in dd_leaves(da) + dd_leaves(db)):
                def f(x, y):
                    x, y = kb(x, w), kb(y, w)
                    return self.icmp(pr, t, x, y)
                return dd_apply(f, da, db)
        if isinstance(a, Agg) or isinstance(b, Agg):
            # comparison of a lane mask with a constant: all-ones / zero
            m, k = (a, b) if isinstance(a, Agg) else (b, a)
            full = (1 << len(m)) - 1
            allt = T; anyt = F
            for x in m: allt = dd_and(allt, x); anyt = dd_or(anyt, x)
            if type(k) is K and k.v == 0: r = dd_not(anyt)
            elif type(k) is K and k.v == full: r = allt
            else: raise Unsupported('mask comparison')
            return r if pr == 'eq' else dd_not(r)
        if type(a) is Wide or type(b) is Wide:
            pa, pb = pieces64(a), pieces64(b)
            if pr in ('eq', 'ne'):
                r = T
                for x, y in zip(pa, pb): r = dd_and(r, cmp_dd('eq', integer(x), integer(y)))
                return r if pr == 'eq' else dd_not(r)
            raise Unsupported('wide compare')
        x, y = integer(a), integer(b)
        o = pr[-2:]
        if pr[0] == 'u' and o not in ('eq', 'ne'):
            if type(b) is K and A.nonneg(x): pass
            else:
                return A.node(A.pred('b', ('ucmp', pr, x, y)), (F, T))
        return cmp_dd(o, x, y)

    def fcmp(self, pr, t, a, b):
        if t[0] == 'v': return Vec(self.fcmp(pr, t[2], x, y) for x, y in zip(a, b))
        if pr == 'true': return T
        if pr == 'false': return F
        if a is U or b is U: return F
        x, y = real(a), real(b)
        if pr in ('uno', 'ord') or (x is y and pr in ('une', 'oeq', 'ueq', 'one')):
            r = F
            for p in {x, y}: r = dd_or(r, isnan(p))
            if pr in ('une', 'uno'): return r
            if pr in ('ueq',): return T
            if pr == 'one': return F
            return dd_not(r)
        return cmp_dd(pr[1:], x, y)

    # ------------------------------------------------------------ calls
    def call(self, ins, st):
        callee = ins.x
        if callee == 'asm': raise Unsupported('inline assembly')
        n = callee[1:].strip('"')
        if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n.startswith('llvm.experimental.noalias') or n.startswith('llvm.assume') or n.startswith('llvm.invariant') or n.startswith('llvm.donothing'):
            return None
        av = [self.op(t, v) for t, v in ins.a] if not n.startswith('llvm.x86.avx') or True else None
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            d, s, ln = av[0], av[1], av[2]
            if type(ln) is not K or ln.v % 4 and ln.v not in (1, 2): raise Unsupported('memcpy length')
            vals = []
            if ln.v % 4:
                x = self.load(st, s, ('i', 8 * ln.v)); self.store(st, d, ('i', 8 * ln.v), x)
            else:
                for i in range(0, ln.v, 4):
                    q = Ptr(s.o, s.off + i) if type(s) is Ptr else undd(dd_apply(lambda l: leaf(Ptr(l.o, l.off + i)), s))
                    # pointers stored in memory move whole
                    mem = st.get(q.o, {}) if type(q) is Ptr else {}
                    if type(q) is Ptr and q.off in mem and mem[q.off][0] > 4:
                        vals.append((i, mem[q.off][0], mem[q.off][1])); continue
                    if type(q) is Ptr and any(o < q.off < o + z[0] for o, z in mem.items()): continue
                    vals.append((i, 4, self.load(st, q, ('i', 32))))
                for i, z, x in vals:
                    if z == 4: self.store(st, Ptr(d.o, d.off + i), ('i', 32), x)
                    else: st.setdefault(d.o, {}); self.cell(st[d.o], d.off + i, z, x)
            return d
        if n.startswith('llvm.memset') or n == 'memset':
            d, v, ln = av[0], av[1], av[2]
            if type(ln) is not K or type(v) is not K or ln.v % 4: raise Unsupported('memset')
            b = v.v & 0xff
            for i in range(0, ln.v, 4): self.store(st, Ptr(d.o, d.off + i), ('i', 32), K(b * 0x01010101, 32))
            return d
        if n.startswith('llvm.expect'): return av[0]
        t = ins.ty
        r = self.intrinsic(n, t, ins, av, st)
        return r

    def lanes(self, t, f, *vs):
        if t[0] == 'v': return Vec(f(*xs) for xs in zip(*vs))
        return f(*vs)

    def intrinsic(self, n, t, ins, av, st):
        base = n
        R = real
        def u(f):
            return lambda *xs: U if any(x is U for x in xs) else f(*[R(x) for x in xs])
        if n.startswith('llvm.'):
            b = n[5:].split('.')[0]
            full = n[5:]
            if b == 'sqrt': return self.lanes(t, u(A.sqrt), av[0])
            if b == 'fabs': return self.lanes(t, u(fabs), av[0])
            if b == 'floor': return self.lanes(t, u(A.floor), av[0])
            if b == 'ceil': return self.lanes(t, u(lambda x: -A.floor(-x)), av[0])
            if b == 'trunc': return self.lanes(t, u(A.trunc), av[0])
            if b == 'sin': return self.lanes(t, u(A.sin), av[0])
            if b == 'cos': return self.lanes(t, u(A.cos), av[0])
            if b == 'tan': return self.lanes(t, u(A.tan), av[0])
            if b == 'pow': return self.lanes(t, u(A.pw), av[0], av[1])
            if b == 'powi': return A.ppow(R(av[0]), sgn(av[1])) if type(av[1]) is K else A.pw(R(av[0]), integer(av[1]))
            if b == 'exp2': return self.lanes(t, u(lambda x: A.pw(const(2), x)), av[0])
            if b in ('exp', 'log', 'log2', 'log10', 'rint', 'round', 'nearbyint', 'roundeven'):
                nm = {'rint': 'rint', 'nearbyint': 'rint', 'roundeven': 'rint'}.get(b, b)
                return self.lanes(t, u(lambda x: A.fn(nm, x)), av[0])
            if b in ('minnum', 'minimum'): return self.lanes(t, u(A.pmin2), av[0], av[1])
            if b in ('maxnum', 'maximum'): return self.lanes(t, u(A.pmax2), av[0], av[1])
            if b in ('fma', 'fmuladd'):
                if EXACT: return self.lanes(t, u(lambda x, y, z: self.fbin('fadd', self.fbin('fmul', x, y), z)), av[0], av[1], av[2])
                return self.lanes(t, u(lambda x, y, z: x * y + z), av[0], av[1], av[2])
            if b == 'copysign':
                return self.lanes(t, u(lambda x, y: A.from_dd_any(A.sign_dd(y, leaf(-fabs(x)), leaf(fabs(x)), leaf(fabs(x))))), av[0], av[1])
            if b == 'abs': return self.lanes(t, lambda x: U if x is U else fabs(integer(x)), av[0])
            if b in ('smin', 'smax'): return self.lanes(t, lambda x, y: mm(b[1:], (integer(x), integer(y))), av[0], av[1])
            if full.startswith('is.fpclass'):
                m = av[1].v
                x = av[0]
                xs = x if isinstance(x, Vec) else [x]
                rr = Vec(fpclass(R(y), m) for y in xs)
                return rr if isinstance(x, Vec) else rr[0]
            if full.startswith('vector.reduce.'):
                k = full.split('.')[2]
                if k == 'fadd' and EXACT: return var(atom('fn', '~reduce', *[R(x) for x in [av[0]] + list(av[1])]))
                if k == 'fadd':
                    s = R(av[0])
                    for x in av[1]: s = s + R(x)
                    return s
                if k in ('fmax', 'fmin', 'fmaximum', 'fminimum'): return mm(k[1:4], [R(x) for x in av[0]])
                if k in ('add',):
                    s = ZERO
                    for x in av[0]: s = s + integer(x)
                    return s
                if k in ('and', 'or'):
                    s = av[0][0]
                    for x in av[0][1:]: s = dd_and(s, x) if k == 'and' else dd_or(s, x)
                    return s
            if full in ('objectsize.i64.p0',): return K((1 << 64) - 1, 64)
            r = self.target(full, t, ins, av, st)
            if r is not None: return r
            raise Unsupported('intrinsic ' + n)
        nm = n
        L = {'sinf': A.sin, 'cosf': A.cos, 'tanf': A.tan, 'sqrtf': A.sqrt, 'fabsf': fabs, 'floorf': A.floor, 'powf': A.pw, 'fmodf': A.fmod,
             'acosf': A.acos, 'asinf': A.asin, 'atanf': A.atan, 'atan2f': A.atan2, 'fminf': A.pmin2, 'fmaxf': A.pmax2, 'truncf': A.trunc,
             'sin': A.sin, 'cos': A.cos, 'tan': A.tan, 'sqrt': A.sqrt, 'fabs': fabs, 'floor': A.floor, 'pow': A.pw, 'fmod': A.fmod,
             'acos': A.acos, 'asin': A.asin, 'atan': A.atan, 'atan2': A.atan2, 'fmin': A.pmin2, 'fmax': A.pmax2, 'trunc': A.trunc,
             'ceilf': lambda x: -A.floor(-x), 'ceil': lambda x: -A.floor(-x), 'exp2f': lambda x: A.pw(const(2), x),
             'copysignf': lambda x, y: A.from_dd_any(A.sign_dd(y, leaf(-fabs(x)), leaf(fabs(x)), leaf(fabs(x))))}
        if nm in L:
            if any(x is U for x in av): return U
            return L[nm](*[R(x) for x in av])
        if nm in ('expf', 'logf', 'log2f', 'log10f', 'roundf', 'rintf', 'cbrtf', 'hypotf', 'exp', 'log', 'log2', 'sinhf', 'coshf', 'tanhf'):
            if nm == 'hypotf': return A.sqrt(R(av[0]) * R(av[0]) + R(av[1]) * R(av[1]))
            return A.fn(nm.rstrip('f') if nm not in ('expf',) else 'exp', *[R(x) for x in av])
        if nm in ('modff', 'modf'):
            x = R(av[0]); i = A.trunc(x)
            self.store(st, av[1], ('f', 32) if nm == 'modff' else ('f', 64), i)
            return x - i
        if nm == 'abs': return fabs(integer(av[0]))
        if nm in ('sincosf',):
            self.store(st, av[1], ('f', 32), A.sin(R(av[0]))); self.store(st, av[2], ('f', 32), A.cos(R(av[0]))); return None
        if nm in ('__isnanf', 'isnanf', '__isnan'): return undd(dd_apply(lambda l: leaf(K(1 if l else 0, 32)), isnan(R(av[0]))))
        self.res.calls.setdefault(nm, self.cur)
        raise Unsupported('call to %s' % nm)

    def target(self, f, t, ins, av, st=None):
        R = real
        if EXACT and ARITH.search(f):
            xs = [R(x) for v in av for x in (v if isinstance(v, Vec) else [v]) if x is not U and type(x) in (Poly, K)]
            if not all(is_const(x) for x in xs):
                return Vec(var(atom('fn', '~%s.%d' % (f, k), *xs)) for k in range(t[1])) if t[0] == 'v' else var(atom('fn', '~' + f, *xs))
        def mn(x, y): return U if x is U or y is U else A.pmin2(R(x), R(y))
        def mx(x, y): return U if x is U or y is U else A.pmax2(R(x), R(y))
        if f.startswith('x86.'):
            g = f[4:]
            if g in ('sse.max.ps', 'avx.max.ps.256'): return Vec(mx(x, y) for x, y in zip(*av))
            if g in ('sse.min.ps', 'avx.min.ps.256'): return Vec(mn(x, y) for x, y in zip(*av))
            if g == 'sse.max.ss': return Vec([mx(av[0][0], av[1][0])] + list(av[0][1:]))
            if g == 'sse.min.ss': return Vec([mn(av[0][0], av[1][0])] + list(av[0][1:]))
            if g in ('sse.rcp.ps', 'avx.rcp.ps.256'): return Vec(U if x is U else var(atom('fn', 'rcp_approx', R(x))) for x in av[0])
            if g == 'sse.rcp.ss': return Vec([var(atom('fn', 'rcp_approx', R(av[0][0])))] + list(av[0][1:]))
            if g in ('sse.rsqrt.ps', 'avx.rsqrt.ps.256'): return Vec(U if x is U else var(atom('fn', 'rsqrt_approx', R(x))) for x in av[0])
            if g == 'sse.rsqrt.ss': return Vec([var(atom('fn', 'rsqrt_approx', R(av[0][0])))] + list(av[0][1:]))
            if g in ('sse3.hadd.ps', 'avx.hadd.ps.256', 'sse3.hsub.ps'):
                sg = -1 if 'hsub' in g else 1
                a, b = av; out = Vec()
                for k in range(0, len(a), 4):
                    for v in (a, b):
                        for j in (0, 2):
                            x, y = v[k + j], v[k + j + 1]
                            out.append(U if x is U or y is U else R(x) + (R(y) if sg > 0 else -R(y)))
                return out
            if g in ('sse3.addsub.ps', 'avx.addsub.ps.256'):
                return Vec(U if x is U or y is U else (R(x) + R(y) if i & 1 else R(x) - R(y)) for i, (x, y) in enumerate(zip(*av)))
            if g in ('sse41.dpps', 'avx.dp.ps.256'):
                imm = av[2].v; out = Vec()
                for k in range(0, len(av[0]), 4):
                    s = ZERO
                    for i in range(4):
                        if imm >> (4 + i) & 1: s = s + R(av[0][k + i]) * R(av[1][k + i])
                    for i in range(4): out.append(s if imm >> i & 1 else K(0, 32))
                return out
            if g in ('sse41.round.ps', 'sse41.round.ss', 'avx.round.ps.256'):
                imm = av[-1].v & 7
                fns = {1: A.floor, 2: lambda x: -A.floor(-x), 3: A.trunc, 0: lambda x: A.fn('rint', x), 4: lambda x: A.fn('rint', x)}
                return Vec(U if x is U else fns[imm](R(x)) for x in av[-2])
            if g in ('sse41.blendvps', 'avx.blendv.ps.256'):
                out = Vec()
                for a, b, m in zip(*av):
                    if isdd(m): c = dd_apply(lambda l: bool(kb(l, 32).v >> 31), m)
                    elif type(m) is K: c = T if m.v >> 31 else F
                    else: c = cmp_dd('lt', R(m), ZERO)
                    out.append(gval(c, b, a))
                return out
            if g in ('sse.movmsk.ps', 'avx.movmsk.ps.256'):
                bits = Agg()
                for m in av[0]:
                    if isdd(m): bits.append(dd_apply(lambda l: bool(kb(l, 32).v >> 31), m))
                    elif type(m) is K: bits.append(T if m.v >> 31 else F)
                    else: bits.append(cmp_dd('lt', R(m), ZERO))
                return bits
            if g in ('avx.vpermilvar.ps', 'avx.vpermilvar.ps.256'):
                return Vec(av[0][(i & ~3) + (av[1][i].v & 3)] for i in range(len(av[0])))
        if f.startswith('aarch64.neon.') or f.startswith('arm.neon.'):
            def u(f):
                return lambda *xs: U if any(x is U for x in xs) else f(*[R(x) for x in xs])
            g = f.split('neon.', 1)[1].split('.')[0]
            mm_ = re.match(r'^v?(ld|st)([234])$', g)
            if mm_:
                k = int(mm_.group(2))
                if mm_.group(1) == 'ld':
                    vt = t[1][0]; n = vt[1]; es = self.m.size(vt[2])
                    flat = self.load(st, av[0], ('v', n * k, vt[2]))
                    return Agg(Vec(flat[i * k + j] for i in range(n)) for j in range(k))
                ptr, vecs = (av[0], av[1:1 + k]) if f.startswith('arm.') else (av[k], av[:k])
                n = len(vecs[0])
                self.store(st, ptr, ('v', n * k, ('f', 32)), Vec(vecs[j][i] for i in range(n) for j in range(k)))
                return None
            if g in ('fmax', 'fmaxnm', 'vmaxs', 'vmaxnm'): return self.lanes(t, mx, *av)
            if g in ('fmin', 'fminnm', 'vmins', 'vminnm'): return self.lanes(t, mn, *av)
            if g in ('faddp', 'vpadd', 'addp'):
                a, b = av; v = list(a) + list(b)
                return Vec(R(v[2 * i]) + R(v[2 * i + 1]) for i in range(len(a)))
            if g in ('fmaxp', 'vpmaxs', 'fmaxnmp'):
                v = list(av[0]) + list(av[1]); return Vec(mx(v[2 * i], v[2 * i + 1]) for i in range(len(av[0])))
            if g in ('fminp', 'vpmins', 'fminnmp'):
                v = list(av[0]) + list(av[1]); return Vec(mn(v[2 * i], v[2 * i + 1]) for i in range(len(av[0])))
            if g in ('faddv',):
                s = ZERO
                for x in av[0]: s = s + R(x)
                return s
            if g in ('fmaxv', 'fmaxnmv'): return mm('max', [R(x) for x in av[0]])
            if g in ('fminv', 'fminnmv'): return mm('min', [R(x) for x in av[0]])
            # NEON estimates are read as exact; the caller decides whether each has enough refinement steps
            if g in ('frecpe', 'vrecpe', 'frsqrte', 'vrsqrte'): self.res.estimates += 1
            if g in ('frecps', 'vrecps', 'frsqrts', 'vrsqrts'): self.res.refinements += 1
            if g in ('frecpe', 'vrecpe'): return self.lanes(t, u(A.inv), av[0])
            if g in ('frecps', 'vrecps'): return self.lanes(t, lambda x, y: const(2) - R(x) * R(y), *av)
            if g in ('frsqrte', 'vrsqrte'): return self.lanes(t, u(lambda x: A.inv(A.sqrt(x))), av[0])
            if g in ('frsqrts', 'vrsqrts'): return self.lanes(t, lambda x, y: A.pscale(const(3) - R(x) * R(y), Fraction(1, 2)), *av)
            if g in ('fabd', 'vabds'): return self.lanes(t, lambda x, y: fabs(R(x) - R(y)), *av)
            if g in ('vld1',): 
                return self.load(self.st, av[0], t)
            if g in ('vst1',):
                self.store(self.st, av[0], ins.a[1][0], av[1]); return ()
            if g in ('uaddlv', 'umaxv', 'uminv'): pass
            if g in ('vbsl',):
                m, a, b = [self.flatten(ins.a[i][0], av[i]) for i in range(3)]
                out = [self.bsl(x, y, z) for x, y, z in zip(m, a, b)]
                return self.unflatten(t, out)
        if f.startswith('wasm.'):
            g = f[5:]
            if g == 'shuffle':
                a, b = av[0], av[1]; both = list(a) + list(b)
                return Vec(both[k.v] for k in av[2:])
            if g.startswith('bitselect'):
                a, b, m = [self.flatten(ins.a[i][0], av[i]) for i in range(3)]
                return self.unflatten(t, [self.bsl(x, y, z) for x, y, z in zip(m, a, b)])
            if g.startswith('relaxed.madd'): return Vec(R(x) * R(y) + R(z) for x, y, z in zip(*av))
            if g.startswith('relaxed.nmadd'): return Vec(R(z) - R(x) * R(y) for x, y, z in zip(*av))
            if g.startswith('relaxed.min') or g.startswith('pmin'): return self.lanes(t, mn, *av)
            if g.startswith('relaxed.max') or g.startswith('pmax'): return self.lanes(t, mx, *av)
            if g.startswith('floor'): return self.lanes(t, lambda x: A.floor(R(x)), av[0])
            if g.startswith('bitmask'):
                return Agg([dd_apply(lambda l: bool(kb(l, 32).v >> 31), m) if isdd(m) else (T if type(m) is K and m.v >> 31 else cmp_dd('lt', R(m), ZERO)) for m in av[0]])
            if g.startswith('alltrue') or g.startswith('anytrue'):
                r = T if g.startswith('all') else F
                for m in av[0]:
                    if type(m) is K: c = T if m.v else F
                    elif isdd(m): c = dd_apply(lambda l: bool(kb(l, 32).v), m)
                    else: raise Unsupported(f)
                    r = dd_and(r, c) if g.startswith('all') else dd_or(r, c)
                return undd(dd_apply(lambda l: leaf(K(1 if l else 0, 32)), r))
        return None

    def bsl(self, m, a, b):
        """bit select: m ? a : b"""
        if type(m) is K:
            if m.v == 0: return b
            if m.v == 0xffffffff: return a
            if m.v == SIGN: # sign of a, magnitude of b
                return A.from_dd_any(A.sign_dd(real(a), leaf(-fabs(real(b))), leaf(fabs(real(b))), leaf(fabs(real(b)))))
            if m.v == SIGN - 1:
                return self.bsl(K(SIGN, 32), b, a)
        if isdd(m):
            c = dd_apply(lambda l: bool(kb(l, 32).v), m)
            return gval(c, a, b)
        raise Unsupported('bit select')

    # ------------------------------------------------------------ instructions
    def step(self, ins, st):
        op = ins.op
        t = ins.ty
        self.cur = ins.dbg
        self.st = st
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.op(t, ins.a[0]), self.op(t, ins.a[1])
            return self.lanes(t, lambda x, y: self.fbin(op, x, y), a, b)
        if op in llir.BIN:
            a, b = self.op(t, ins.a[0]), self.op(t, ins.a[1])
            if t[0] == 'v' and self.m.size(t[2]) < 4 and t[2] != ('i', 1) and op in ('and', 'or', 'xor'):
                pa, pb = self.flatten(t, a), self.flatten(t, b)
                return self.unflatten(t, [bitop(op, x, y, 32) for x, y in zip(pa, pb)])
            w = t[2][1] if t[0] == 'v' else t[1]
            if isinstance(a, Agg) or isinstance(b, Agg): return self.maskop(op, a, b)
            return self.lanes(t, lambda x, y: self.ibin(op, x, y, w), a, b)
        if op == 'fneg':
            return self.lanes(t, lambda x: U if x is U else -real(x), self.op(t, ins.a[0]))
        if op == 'freeze': return self.op(t, ins.a[0])
        if op in llir.CAST: 
            if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
                v = self.op(ins.x, ins.a[0])
                if op == 'addrspacecast': return v
                raise Unsupported(op)
            return self.cast(op, ins.x, t, self.op(ins.x, ins.a[0]))
        if op == 'load': return self.load(st, self.op(('ptr',), ins.a[0]), t)
        if op == 'store': self.store(st, self.op(('ptr',), ins.a[1]), t, self.op(t, ins.a[0])); return None
        if op == 'getelementptr': return self.gep(ins.x, [(ot, self.op(ot, v)) for ot, v in ins.a])
        if op == 'alloca':
            n = 1
            if ins.a[0] is not None:
                k = self.op(*ins.a[0]); 
                if type(k) is not K: raise Unsupported('variable-length alloca')
                n = k.v
            self.allocas += 1
            o = Obj('%%local%d' % self.allocas, None, self.m.size(ins.x) * n, 'alloca')
            st[o] = {}
            return Ptr(o, 0)
        if op == 'icmp': return self.icmp(ins.x, t, self.op(t, ins.a[0]), self.op(t, ins.a[1]))
        if op == 'fcmp': return self.fcmp(ins.x, t, self.op(t, ins.a[0]), self.op(t, ins.a[1]))
        if op == 'select':
            c = self.op(ins.x, ins.a[0]); a = self.op(t, ins.a[1]); b = self.op(t, ins.a[2])
            if isinstance(c, Vec): return Vec(self.sel(k, x, y, t[2]) for k, x, y in zip(c, a, b))
            return self.sel(c, a, b, t)
        if op == 'extractelement':
            v = self.op(t, ins.a[0]); i = self.op(('i', 64), ins.a[1])
            if type(i) is not K: raise Unsupported('variable lane index')
            return v[i.v]
        if op == 'insertelement':
            v = Vec(self.op(t, ins.a[0])); i = self.op(('i', 64), ins.a[2])
            if type(i) is not K: raise Unsupported('variable lane index')
            v[i.v] = self.op(ins.x, ins.a[1]); return v
        if op == 'shufflevector':
            a, b = self.op(t, ins.a[0]), self.op(t, ins.a[1])
            mk = self.op(ins.x, ins.a[2]); both = list(a) + list(b)
            return Vec(U if k is U else both[k.v] for k in mk)
        if op == 'extractvalue':
            v = self.op(t, ins.a[0])
            for i in ins.x: v = v[i]
            return v
        if op == 'insertvalue':
            v = Agg(self.op(t, ins.a[0])); et, ix = ins.x
            x = self.op(et, ins.a[1])
            cur = v
            for i in ix[:-1]:
                cur[i] = Agg(cur[i]) ; cur = cur[i]
            cur[ix[-1]] = x
            return v
        if op == 'call': return self.call(ins, st)
        raise Unsupported('instruction ' + op)

    def maskop(self, op, a, b):
        raise Unsupported('arithmetic on a lane mask')

    def sel(self, c, a, b, t):
        if c is U: return b
        if t == ('f', 32) or t == ('f', 64):
            if c is T: return a
            if c is F: return b
            if a is U: return b
            if b is U: return a
            return gate(c, refine(real(a), c), refine(real(b), dd_not(c)))
        return gval(c, a, b)

    # ------------------------------------------------------------ the data-flow
    def run(self):
        fn = self.fn
        self.gmem = {}
        succ = {}
        for b in fn.order:
            term = fn.blocks[b][-1]
            if term.op == 'br': succ[b] = list(term.a) if len(term.a) == 1 else [term.a[1], term.a[2]]
            elif term.op == 'switch': succ[b] = [term.a[1]] + [x for _, x in term.a[2]]
            else: succ[b] = []
        key, back = schedule(fn.order[0], succ, fn)
        self.trips = {h: trip_bound(fn, h, body) for h, body in back.items()}
        # nodes of the unrolled graph are (block, iteration numbers of the enclosing loops); the heap yields them in topological order
        heap = []; seen = set(); pos = {}
        edges = {}          # (p, n) -> cond
        preds = {}
        phiv = {}           # (p, n) -> values arriving at the phis of n
        idom = {}
        out_state = {}
        exits = []
        def common(a, b):
            while a != b:
                if pos[a] > pos[b]: a = idom[a]
                else: b = idom[b]
            return a
        def conds(d, ps, b):
            """condition of each incoming edge of b relative to its immediate dominator d"""
            need = set(); work = [p for p in ps]
            while work:
                x = work.pop()
                if x in need or x == d: continue
                need.add(x); work.extend(preds[x])
            R = {d: T}
            for x in sorted(need, key=lambda q: pos[q]):
                c = F
                for p in preds[x]:
                    if p in R: c = dd_or(c, dd_and(R[p], edges[(p, x)]))
                R[x] = c
            return [dd_and(R[p], edges[(p, b)]) for p in ps]
        start = (fn.order[0], ())
        def path():
            """condition under which the block being evaluated is reached"""
            c = T; n = self.at
            while n != start:
                d = idom[n]; o = F
                for x in conds(d, preds[n], n): o = dd_or(o, x)
                c = dd_and(c, o); n = d
            return c
        self.path = path
        heapq.heappush(heap, (key(*start), start)); seen.add(start); preds[start] = []
        while heap:
            node = heapq.heappop(heap)[1]
            b, its = node
            pos[node] = len(pos); self.at = node
            if len(pos) > 12000: raise Unsupported('loop not resolved (%s)' % b)
            ps = preds[node]
            blk = fn.blocks[b]
            if blk[-1].op == 'unreachable': continue
            if node == start:
                st = {}
                idom[node] = node
                # object identity is by Obj; parameters start unwritten
            elif len(ps) == 1:
                idom[node] = ps[0]
                st = {o: dict(c) for o, c in out_state[ps[0]].items()}
                cs = [T]
            else:
                d = ps[0]
                for p in ps[1:]: d = common(d, p)
                idom[node] = d
                cs = conds(d, ps, node)
                st = self.merge([out_state[p] for p in ps], cs)
            # phis
            newv = {}
            k = 0
            for ins in blk:
                if ins.op != 'phi': break
                vals = [phiv[(p, node)][k] for p in ps]
                k += 1
                v = vals[-1]
                for c, x in zip(cs[-2::-1], vals[-2::-1]): v = self.sel(c, x, v, ins.ty) if ins.ty[0] == 'f' else gval(c, x, v)
                newv[ins.res] = v
            self.env.update(newv)
            for ins in blk[k:]:
                if ins.op in ('br', 'switch', 'ret'): break
                v = self.step(ins, st)
                if ins.res is not None: self.env[ins.res] = v
            out_state[node] = st
            term = blk[-1]
            self.cur = term.dbg
            if term.op == 'ret':
                exits.append((node, st)); continue
            def edge(s, c):
                if c is F: return
                tb = fn.blocks[s]
                if tb[-1].op == 'unreachable' and len(tb) <= 3: return
                n = (s, iters(back, key, b, its, s))
                if s in back and b in back[s]:
                    t = self.trips[s]
                    if n[1][-1] > max(64, t or 0) or t is not None and t > 300: raise Unsupported('loop not resolved (%s)' % s)
                if (node, n) in edges: edges[(node, n)] = dd_or(edges[(node, n)], c); return
                edges[(node, n)] = c
                pv = []
                for ins in tb:
                    if ins.op != 'phi': break
                    x = self.op(ins.ty, {lbl: v for v, lbl in ins.a}[b])
                    if c is not T:
                        if isdd(x): x = A.dd_restrict(x, c); x = x if _boolish(x) else undd(x)
                        elif back and type(x) is Poly and A.pure_gamma(x) is not None: x = from_dd(A.dd_restrict(A.to_dd(x), c))
                    pv.append(x)
                phiv[(node, n)] = pv
                preds.setdefault(n, []).append(node)
                if n not in seen: seen.add(n); heapq.heappush(heap, (key(*n), n))
            if term.op == 'br':
                if len(term.a) == 1: edge(term.a[0], T)
                else:
                    c = self.op(('i', 1), term.a[0])
                    if c is U: c = F
                    edge(term.a[1], c); edge(term.a[2], dd_not(c))
            elif term.op == 'switch':
                v = self.op(term.ty, term.a[0]); rest = T
                for k_, lbl in term.a[2]:
                    c = self.icmp('eq', term.ty, v, self.op(term.ty, k_))
                    edge(lbl, dd_and(rest, c)); rest = dd_and(rest, dd_not(c))
                edge(term.a[1], rest)
        if not exits: raise Unsupported('no exit')
        if len(exits) == 1: st = exits[0][1]
        else:
            d = exits[0][0]
            for x, _ in exits[1:]: d = common(d, x)
            for x, _ in exits: edges[(x, '$exit')] = T
            st = self.merge([s for _, s in exits], conds(d, [x for x, _ in exits], '$exit'))
        self.res.mem = st
        return self.res

    def merge(self, states, cs):
        objs = set()
        for s in states: objs |= set(s)
        out = {}
        for o in objs:
            if any(o not in s for s in states) and o.kind == 'alloca':
                # allocated on one path only
                cand = [s[o] for s in states if o in s]; out[o] = dict(cand[0]); continue
            mems = [s.get(o, {}) for s in states]
            if all(m is mems[0] for m in mems): out[o] = dict(mems[0]); continue
            offs = set()
            for m in mems: offs |= set(m)
            r = {}
            for off in sorted(offs):
                szs = {m[off][0] for m in mems if off in m}
                if len(szs) != 1: raise Unsupported('cell sizes differ at a join')
                sz = szs.pop()
                vals = []
                for m in mems:
                    if off in m: vals.append(m[off][1])
                    else: vals.append(self.getp(m, o, off, sz) if o.kind == 'param' else U)
                v = vals[-1]
                for c, x in zip(cs[-2::-1], vals[-2::-1]):
                    if o.kind == 'param' and o.elem == 'f' and x is not v and x is not U and v is not U: v = gate(c, refine(real(x), c), refine(real(v), dd_not(c)))
                    else: v = gval(c, x, v)
                r[off] = (sz, v)
            out[o] = r
        return out

def schedule(entry, succ, fn):
    """loop structure of a CFG: (key, {header: body}); key(block, iterations) sorts the nodes of the unrolled graph topologically"""
    # depth-first search; a retreating edge must be a back edge of a natural loop
    order = []; state = {entry: 1}; retreat = []
    stack = [(entry, iter(succ[entry]))]
    while stack:
        b, it = stack[-1]
        for s in it:
            if state.get(s) == 1: retreat.append((b, s))
            elif s not in state: state[s] = 1; stack.append((s, iter(succ[s]))); break
        else:
            state[b] = 2; order.append(b); stack.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    if not retreat:
        return (lambda b, its: (rpo[b],)), {}
    preds = {b: [] for b in order}
    for b in order:
        for s in succ[b]: preds[s].append(b)
    dom = {b: None for b in order}; dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == entry: continue
            ds = [dom[p] for p in preds[b] if dom[p] is not None]
            n = set.intersection(*ds) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    back = {}
    for b, h in retreat:
        if h not in dom[b]: raise Unsupported('loop not resolved (irreducible %s)' % h)
        body = back.setdefault(h, {h}); work = [b]
        while work:
            x = work.pop()
            if x in body: continue
            body.add(x); work += preds[x]
    # order of items (blocks and whole loops) inside each loop and at the top
    def items(inside, head):
        inner = [h for h in back if h in inside and h != head and not any(g != h and g != head and g in inside and h in back[g] for g in back)]
        own = {}
        for b in inside:
            own[b] = next(('L', h) if b in back[h] else None for h in inner if b in back[h]) if any(b in back[h] for h in inner) else b
        its = sorted(set(own.values()), key=str)
        deps = {i: set() for i in its}
        for b in inside:
            for s in succ[b]:
                if s in inside and s != head and own[s] != own[b]: deps[own[s]].add(own[b])
        out = {}; left = dict(deps)
        while left:
            ready = [i for i in left if not (left[i] & set(left))]
            if not ready: raise Unsupported('loop not resolved (order)')
            r = min(ready, key=lambda i: rpo[i[1] if isinstance(i, tuple) else i])
            out[r] = len(out); del left[r]
        return own, out
    lev = {None: items(set(order), None)}
    for h in back: lev[h] = items(back[h], h)
    def key(b, its):
        k = []; cur = None
        for t in its:
            own, num = lev[cur]
            i = own[b]; k += [num[i], t]; cur = i[1]
        own, num = lev[cur]
        k.append(num[own[b]])
        return tuple(k)
    return key, back

def iters(back, key, b, its, s):
    """iteration numbers of s when reached from b at iterations its"""
    if not back: return ()
    nb = sorted((h for h in back if b in back[h]), key=lambda h: -len(back[h]))
    ns = sorted((h for h in back if s in back[h]), key=lambda h: -len(back[h]))
    out = []
    for h in ns:
        if h in nb and nb[:len(out) + 1] == ns[:len(out) + 1]:
            out.append(its[len(out)] + (1 if s == h else 0))
        else: out.append(0)
    return tuple(out)

def trip_bound(fn, h, body):
    """iterations of a counting loop (constant start, step and limit), or None"""
    defs = {i.res: i for b in fn.order for i in fn.blocks[b] if i.res}
    best = None
    for b in body:
        t = fn.blocks[b][-1]
        if t.op != 'br' or len(t.a) != 3: continue
        c = t.a[0]
        if not (isinstance(c, tuple) and c[0] == 'l' and c[1] in defs): continue
        c = defs[c[1]]
        if c.op != 'icmp': continue
        if c.ty == ('ptr',): best = 300      # an end pointer
        lim = [const_int(v) for v in c.a]
        for x, l in ((c.a[0], lim[1]), (c.a[1], lim[0])):
            if l is None or not (isinstance(x, tuple) and x[0] == 'l'): continue
            d = defs.get(x[1])
            if d is not None and d.op in ('add', 'sub'): d = next((defs.get(v[1]) for v in d.a if isinstance(v, tuple) and v[0] == 'l'), None)
            if d is None or d.op != 'phi': continue
            st = [const_int(v) for v, _ in d.a]
            st = [v for v in st if v is not None]
            if len(st) == 1:
                n = abs(l - st[0]); best = n if best is None else min(best, n)
    return best

def const_int(v):
    return v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == 'c' and isinstance(v[1], int) else None

def kb(x, w=8):
    if type(x) is bool: return K(1 if x else 0, w)
    return x
def _boolish(x): return isdd(x) and _isbool(x)

def kbin(op, a, b, w):
    x, y = a.v, b.v
    if op == 'add': return Kn(x + y, w)
    if op == 'sub': return Kn(x - y, w)
    if op == 'mul': return Kn(x * y, w)
    if op == 'and': return K(x & y, w)
    if op == 'or': return K(x | y, w)
    if op == 'xor': return K(x ^ y, w)
    if op == 'shl': return Kn(x << y, w)
    if op == 'lshr': return K(x >> y, w)
    if op == 'ashr': return Kn(sgn(a) >> y, w)
    if op == 'udiv' and y: return K(x // y, w)
    if op == 'urem' and y: return K(x % y, w)
    if op in ('sdiv', 'srem') and y:
        p, q = sgn(a), sgn(b)
        d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
        return Kn(d if op == 'sdiv' else p - d * q, w)
    raise Unsupported('constant ' + op)

BOUNDS = {}
def bound(p, depth=0):
    """a bound on the magnitude of a value made of constants, sines and cosines (None: there is none in reach)"""
    if depth > 24: return None
    k = id(p)
    if k in BOUNDS and BOUNDS[k][0] is p: return BOUNDS[k][1]
    r = 0
    for m, c in p.t.items():
        t = abs(c)
        for a, e in m:
            x = A.ATOMS[a]
            if x[0] in ('sin', 'cos'): u = 1
            elif x[0] == 'fn' and x[1] in ('~fadd', '~fsub', '~fmul') and len(x) == 4:
                u, v = bound(x[2], depth + 1), bound(x[3], depth + 1)
                u = None if u is None or v is None else u * v if x[1] == '~fmul' else u + v
            else: u = None
            if u is None or e < 0: r = None; break
            t = t * u ** e
        if r is None: break
        r += t
    if r is not None and r > 1 << 60: r = None
    BOUNDS[k] = (p, r)
    return r
def bounded_fn(p):
    """the value is finite whatever the inputs: nothing is lost when it is multiplied by zero"""
    return bound(p) is not None
def isnan(p):
    if is_const(p): return F
    p = A.canon_even(p)
    return A.node(A.pred('b', ('isnan', p)), (F, T))
def isinf(p):
    if is_const(p): return F
    if A.is_inf(p): return T
    return A.node(A.pred('b', ('isinf', A.canon_even(p))), (F, T))
def fpclass(p, m):
    r = F; rest = m
    if m & 3 == 3: r = dd_or(r, isnan(p)); rest &= ~3
    if m & 0x204 == 0x204: r = dd_or(r, isinf(p)); rest &= ~0x204
    if rest == 0x1f8: # finite
        q = dd_not(dd_or(isnan(p), isinf(p))); return dd_or(r, q)
    if rest == 0x60: return dd_or(r, cmp_dd('eq', p, ZERO))
    if rest: r = dd_or(r, A.node(A.pred('b', ('fpclass', rest, p)), (F, T)))
    return r

def run_wrapper(mod, inst, alias=None, values=None, names=None, sizes=True):
    """evaluate a wrapper; alias maps slot name -> slot name of the object it shares; values fixes scalars;
    names renames parameter objects so that two wrappers can share inputs"""
    alias = alias or {}; values = values or {}
    objs = {}; args = []
    for s in inst.slots:
        if s.kind == 'obj':
            tgt = alias.get(s.name, s.name)
            nm = (names or {}).get(tgt, tgt)
            o = objs.get(nm)
            if o is None:
                o = Obj(nm, s.elem, s.cells * 4, 'param'); objs[nm] = o
            else:
                o.size = max(o.size, s.cells * 4)
            args.append(Ptr(o, 0))
        else:
            nm = (names or {}).get(s.name, s.name)
            if s.name in values: args.append(values[s.name])
            elif s.elem == 'b': args.append(A.node(A.pred('b', ('in', nm)), (F, T)))
            else: args.append(var(atom('in', nm, None, s.elem)))
    e = Eval(mod, inst.wname, args, {})
    r = e.run()
    r.objs = objs
    return r

def cells(res, o, n, elem):
    """final value of the n cells of object o"""
    mem = res.mem.get(o, {})
    out = []
    for i in range(n):
        if 4 * i in mem:
            sz, v = mem[4 * i]
            if v is U: out.append(None); continue
            if isdd(v) and any(l is U for l in dd_leaves(v)): out.append(None); continue
            if elem in ('i', 'b', 'z'): out.append(integer(v))
            else: out.append(real(v))
        else:
            out.append(var(atom('in', o.name, i, o.elem)))
    return out
