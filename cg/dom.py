"""Domains of math functions: an interval analysis of the machine arithmetic itself (every operation rounds monotonically, so
end points may be rounded the same way), refined by the conditions that hold where a value is used.  A value is `nan` when some
square root, arc sine, arc cosine or logarithm below it may get an argument outside its domain there."""
import math, struct, itertools
from . import llir

INF = math.inf
def f32(x):
    if x != x: return x
    try: return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError: return math.copysign(INF, x)

DOM = {'sqrt': (0.0, INF), 'acos': (-1.0, 1.0), 'asin': (-1.0, 1.0), 'log': (0.0, INF), 'log2': (0.0, INF), 'log10': (0.0, INF), 'rsqrt': (0.0, INF)}
RANGE = {'acos': (0.0, 3.1416), 'asin': (-1.5708, 1.5708), 'atan': (-1.5708, 1.5708), 'atan2': (-3.1416, 3.1416), 'sin': (-1.0, 1.0), 'cos': (-1.0, 1.0), 'exp': (0.0, INF), 'exp2': (0.0, INF)}
ALL = (-INF, INF)

class Limit(Exception): pass

def fname(x):
    n = x[1:].strip('"')
    if n.startswith('llvm.'):
        p = n.split('.')
        return 'llvm', p[1], n
    if n in ('sqrtf', 'acosf', 'asinf', 'logf', 'log2f', 'log10f', 'powf', 'sinf', 'cosf', 'tanf', 'atanf', 'atan2f', 'expf', 'exp2f', 'fmodf', 'fabsf', 'fminf', 'fmaxf', 'floorf', 'ceilf', 'roundf', 'truncf', 'copysignf', 'hypotf', 'cbrtf', 'fmaf'):
        return 'libm', n[:-1], n
    if n in ('sqrt', 'acos', 'asin', 'log', 'pow', 'sin', 'cos', 'tan', 'atan', 'atan2', 'exp', 'fabs', 'fmin', 'fmax'): return 'libm', n, n
    return 'other', n, n

class Dom:
    def __init__(self, mod, fname, pre=None, budget=400000, assume=()):
        self.m = mod; self.f = llir.get(mod, fname)
        self.pre = pre or ALL
        self.ids = {}; self.nodes = []; self.where = {}
        self.defs = {}; self.blk = {}
        for b in self.f.order:
            for i in self.f.blocks[b]:
                if i.res: self.defs[i.res] = i; self.blk[i.res] = b
        self.preds = {b: [] for b in self.f.order}; self.succs = {}
        for b in self.f.order:
            t = self.f.blocks[b][-1]
            s = []
            if t.op == 'br': s = [t.a[0]] if len(t.a) == 1 else list(t.a[1:])
            elif t.op == 'switch': s = [t.a[1]] + [x for _, x in t.a[2]]
            self.succs[b] = s
            for x in s: self.preds[x].append(b)
        # assumed here: which way a join is entered {block: predecessor}, which arm a select takes {result: truth}
        self.assume = dict(assume)
        for x, p in self.assume.items():
            if x in self.preds:
                for q in set(self.preds[x]) - {p}: self.succs[q] = [y for y in self.succs[q] if y != x]
                self.preds[x] = [p]
        self.idom = self.dominators()
        for b in self.f.order: self.preds[b] = [p for p in self.preds[b] if p in self.num]
        self.bctx = {}; self.memo = {}; self.nbudget = budget; self.busy = set(); self.lane_memo = {}
        self.cmaps = {}; self.ops = 0; self.base = frozenset()
        self.base = frozenset((self.lane(self.defs[x].a[0], self.defs[x].x, 0), p) for x, p in self.assume.items() if x in self.defs and x in self.blk and self.defs[x].op == 'select')
    def dominators(self):
        order = []; seen = set(); entry = self.f.order[0]
        st = [(entry, iter(self.succs[entry]))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen: seen.add(x); st.append((x, iter(self.succs[x]))); break
            else: order.append(b); st.pop()
        order.reverse(); num = {b: i for i, b in enumerate(order)}
        self.rpo = order; self.num = num
        idom = {entry: entry}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                n = None
                for p in self.preds[b]:
                    if p in idom:
                        if n is None: n = p
                        else:
                            x, y = p, n
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            n = x
                if idom.get(b) != n: idom[b] = n; ch = True
        return idom
    # ---------------------------------------------------------- nodes
    def mk(self, *k):
        key = k if k[0] != 'c' else (k, repr(k[1]))      # 1, 1.0 and True, 0.0 and -0.0 are not the same
        n = self.ids.get(key)
        if n is None:
            n = self.ids[key] = len(self.nodes); self.nodes.append(k)
        return n
    def width(self, t):
        """number of 32-bit lanes"""
        if t[0] == 'v': return max(1, t[1] * self.width1(t[2])) if t[2] != ('i', 1) else t[1]
        return self.width1(t)
    def width1(self, t):
        return max(1, self.m.size(t) // 4) if t[0] in 'fi' else 1
    def lane(self, v, t, k):
        """node of 32-bit lane k of an operand of type t"""
        if v[0] == 'c':
            if t[0] == 'f': return self.mk('c', float(v[1]))
            return self.mk('c', v[1])
        if v[0] == 'z': return self.mk('c', 0.0)
        if v[0] == 'u': return self.mk('undef')
        if v[0] == 'agg':
            et = v[1][0][0]; w = self.width1(et)
            return self.lane(v[1][k // w][1], et, k % w)
        name = v[1] if v[0] in ('l', 'v', 'r') else None
        if name is None: return self.mk('?', repr(v), k)
        if name not in self.defs: return self.mk('arg', name, k)
        key = (name, k)
        r = self.lane_memo.get(key)
        if r is None:
            self.lane_memo[key] = self.mk('rec', name, k)
            r = self.lane_memo[key] = self.build(self.defs[name], t, k)
        return r
    def const_mask(self, i):
        mv, mt = i.a[2], i.x
        if mv[0] == 'z': return [0] * mt[1]
        if mv[0] != 'agg': return None
        return [None if x[0] == 'u' else x[1] if x[0] == 'c' else 0 for _, x in mv[1]]
    def build(self, i, t, k):
        op = i.op
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'frem', 'srem'):
            if op in ('add', 'sub', 'mul', 'shl', 'ashr', 'lshr', 'sdiv', 'srem') and self.elem(t) not in (('i', 32), ('i', 64)): return self.mk('op', i.res, k)
            a, b = self.lane(i.a[0], t, k), self.lane(i.a[1], t, k)
            return self.bin(op, a, b, i.res)
        if op == 'fneg': return self.neg(self.lane(i.a[0], t, k))
        if op == 'freeze': return self.lane(i.a[0], t, k)
        if op == 'bitcast':
            return self.lane(i.a[0], i.x, k)
        if op == 'phi':
            a = self.arms(i)
            if len(a) == 1: return self.lane(a[0][0], t, k)
            return self.mk('phi', i.res, k)
        if op == 'select':
            if i.res in self.assume: return self.lane(i.a[1] if self.assume[i.res] else i.a[2], t, k)
            ct = i.x
            c = self.lane(i.a[0], ct, k if ct[0] == 'v' and self.width1(t[2] if t[0] == 'v' else t) == 1 else 0) if not (ct[0] == 'v' and t[0] != 'v') else self.mk('?', i.res, k)
            return self.sel(c, self.lane(i.a[1], t, k), self.lane(i.a[2], t, k))
        if op == 'icmp' and i.ty[0] == 'i':
            x, y = self.intconst(i.a[0]), self.intconst(i.a[1])
            if x is not None and y is not None and min(x, y) >= 0: return self.mk('c', {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[i.x.lstrip('us') if i.x not in ('eq', 'ne') else i.x])
        if op in ('fcmp', 'icmp'): return self.mk(op, i.x, self.lane(i.a[0], i.ty, k), self.lane(i.a[1], i.ty, k))
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptosi', 'fptoui'):
            st = i.x
            if st[0] == 'v' and self.width1(st[2]) != self.width1(t[2]): return self.mk('op', i.res, k)
            return self.mk(op, self.lane(i.a[0], st, k if st[0] == 'v' else 0))
        if op == 'extractelement':
            vt = i.ty; ix = i.a[1]
            if ix[0] != 'c': return self.mk('op', i.res, k)
            w = self.width1(vt[2]) if vt[2] != ('i', 1) else 1
            return self.lane(i.a[0], vt, ix[1] * w + k)
        if op == 'insertelement':
            vt = i.ty; ix = i.a[2]
            if ix[0] != 'c': return self.mk('op', i.res, k)
            w = self.width1(vt[2]) if vt[2] != ('i', 1) else 1
            return self.lane(i.a[1], i.x, k % w) if k // w == ix[1] else self.lane(i.a[0], vt, k)
        if op == 'shufflevector':
            mask = self.const_mask(i); vt = i.ty; w = self.width1(vt[2]) if vt[2] != ('i', 1) else 1
            if mask is None: return self.mk('op', i.res, k)
            j = mask[k // w]
            if j is None: return self.mk('undef')
            return self.lane(i.a[0], vt, j * w + k % w) if j < vt[1] else self.lane(i.a[1], vt, (j - vt[1]) * w + k % w)
        if op == 'load':
            r = self.place(i.a[0])
            if r and self.clean(r[0], i): return self.mk('ld', r[0], r[1] + 4 * k)
            return self.mk('ldx', i.res, k)
        if op == 'call': return self.call(i, t, k)
        return self.mk('op', i.res, k)
    def place(self, v):
        """(parameter, constant byte offset) an address denotes"""
        off = 0
        for _ in range(64):
            if v[0] != 'l': return None
            d = self.defs.get(v[1])
            if d is None: return v[1], off
            if d.op in ('phi', 'select'):
                v = self.arm(d)
                if v is None: return None
                continue
            if d.op == 'alloca': return v[1], off
            if d.op != 'getelementptr': return None
            t = d.x
            for j, (it, iv) in enumerate(d.a[1:]):
                c = self.intconst(iv)
                if c is None: return None
                if j == 0: off += c * self.m.size(t)
                elif t[0] in ('s', 'n'): o, t = self.m.field_off(t, c); off += o
                else: t = t[2]; off += c * self.m.size(t)
            v = d.a[0][1]
    def arms(self, i):
        p = self.preds[self.blk[i.res]]
        return [(v, b) for v, b in i.a if b in p]
    def arm(self, d):
        if d.op == 'phi':
            a = self.arms(d)
            return a[0][0] if len(a) == 1 else None
        if d.res in self.assume: return d.a[1] if self.assume[d.res] else d.a[2]
        return None
    def intconst(self, v, depth=0):
        if v[0] == 'c': return v[1] if not isinstance(v[1], float) else None
        if v[0] == 'z': return 0
        if v[0] != 'l' or depth > 20: return None
        d = self.defs.get(v[1])
        if d is None: return None
        if d.op in ('phi', 'select'):
            a = self.arm(d)
            return None if a is None else self.intconst(a, depth + 1)
        if d.op in ('sext', 'zext', 'trunc', 'freeze'): return self.intconst(d.a[0], depth + 1)
        if d.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            x, y = self.intconst(d.a[0], depth + 1), self.intconst(d.a[1], depth + 1)
            if x is None or y is None: return None
            return {'add': x + y, 'sub': x - y, 'mul': x * y, 'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': x << max(0, min(y, 62))}[d.op]
        return None
    def choices(self):
        """joins and selects that decide an address: [[(block or result, choice) ...] ...]"""
        out = {}; seen = set()
        def walk(v):
            if v[0] != 'l' or v[1] in seen: return
            seen.add(v[1]); d = self.defs.get(v[1])
            if d is None: return
            if d.op == 'phi':
                b = self.blk[d.res]
                if b in self.num and all(p in self.num and self.num[p] < self.num[b] for p in self.preds[b]): out[b] = [(b, p) for p in dict.fromkeys(self.preds[b])]
                for x, _ in d.a: walk(x)
            elif d.op == 'select' and d.x[0] != 'v':
                out[d.res] = [(d.res, True), (d.res, False)]
                walk(d.a[1]); walk(d.a[2])
            elif d.op == 'getelementptr':
                for _, x in d.a: walk(x)
            elif d.op in ('sext', 'zext', 'trunc', 'freeze'): walk(d.a[0])
            elif d.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'): walk(d.a[0]); walk(d.a[1])
        for b in self.rpo:
            for i in self.f.blocks[b]:
                if i.op == 'load': walk(i.a[0])
        return list(out.values())
    def opaque(self, n):
        """a part of the value that is not modelled at all"""
        seen = set(); st = [n]
        while st:
            a = st.pop()
            if a in seen: continue
            seen.add(a); k = self.nodes[a]
            if k[0] in ('op', '?', 'rec', 'ldx'): return k
            if k[0] in ('c', 'arg', 'ld', 'undef'): continue
            if k[0] == 'phi':
                i = self.defs[k[1]]; st += [self.lane(v, i.ty, k[2]) for v, _ in self.arms(i)]
            elif k[0] in ('fcmp', 'icmp'): st += k[2:]
            else: st += [x for x in k[1:] if isinstance(x, int)]
        return None
    def clean(self, root, at):
        """nothing can have been stored to the object before this load"""
        if root not in self.written(): return True
        key = (root, at.res); r = self.cl.get(key)
        if r is not None: return r
        b0 = self.blk[at.res]; seen = set(); st = list(self.preds[b0]); bad = False
        ws = self.writers[root]
        for i in self.f.blocks[b0]:
            if i is at: break
            if id(i) in ws: bad = True
        while st and not bad:
            b = st.pop()
            if b in seen: continue
            seen.add(b); st += self.preds[b]
            if any(id(i) in ws for i in self.f.blocks[b]): bad = True
        self.cl[key] = not bad
        return not bad
    cl = {}
    def written(self):
        """parameters the function may write to (given separate objects)"""
        if self._wr is None:
            w = set(); roots = {}; self.writers = {}; self.cl = {}
            def mark(s, i):
                for x in s: w.add(x); self.writers.setdefault(x, set()).add(id(i))
            def root(v):
                d = self.defs.get(v[1]) if v[0] == 'l' else None
                if v[0] != 'l': return {v[1]} if len(v) > 1 and isinstance(v[1], str) else set()
                if v[1] in roots: return roots[v[1]]
                roots[v[1]] = set()
                if d is None or d.op == 'alloca': r = {v[1]}
                elif d.op == 'getelementptr': r = root(d.a[0][1])
                elif d.op == 'phi': r = set().union(*[root(x) for x, _ in d.a])
                elif d.op == 'select': r = root(d.a[1]) | root(d.a[2])
                else: r = {a[1] for a in self.f.args}
                roots[v[1]] = r
                return r
            for b in self.f.order:
                for i in self.f.blocks[b]:
                    if i.op == 'store': mark(root(i.a[1]), i)
                    elif i.op == 'call':
                        for t, v in i.a:
                            if t == ('ptr',): mark(root(v), i)
            self._wr = w
        return self._wr
    _wr = None
    def elem(self, t): return t[2] if t[0] == 'v' else t
    def neg(self, a):
        k = self.nodes[a]
        if k[0] == 'neg': return k[1]
        if k[0] == 'c': return self.mk('c', -k[1])
        return self.mk('neg', a)
    def sel(self, c, a, b): return a if a == b else self.mk('sel', c, a, b)
    def bin(self, op, a, b, res):
        x, y = self.nodes[a], self.nodes[b]
        if op == 'fsub' and x[0] == 'c' and x[1] == 0: return self.neg(b)
        if op == 'fmul':
            for p, q in ((x, b), (y, a)):
                if p[0] == 'c' and p[1] == -1.0: return self.neg(q)
            # the sign of a product is taken out
            s = 0
            if x[0] == 'neg': a = x[1]; s ^= 1
            if y[0] == 'neg': b = y[1]; s ^= 1
            r = self.mk('fmul', *sorted((a, b)))
            return self.neg(r) if s else r
        if op == 'fdiv':
            s = 0
            if x[0] == 'neg': a = x[1]; s ^= 1
            if y[0] == 'neg': b = y[1]; s ^= 1
            r = self.mk('fdiv', a, b)
            return self.neg(r) if s else r
        if op == 'and':
            for p, q in ((x, b), (y, a)):
                if p[0] == 'c' and p[1] in (0x7fffffff,): return self.mk('abs', q)
        if op == 'xor':
            for p, q in ((x, b), (y, a)):
                if p[0] == 'c' and p[1] in (-0x80000000, 0x80000000) or p[0] == 'c' and p[1] == 0.0 and isinstance(p[1], float) and math.copysign(1, p[1]) < 0: return self.neg(q)
                if p[0] == 'c' and p[1] in (1, -1, True) and not isinstance(p[1], float): return self.mk('not', q)
        if op in ('fadd', 'add', 'mul', 'and', 'or', 'xor') : a, b = sorted((a, b))
        return self.mk(op, a, b)
    def call(self, i, t, k):
        kind, n, full = fname(i.x)
        A = lambda j, kk=None: self.lane(i.a[j][1], i.a[j][0], k if kk is None else kk)
        def fn(n, *a):
            r = self.mk(n, *a); self.where.setdefault(r, i); return r
        if kind == 'llvm':
            if n in ('sqrt',): return fn('sqrt', A(0))
            if n == 'fabs': return self.mk('abs', A(0))
            if n in ('minnum', 'minimum'): return self.mk('min', *sorted((A(0), A(1))))
            if n in ('maxnum', 'maximum'): return self.mk('max', *sorted((A(0), A(1))))
            if n in ('smin',): return self.mk('min', *sorted((A(0), A(1))))
            if n in ('smax',): return self.mk('max', *sorted((A(0), A(1))))
            if n == 'abs': return self.mk('abs', A(0))
            if n in ('fmuladd', 'fma'): return self.mk('fadd', *sorted((self.bin('fmul', A(0), A(1), None), A(2))))
            if n in ('sin', 'cos', 'exp', 'exp2'): return fn(n, A(0))
            if n == 'pow': return fn('pow', A(0), A(1))
            if n == 'log': return fn('log', A(0))
            if n in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'): return fn(n, A(0))
            if n == 'copysign': return self.mk('copysign', A(0), A(1))
            if n == 'vector' and '.reduce.fadd' in full:
                vt = i.a[1][0]; r = self.lane(i.a[0][1], i.a[0][0], 0)
                for j in range(vt[1]): r = self.bin('fadd', r, self.lane(i.a[1][1], vt, j), None)
                return r
            if full == 'llvm.x86.sse41.dpps':
                m = i.a[2][1][1] & 255
                if not m >> (k & 3) & 1: return self.mk('c', 0.0)
                r = None
                for j in range(4):
                    if m >> (4 + j) & 1:
                        p = self.bin('fmul', A(0, j), A(1, j), None); r = p if r is None else self.bin('fadd', r, p, None)
                return r if r is not None else self.mk('c', 0.0)
            if full == 'llvm.x86.sse3.hadd.ps':
                s = 0 if k < 2 else 1; j = 2 * (k % 2)
                return self.bin('fadd', A(s, j), A(s, j + 1), None)
            if full in ('llvm.x86.sse.min.ps', 'llvm.x86.sse.max.ps'): return self.mk(full.split('.')[3], *sorted((A(0), A(1))))
            if full in ('llvm.x86.sse.min.ss', 'llvm.x86.sse.max.ss'): return A(0) if k else self.mk(full.split('.')[3], *sorted((A(0), A(1))))
            if full == 'llvm.x86.sse.rsqrt.ps': return fn('rsqrt', A(0))
            if full == 'llvm.x86.sse.rsqrt.ss': return A(0) if k else fn('rsqrt', A(0))
            if full.startswith('llvm.aarch64.neon.faddv'):
                vt = i.a[0][0]; r = self.lane(i.a[0][1], vt, 0)
                for j in range(1, vt[1]): r = self.bin('fadd', r, self.lane(i.a[0][1], vt, j), None)
                return r
            if full.startswith(('llvm.aarch64.neon.faddp', 'llvm.arm.neon.vpadd')):
                vt = i.a[0][0]; h = vt[1] // 2; s, j = (0, 2 * k) if k < h else (1, 2 * (k - h))
                return self.bin('fadd', A(s, j), A(s, j + 1), None)
            if full.startswith(('llvm.aarch64.neon.fmin.', 'llvm.arm.neon.vmins')): return self.mk('min', *sorted((A(0), A(1))))
            if full.startswith(('llvm.aarch64.neon.fmax.', 'llvm.arm.neon.vmaxs')): return self.mk('max', *sorted((A(0), A(1))))
            if 'frsqrte' in full or 'vrsqrte' in full: return fn('rsqrt', A(0))
            return self.mk('op', i.res, k)
        if kind == 'libm':
            if n == 'fabs': return self.mk('abs', A(0, 0))
            if n in ('fmin', 'fmax'): return self.mk(n[1:], *sorted((A(0, 0), A(1, 0))))
            if n == 'fma': return self.mk('fadd', *sorted((self.bin('fmul', A(0, 0), A(1, 0), None), A(2, 0))))
            return fn(n, *[A(j, 0) for j in range(len(i.a))])
        return self.mk('op', i.res, k)
    # ---------------------------------------------------------- conditions
    def edge(self, a, b):
        """[(condition node, truth)] of an edge"""
        t = self.f.blocks[a][-1]
        if t.op == 'br' and len(t.a) == 3 and t.a[1] != t.a[2]:
            return [(self.lane(t.a[0], ('i', 1), 0), t.a[1] == b)]
        if t.op == 'switch':
            kc = self.intconst(t.a[0])
            if kc is not None:
                to = next((x for c, x in t.a[2] if (c[1] if isinstance(c, tuple) else c) == kc), t.a[1])
                return [] if to == b else [(self.mk('c', False), True)]
            v = self.lane(t.a[0], ('i', 32), 0); cs = [(c[1] if isinstance(c, tuple) else c, x) for c, x in t.a[2]]; to = [c for c, x in cs if x == b]
            if t.a[1] == b: return [(self.mk('icmp', 'eq', v, self.mk('c', c)), False) for c, x in cs if x != b]
            if len(to) == 1: return [(self.mk('icmp', 'eq', v, self.mk('c', to[0])), True)]
        return []
    def ctx_of(self, b):
        r = self.bctx.get(b)
        if r is None:
            out = set(self.base); x = b
            while self.idom.get(x, x) != x:
                p = self.preds[x]
                if len(p) == 1: out.update(self.edge(p[0], x))
                elif len(p) <= 4 and all(self.num[q] < self.num[x] for q in p):
                    # reached in one of several ways: a case split, used where it decides
                    base = self.ctx_of(self.idom[x])
                    alts = tuple(frozenset((self.ctx_of(q) | frozenset(self.edge(q, x))) - base) for q in p)
                    if all(alts): out.add(('or', alts))
                x = self.idom[x]
            r = self.bctx[b] = frozenset(out)
        return r
    NEGP = {'olt': 'oge', 'ole': 'ogt', 'ogt': 'ole', 'oge': 'olt', 'oeq': 'one', 'one': 'oeq', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt', 'ueq': 'one', 'une': 'oeq',
            'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt', 'eq': 'ne', 'ne': 'eq'}
    def facts(self, ctx):
        """({node: (lo, hi)}, [linear facts (a, b): a >= b], feasible)"""
        r = self.cmaps.get(ctx)
        if r is not None: return r
        m = {}; lin = []; todo = list(ctx); ok = True
        def put(n, lo, hi):
            k = self.nodes[n]
            if k[0] == 'neg': put(k[1], -hi, -lo); return
            a, b = m.get(n, ALL); m[n] = (max(a, lo), min(b, hi))
            if k[0] == 'abs' and hi >= 0: put(k[1], -hi, hi)
            if k[0] in ('fpext', 'sitofp', 'zext', 'sext'): put(k[1], lo, hi)
            if k[0] == 'max': put(k[1], -INF, hi); put(k[2], -INF, hi)
            if k[0] == 'min': put(k[1], lo, INF); put(k[2], lo, INF)
        while todo:
            c, pol = todo.pop()
            if c == 'or': continue
            k = self.nodes[c]
            if k[0] == 'not': todo.append((k[1], not pol)); continue
            if k[0] == 'c':
                if bool(k[1]) != pol: ok = False
                continue
            if k[0] == 'and' and pol or k[0] == 'or' and not pol: todo += [(k[1], pol), (k[2], pol)]; continue
            if k[0] == 'sel':
                f = self.nodes[k[3]]; t = self.nodes[k[2]]
                if f[0] == 'c' and not f[1] and pol: todo += [(k[1], True), (k[2], True)]
                if t[0] == 'c' and t[1] and not pol: todo += [(k[1], False), (k[3], False)]
                continue
            if k[0] in ('trunc', 'zext', 'sext'): todo.append((k[1], pol)); continue
            if k[0] == 'phi':
                # a condition assembled by short-circuit evaluation: the arms with the other constant are out
                i = self.defs[k[1]]
                arms = [(v, b) for v, b in self.arms(i) if not (v[0] == 'c' and bool(v[1]) != pol)]
                if i.ty == ('i', 1) and len(arms) == 1 and len(i.a) > 1:
                    v, b = arms[0]
                    if v[0] != 'c': todo.append((self.lane(v, i.ty, 0), pol))
                    todo += [x for x in list(self.ctx_of(b)) + self.edge(b, self.blk[k[1]]) if x != (c, pol)]
                continue
            if k[0] == 'icmp' and k[1] in ('eq', 'ne'):
                b = self.nodes[k[3]]; a = self.nodes[k[2]]
                if b[0] == 'c' and b[1] == 0 and a[0] in ('fcmp', 'icmp', 'and', 'or', 'not', 'sel', 'zext'): todo.append((k[2], pol == (k[1] == 'ne'))); continue
            if k[0] in ('fcmp', 'icmp'):
                p = k[1] if pol else self.NEGP.get(k[1])
                if p is None: continue
                p = p[1:] if p[0] in 'ous' and p not in ('one',) or p == 'one' else p
                a, b = k[2], k[3]
                if p in ('ord', 'rd', 'no'): continue
                if p in ('gt', 'ge'): lo, hi = a, b
                elif p in ('lt', 'le'): lo, hi = b, a      # lo >= hi
                elif p == 'eq': lo = hi = None
                else: continue
                for x, y, q in ((a, b, p), (b, a, {'gt': 'lt', 'ge': 'le', 'lt': 'gt', 'le': 'ge'}.get(p, p))):
                    ck = self.nodes[y]
                    if ck[0] == 'c' and isinstance(ck[1], (int, float)):
                        v = float(ck[1])
                        if q in ('gt', 'ge'): put(x, v if q == 'ge' else math.nextafter(v, INF), INF)
                        elif q in ('lt', 'le'): put(x, -INF, v if q == 'le' else math.nextafter(v, -INF))
                        else: put(x, v, v)
                if lo is not None: lin.append((lo, hi))
                else: lin += [(a, b), (b, a)]
        if any(a > b for a, b in m.values()): ok = False
        if ok:
            ds = [d for d in ctx if self.split(d)]
            base = ctx - frozenset(ds)
            # a disjunction none of whose cases can hold
            if ds and (base != ctx): ok = all(any(self.facts(base | f)[2] for f in self.split(d)) for d in ds)
        r = self.cmaps[ctx] = (m, lin, ok)
        return r
    # ---------------------------------------------------------- values
    def ev(self, n, ctx):
        """(lo, hi, where a domain may be left or None); None when this place cannot be reached"""
        key = (n, ctx)
        r = self.memo.get(key, 0)
        if r != 0: return r
        self.ops += 1
        if self.ops > self.nbudget: raise Limit()
        m, lin, ok = self.facts(ctx)
        if not ok:
            self.memo[key] = None; return None
        if key in self.busy: return (-INF, INF, None)
        self.busy.add(key)
        r = self.ev1(n, ctx)
        self.busy.discard(key)
        if r is not None and n in m:
            lo, hi = max(r[0], m[n][0]), min(r[1], m[n][1])
            r = (lo, hi, r[2]) if lo <= hi else None
        self.memo[key] = r
        return r
    def ev1(self, n, ctx):
        k = self.nodes[n]; o = k[0]
        if o == 'c':
            v = float(k[1]); return (v, v, None)
        if o in ('arg', 'ld'): return (self.pre[0], self.pre[1], None)
        if o in ('op', '?', 'undef', 'rec', 'ldx'): return (-INF, INF, None)
        if o == 'phi':
            i = self.defs[k[1]]; out = None; b = self.blk[k[1]]
            for v, p in self.arms(i):
                c = ctx | self.ctx_of(p) | frozenset(self.edge(p, b))
                x = self.ev(self.lane(v, i.ty, k[2]), c) if self.facts(c)[2] else None
                out = self.join(out, x)
            return out
        if o == 'sel':
            out = None
            cn = self.ev(k[1], ctx)
            for pol, a in ((True, k[2]), (False, k[3])):
                c = ctx | frozenset([(k[1], pol)])
                if not self.facts(c)[2]: continue
                out = self.join(out, self.ev(a, c))
            if out is not None and cn is not None and cn[2]: out = (out[0], out[1], out[2] or cn[2])
            return out
        xs = [self.ev(a, ctx) for a in (k[2:] if o in ('fcmp', 'icmp') else k[1:])]
        if any(x is None for x in xs): return None
        bad = next((x[2] for x in xs if x[2]), None)
        if o in ('fcmp', 'icmp', 'not'): return (0.0, 1.0, bad)
        if o in DOM:
            lo, hi = DOM[o]
            if not self.within(k[1], xs[0], lo, hi, ctx): bad = bad or (n, xs[0][:2])
            if o == 'sqrt': return (f32(math.sqrt(max(0.0, xs[0][0]))), f32(math.sqrt(xs[0][1])) if xs[0][1] > 0 else 0.0, bad)
            if o in ('acos', 'asin') and xs[0][1] >= -1 and xs[0][0] <= 1:
                a, b = max(-1.0, xs[0][0]), min(1.0, xs[0][1])
                return (math.acos(b), math.acos(a), bad) if o == 'acos' else (math.asin(a), math.asin(b), bad)
            return (*RANGE.get(o, ALL), bad)
        if o == 'pow':
            if xs[0][0] < 0: bad = bad or (n, xs[0][:2])
            return (0.0, INF, bad) if xs[0][0] >= 0 else (-INF, INF, bad)
        if o in RANGE: return (*RANGE[o], bad)
        lo, hi = self.arith(o, k, [x[:2] for x in xs])
        p, q = (k[1], k[2]) if o in ('fsub', 'sub') else (None, None)
        if o == 'fadd':
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if self.nodes[y][0] == 'neg': p, q = x, self.nodes[y][1]
        if p is not None:
            # the sign of a difference is that of the comparison, rounded or not
            if lo < 0 and self.geq(p, q, ctx): lo, hi = 0.0, max(hi, 0.0)
            if hi > 0 and self.geq(q, p, ctx): lo, hi = min(lo, 0.0), 0.0
        return (lo, hi, bad)
    def geq(self, p, q, ctx):
        lin = self.facts(ctx)[1]; seen = {p}; st = [p]
        while st:
            x = st.pop()
            for a, b in lin:
                if a == x and b not in seen:
                    if b == q: return True
                    seen.add(b); st.append(b)
        return False
    def within(self, a, x, lo, hi, ctx, depth=0):
        if x is None or x[0] >= lo and x[1] <= hi: return True
        if lo == 0 and hi == INF and self.linpos(a, ctx): return True
        if depth < 3:
            for d in ctx:
                alts = self.split(d)
                if not alts: continue
                rest = ctx - {d}
                def case(f):
                    c = rest | f
                    return not self.facts(c)[2] or self.within(a, self.ev(a, c), lo, hi, c, depth + 1)
                if all(case(f) for f in alts): return True
        return False
    def split(self, d):
        """the cases a disjunctive condition stands for"""
        if d[0] == 'or': return d[1]
        k = self.nodes[d[0]]; pol = d[1]
        if k[0] == 'not': return self.split((k[1], not pol))
        if k[0] == 'and' and not pol: return [frozenset([(k[1], False)]), frozenset([(k[1], True), (k[2], False)])]
        if k[0] == 'or' and pol: return [frozenset([(k[1], True)]), frozenset([(k[1], False), (k[2], True)])]
        if k[0] == 'sel': return [frozenset([(k[1], True), (k[2], pol)]), frozenset([(k[1], False), (k[3], pol)])]
        return None
    @staticmethod
    def join(a, b):
        if a is None: return b
        if b is None: return a
        return (min(a[0], b[0]), max(a[1], b[1]), a[2] or b[2])
    def arith(self, o, k, xs):
        def mul(a, b): return 0.0 if a == 0 or b == 0 else a * b
        def q(x): return f32(x)
        if o == 'neg': return -xs[0][1], -xs[0][0]
        if o == 'abs':
            a, b = xs[0]
            return (a, b) if a >= 0 else (-b, -a) if b <= 0 else (0.0, max(-a, b))
        if o in ('fadd', 'add'):
            lo, hi = xs[0][0] + xs[1][0], xs[0][1] + xs[1][1]
            return (-INF if lo != lo else q(lo)), (INF if hi != hi else q(hi))
        if o in ('fsub', 'sub'):
            if k[1] == k[2]: return 0.0, 0.0
            lo, hi = xs[0][0] - xs[1][1], xs[0][1] - xs[1][0]
            return (-INF if lo != lo else q(lo)), (INF if hi != hi else q(hi))
        if o in ('fmul', 'mul'):
            if k[1] == k[2]:
                a, b = abs(xs[0][0]), abs(xs[0][1])
                return (0.0 if xs[0][0] <= 0 <= xs[0][1] else q(min(a, b) ** 2)), q(mul(max(a, b), max(a, b)))
            ps = [mul(a, b) for a in xs[0] for b in xs[1]]
            return q(min(ps)), q(max(ps))
        if o == 'fdiv':
            if xs[1][0] > 0 or xs[1][1] < 0:
                ps = [0.0 if abs(b) == INF else a / b for a in xs[0] for b in xs[1]]
                if not any(p != p for p in ps): return q(min(ps)), q(max(ps))
            if k[1] == k[2]: return 1.0, 1.0
            # signs are kept even where the magnitude is unbounded
            if xs[0][0] >= 0 and xs[1][0] >= 0: return 0.0, INF
            return ALL
        if o == 'min': return min(xs[0][0], xs[1][0]), min(xs[0][1], xs[1][1])
        if o == 'max': return max(xs[0][0], xs[1][0]), max(xs[0][1], xs[1][1])
        if o in ('sitofp', 'fpext', 'fptrunc', 'sext'): return q(xs[0][0]), q(xs[0][1])
        if o == 'uitofp': return (0.0, INF)
        if o == 'zext': return (0.0, 1.0) if self.nodes[k[1]][0] in ('fcmp', 'icmp') else ALL
        if o in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint'):
            lo, hi = xs[0]
            return (math.floor(lo) if abs(lo) != INF else lo), (math.ceil(hi) if abs(hi) != INF else hi)
        return ALL
    # linear relations between the values compared on the way here (as real numbers, with a margin well above their rounding)
    def linform(self, n, depth=0):
        k = self.nodes[n]; o = k[0]
        if o == 'c': return {None: float(k[1])} if k[1] else {}
        if depth < 12:
            if o == 'neg': return {a: -c for a, c in self.linform(k[1], depth + 1).items()}
            if o in ('fadd', 'fsub'):
                r = dict(self.linform(k[1], depth + 1))
                for a, c in self.linform(k[2], depth + 1).items(): r[a] = r.get(a, 0.0) + (c if o == 'fadd' else -c)
                return {a: c for a, c in r.items() if c}
            if o == 'fmul':
                for x, y in ((k[1], k[2]), (k[2], k[1])):
                    if self.nodes[x][0] == 'c': return {a: c * self.nodes[x][1] for a, c in self.linform(y, depth + 1).items()}
        return {n: 1.0}
    def linpos(self, n, ctx):
        """the value is at least 1/2 by a combination of at most four of the comparisons that hold here"""
        want = self.linform(n)
        fs = []
        for a, b in self.facts(ctx)[1]:
            f = dict(self.linform(a))
            for x, c in self.linform(b).items(): f[x] = f.get(x, 0.0) - c
            if any(x in want for x in f if x is not None): fs.append(f)
        ats = sorted({x for f in fs + [want] for x in f if x is not None})
        w = [want.get(x, 0.0) for x in ats] + [want.get(None, 0.0)]
        V = [[f.get(x, 0.0) for x in ats] + [f.get(None, 0.0)] for f in fs[:8]]
        C = (1 / 3, 0.5, 2 / 3, 1.0, 4 / 3, 2.0)
        for r in range(0, min(4, len(V)) + 1):
            for sub in itertools.combinations(V, r):
                for co in itertools.product(C, repeat=r):
                    if all(abs(w[j] - sum(c * v[j] for c, v in zip(co, sub))) < 1e-9 for j in range(len(ats))) and w[-1] - sum(c * v[-1] for c, v in zip(co, sub)) >= 0.5: return True
        return False

    def check(self):
        """(places where a domain may be left and the result is used, number of domain-limited calls)"""
        out = {}
        def look(n, b, what):
            r = self.ev(n, self.ctx_of(b))
            if r is not None and r[2]: out.setdefault(r[2][0], (r[2][1], what))
        for b in self.rpo:
            if not self.facts(self.ctx_of(b))[2]: continue
            for i in self.f.blocks[b]:
                if i.op == 'store' and i.a[0][0][0] != 'ptr' if False else i.op == 'store':
                    t = self.m_type(i)
                    if t is None: continue
                    for k in range(self.width(t)): look(self.lane(i.a[0], t, k), b, 'stored')
                elif i.op == 'br' and len(i.a) == 3: look(self.lane(i.a[0], ('i', 1), 0), b, 'decides a branch')
                elif i.op == 'call' and i.x != 'asm' and fname(i.x)[0] != 'other':
                    t = i.ty
                    if t[0] in 'fv':
                        for k in range(self.width(t)): self.lane(('l', i.res), t, k)
        n = sum(1 for k in self.nodes if k[0] in DOM or k[0] == 'pow')
        for a, k in enumerate(list(self.nodes)):
            if k[0] in ('acos', 'asin') and a not in out: self.ends(a, k[1], out)
        return out, n
    def ends(self, a, x, out):
        """an argument that rounding takes past an end of the domain gives what the end gives"""
        for end in (1.0, -1.0):
            at = frozenset([(self.mk('fcmp', 'oeq', x, self.mk('c', end)), True)])
            past = frozenset([(self.mk('fcmp', 'oge' if end > 0 else 'ole', x, self.mk('c', end * 1.001)), True)])
            if self.ev(x, at) is None or self.ev(x, past) is None: continue
            for b in self.rpo:
                for i in self.f.blocks[b]:
                    if i.op != 'store' or self.m_type(i) is None: continue
                    for k in range(self.width(i.ty)):
                        n = self.lane(i.a[0], i.ty, k)
                        p = self.ev(n, self.ctx_of(b) | at); q = self.ev(n, self.ctx_of(b) | past)
                        if p is None or q is None: continue
                        if q[0] > p[1] + 1e-4 or q[1] < p[0] - 1e-4:
                            out.setdefault(a, ('jump', 'just past %g the result is in [%g, %g] instead of [%g, %g]' % (end, q[0], q[1], p[0], p[1])))
    def m_type(self, i):
        return i.ty if i.ty and i.ty[0] in ('f', 'i', 'v') else None

def look(mod, fname, pre=None):
    """([(function, interval or 'jump', use, instruction, not modelled) ...], number of calls); joins that decide an address are taken one way at a time where that is needed"""
    def once(D):
        res, n = D.check()
        return [(D.nodes[k][0], iv, what, D.where.get(k), D.opaque(k)) for k, (iv, what) in res.items()], n
    D = Dom(mod, fname, pre); r, n = once(D)
    if not any(x[4] for x in r): return r, n
    ch = D.choices(); m = 1
    for c in ch: m *= len(c)
    if not ch or m > 64: return r, n
    out = []
    for combo in itertools.product(*ch):
        try: D = Dom(mod, fname, pre, assume=combo)
        except KeyError: continue      # no way in
        out += once(D)[0]
    return out, n
