"""Text output as a value: the calls of the formatted-output functions a print function makes are folded into one token sequence
(characters, conversions of values, choices), so that what reaches the stream can be compared however it is split into calls."""
import re, math, random
from fractions import Fraction
from . import ev, alg as A, llir, witness
from .ev import K, Ptr, U, Unsupported, T, F, isdd, undd, real, integer, leaf, dd_ite, dd_apply, dd_not, sgn
from .alg import Poly, Node, Leaf

class Out(tuple):
    """tokens: ('c', ch) | ('v', spec, width, precision, value) | ('s', spec, name) | ('?', decision diagram of Out)"""
    __slots__ = ()
EMPTY = Out()

def choice(c, a, b):
    """one of two outputs, with what they share taken out"""
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]: i += 1
    j = 0
    while j < min(len(a), len(b)) - i and a[len(a) - 1 - j] == b[len(b) - 1 - j]: j += 1
    x, y = Out(a[i:len(a) - j]), Out(b[i:len(b) - j])
    if not x and not y: return a
    def dd(x): return x[0][1] if len(x) == 1 and x[0][0] == '?' else leaf(x)
    return Out(a[:i] + (('?', dd_ite(c, dd(x), dd(y))),) + a[len(a) - j:])

_gval = ev.gval
def gval(c, a, b, ty=None):
    if type(a) is Out and type(b) is Out:
        if c is T or a == b: return a
        if c is F: return b
        return choice(c, a, b)
    if type(a) is Poly and type(b) is Poly and a is not b:
        # the length of one of two texts is again the length of a text
        x, y = text_of(a), text_of(b)
        if x is not None and y is not None and not any(has_len(v) for v in A.dd_preds(c)): return len_of(dd_ite(c, x, y))
    return _gval(c, a, b, ty)
def text_of(p):
    if len(p.t) != 1: return None
    (m, k), = p.t.items()
    if k != 1 or len(m) != 1 or m[0][1] != 1: return None
    a = A.ATOMS[m[0][0]]
    return a[2] if a[0] == 'fn' and a[1] == 'length' else None
def has_len(v):
    return any(A.ATOMS[a][0] == 'fn' and A.ATOMS[a][1] == 'length' for a in A.pred_atoms(v))
def len_of(d): return A.var(A.atom('fn', 'length', d))
ev.gval = gval

CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])')
OUTF = {'fprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'snprintf', 'sprintf', 'fputs_unlocked', 'fputc_unlocked', 'putc_unlocked', '_IO_putc'}

STDF = {'printf', 'vprintf', 'puts', 'putchar', 'putchar_unlocked', 'perror'}

class Printer(ev.Eval):
    def __init__(self, *a):
        super().__init__(*a)
        self.wrong = []; self.fills = []
    def cstr(self, p):
        if type(p) is not Ptr or p.o is None: raise Unsupported('format is not a constant')
        if p.o.kind != 'global': raise Unsupported('format is not a constant')
        t = self.m.globals[p.o.name]
        m = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*)"', t)
        if not m:
            if 'zeroinitializer' in t: return ''
            raise Unsupported('format is not a constant')
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda k: chr(int(k.group(1), 16)), m.group(1))
        s = s[p.off:]
        return s[:s.index('\0')] if '\0' in s else s
    def format(self, fmt, args):
        out = []; pos = 0; args = list(args)
        def num(v):
            v = integer(undd(v) if isdd(v) else v)
            return v
        while pos < len(fmt):
            if fmt[pos] != '%': out.append(('c', fmt[pos])); pos += 1; continue
            m = CONV.match(fmt, pos)
            if not m: raise Unsupported('conversion %r' % fmt[pos:pos + 6])
            pos = m.end()
            fl, w, pr, ln, cv = m.groups()
            if cv == '%': out.append(('c', '%')); continue
            fl = ''.join(sorted(set(fl)))
            def arg():
                if not args: raise Unsupported('too few arguments for the format')
                return args.pop(0)
            w = num(arg()[1]) if w == '*' else A.const(int(w)) if w else None
            pr = num(arg()[1]) if pr == '*' else A.const(int(pr or 0)) if pr is not None else None
            t, v = arg()
            if cv == 's':
                if ln or t[0] != 'ptr': raise Unsupported('argument of %%%s' % cv)
                out.append(self.string(v, fl, w, pr)); continue
            if cv == 'c':
                if type(v) is not K: raise Unsupported('%c of a variable')
                out.append(('c', chr(v.v & 255))); continue
            if cv in 'di' and not ln:
                if t != ('i', 32): raise Unsupported('argument of %%%s is %r' % (cv, t))
                x = num(v)
                if A.is_const(x) and not w and not pr and not fl: out += [('c', c) for c in str(int(A.const_val(x)))]; continue
                out.append(('v', fl + 'd', w, pr, x)); continue
            if cv in 'fFgGeE' and ln in (None, 'l'):
                if t != ('f', 64): raise Unsupported('argument of %%%s is %r' % (cv, t))
                if pr is None: pr = A.const(6)
                out.append(('v', fl + cv, w, pr, real(v))); continue
            raise Unsupported('conversion %%%s%s' % (ln or '', cv))
        return Out(x for o in out for x in (o if isinstance(o, Out) else (o,)))
    def string(self, v, fl, w, pr):
        if isdd(v) and type(v) is Node:
            def go(d):
                if type(d) is Leaf: return self.string(d.x, fl, w, pr)
                ks = [go(k) for k in d.k]; r = ks[-1]
                for i in range(len(ks) - 2, -1, -1): r = choice(A.node(d.v, tuple(T if j == i else F for j in range(len(ks)))), ks[i], r)
                return r
            return go(v)
        if isdd(v): v = v.x
        if type(v) is Ptr and v.o is not None and v.o.kind == 'param' and v.off == 0: return Out([('s', fl, v.o.name, w, pr)])
        if type(v) is Ptr and v.o is None:
            self.wrong.append('hands a null pointer to %s'); return EMPTY
        t = self.cstr(v)
        if any(x is not None and not A.is_const(x) for x in (w, pr)): raise Unsupported('width of a constant string')
        if pr is not None: t = t[:int(A.const_val(pr))]
        if w is not None: t = t.ljust(int(A.const_val(w))) if '-' in fl else t.rjust(int(A.const_val(w)))
        return Out(('c', c) for c in t)
    def emit(self, st, stream, out):
        if type(stream) is not Ptr or stream.o is None or stream.o.kind != 'stream':
            self.wrong.append('output to something other than the given stream'); return
        mem = st.setdefault(stream.o, {})
        cur = mem[0][1] if 0 in mem else EMPTY
        mem[0] = (8, Out(cur + out))
    def call(self, ins, st):
        n = ins.x[1:].strip('"') if ins.x != 'asm' else ''
        if n in STDF:
            self.wrong.append('output to something other than the given stream'); return U
        if n not in OUTF: return super().call(ins, st)
        av = [(t, self.op(t, v)) for t, v in ins.a]
        if n == 'fprintf':
            self.emit(st, av[0][1], self.format(self.cstr(av[1][1]), av[2:])); return U
        if n.startswith('fputs'):
            self.emit(st, av[1][1], self.string(av[0][1], '', None, None)); return U
        if n.startswith(('fputc', 'putc', '_IO_putc')):
            if type(av[0][1]) is not K: raise Unsupported('character is not constant')
            self.emit(st, av[1][1], Out([('c', chr(av[0][1].v & 255))])); return U
        if n == 'fwrite':
            s, sz, k = self.cstr(av[0][1]), av[1][1], av[2][1]
            if type(sz) is not K or type(k) is not K or sz.v * k.v > len(s): raise Unsupported('fwrite')
            self.emit(st, av[3][1], Out(('c', c) for c in s[:sz.v * k.v])); return U
        if n == 'sprintf':
            p = av[0][1]
            if type(p) is not Ptr or p.o is None or p.o.size is None: raise Unsupported('sprintf into a buffer')
            out = self.format(self.cstr(av[1][1]), av[2:])
            self.fills.append((self.path(), p.o.size - p.off, out)); return length(out)
        # snprintf: its result is the length of the text; the buffer is scratch
        p = av[0][1]
        if type(p) is not Ptr: raise Unsupported('snprintf buffer')
        if p.o is not None:
            if type(av[1][1]) is not K: raise Unsupported('snprintf size')
            self.access(p.o, p.off, av[1][1].v, 'w')
            mem = st.setdefault(p.o, {})
            for o in [o for o in mem if p.off <= o < p.off + av[1][1].v]: del mem[o]
        out = self.format(self.cstr(av[2][1]), av[3:])
        return length(out)

def length(out):
    n = sum(t[0] == 'c' for t in out); rest = Out(t for t in out if t[0] != 'c')
    if any(t[0] not in 'cv' for t in out): raise Unsupported('length of a string')
    return A.const(n) + (len_of(leaf(rest)) if rest else A.ZERO)

def run(mod, fname, slots, null=()):
    """slots: [(name, 'obj'|'stream'|'str', elem, cells)] -> (Out, Printer)"""
    args = []; stream = None
    for n, kind, elem, cells in slots:
        if n in null: args.append(Ptr(None, 0)); continue
        o = ev.Obj(n, elem, cells * 4 if kind == 'obj' else None, 'stream' if kind == 'stream' else 'param')
        if kind == 'stream': stream = o
        args.append(Ptr(o, 0))
    e = Printer(mod, fname, args, {})
    r = e.run()
    m = r.mem.get(stream, {})
    return (m[0][1] if 0 in m else EMPTY), e

def overflow(e):
    """an unbounded print into a local buffer that does not fit: ('ok' | 'ne' | 'und', text)"""
    for cond, room, out in e.fills:
        n = bound(out)
        if n is not None and n < room: continue
        ins = sorted(a for a in {x for t in out if t[0] == 'v' for x in A.atoms_of(t[4])} | {x for v in A.dd_preds(cond) for x in A.pred_atoms(v)} if A.ATOMS[a][0] == 'in')
        rng = random.Random(3)
        for k in range(400):
            pt = {'salt': 0}
            for i in ins: pt[i] = float(rng.choice([-1, 1]) * rng.randrange(2 ** 31)) if A.ATOMS[i][3] == 'i' else rng.choice([-1, 1]) * (10 ** rng.uniform(-4, 38.5) if k % 2 else 3e38)
            E = Ev(pt)
            try:
                d = cond
                while type(d) is Node: d = d.k[E.pred(d.v)]
                if not d.x: continue
                s = render(out, E)
            except witness.Skip: continue
            if len(s) >= room: return 'ne', '%d characters are printed into %d bytes, for example at %s' % (len(s) + 1, room, witness.show(dict(pt))[:300])
        return 'und', 'a text of up to %s characters may not fit into %d bytes' % (n, room)
    return 'ok', ''
def bound(out):
    """the most characters a text can have, or None"""
    n = 0
    for t in out:
        if t[0] == 'c': n += 1; continue
        if t[0] != 'v' or any(x is not None and not A.is_const(x) for x in t[2:4]): return None
        w = abs(A.const_val(t[2])) if t[2] is not None else 0
        p = A.const_val(t[3]) if t[3] is not None else 0
        n += max(w, {'d': 11, 'f': 42 + max(p, 0), 'F': 42 + max(p, 0)}.get(t[1][-1], 9 + max(p, 6)))
    return n

# ------------------------------------------------------------ comparison
def render(out, E):
    """the text at a point (E: a witness evaluation)"""
    s = []
    for t in out:
        if t[0] == 'c': s.append(t[1])
        elif t[0] == 's': s.append('<%s%s%s>' % (t[1], t[2], ''.join('.%s' % A.show(x) for x in t[3:] if x is not None)))
        elif t[0] == '?':
            d = t[1]
            while type(d) is Node: d = d.k[E.pred(d.v)]
            s.append(render(d.x, E))
        else: s.append(one(t[1], t[2], t[3], t[4], E))
    return ''.join(s)
def one(spec, w, pr, v, E):
    x = E.poly(v)[0]
    w = None if w is None else int(round(E.poly(w)[0])); pr = None if pr is None else int(round(E.poly(pr)[0]))
    return ('%' + spec[:-1].replace('*', '') + ('' if not w else str(abs(w))) + ('' if pr is None or pr < 0 else '.%d' % pr) + spec[-1]) % (int(x) if spec[-1] == 'd' else x)

class Ev(witness.Ev):
    def atom_(self, a):
        k = A.ATOMS[a]
        if k[0] == 'fn' and k[1] == 'length':
            d = k[2]
            while type(d) is Node: d = d.k[self.pred(d.v)]
            return float(len(render(d.x, self))), 0.0
        return super().atom_(a)

def tok_inputs(out, s, seen):
    for t in out:
        if t[0] == '?':
            st = [t[1]]
            while st:
                d = st.pop()
                if d in seen: continue
                seen.add(d)
                if type(d) is Leaf: tok_inputs(d.x, s, seen)
                else:
                    if A.PREDS[d.v][0] == 's': s |= {a for a in A.atoms_of(A.PREDS[d.v][1]) if A.ATOMS[a][0] == 'in'}
                    st.extend(d.k)
        elif t[0] == 'v':
            for x in t[2:5]:
                if isinstance(x, Poly): s |= {a for a in A.atoms_of(x) if A.ATOMS[a][0] == 'in'}

def compare(a, b):
    """('eq', '') | ('ne', text) | ('und', text)"""
    if a == b: return 'eq', ''
    ins = set(); tok_inputs(a, ins, set()); tok_inputs(b, ins, set()); ins = sorted(ins)
    rng = random.Random(5)
    for n in range(400):
        pt = {'salt': n}
        for i in ins:
            if A.ATOMS[i][3] == 'i': pt[i] = float(rng.randint(-3000, 3000))
            else: pt[i] = rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 9) if n % 3 else rng.choice([0.5, -2.25, 1e5, 99999.5, 3e7, -4e6, 12.0]) * (1 + rng.randrange(3))
        E = Ev(pt)
        try: x, y = render(a, E), render(b, E)
        except witness.Skip: continue
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return 'ne', 'for example at %s: %r against %r' % (witness.show({k: v for k, v in pt.items()})[:300], x[max(0, i - 12):i + 40], y[max(0, i - 12):i + 40])
    if not ins: return 'ne', '%r against %r' % (show(a)[:200], show(b)[:200])
    return 'und', 'no input found at which the texts differ'

def show(out):
    s = []
    for t in out:
        if t[0] == 'c': s.append(t[1])
        elif t[0] == 's': s.append('{%s}' % t[2])
        elif t[0] == '?': s.append('{choice}')
        else: s.append('{%s of %s}' % (t[1], A.show(t[4], 3)))
    return ''.join(s)
