"""Reader for LLVM's textual IR (the subset clang emits for cglm)."""
import re, struct

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glb>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>!(?:[-\w.$]+)?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<word>[-\w.$]+)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}<>(),=*|:])
)''', re.X)

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '': break
            raise ValueError('tokenize: %r' % s[pos:pos + 40])
        out.append(m.group(0).strip()); pos = m.end()
    return out

# types: ('i',n) ('f',32|64|16) ('ptr',) ('v',n,t) ('a',n,t) ('s',[t..],packed) ('n',name) ('void',) ('meta',) ('label',)
FT = {'float': ('f', 32), 'double': ('f', 64), 'half': ('f', 16), 'ptr': ('ptr',), 'void': ('void',), 'label': ('label',),
      'metadata': ('meta',), 'x86_fp80': ('f', 80), 'fp128': ('f', 128), 'bfloat': ('f', 17), 'token': ('meta',)}

class Instr:
    __slots__ = ('res', 'op', 'ty', 'a', 'x', 'dbg', 'text')
    def __repr__(self): return self.text

class Func:
    __slots__ = ('name', 'ret', 'args', 'blocks', 'order', 'dbg')

class Module:
    def __init__(self):
        self.types = {}; self.funcs = {}; self.globals = {}; self.dbg = {}; self.decls = set()
    # sizes follow the (identical) data layouts of the analysed targets: natural alignment
    def size(self, t):
        k = t[0]
        if k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
        if k == 'f': return {32: 4, 64: 8, 16: 2, 17: 2, 80: 16, 128: 16}[t[1]]
        if k == 'ptr': return self.ptrsize
        if k == 'v': return t[1] * self.size(t[2]) if t[2] != ('i', 1) else (t[1] + 7) // 8
        if k == 'a': return t[1] * self.size(t[2])
        if k == 'n': return self.size(self.types[t[1]])
        if k == 's':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x); o = (o + a - 1) // a * a
                o += self.size(x)
            if not t[2] and t[1]:
                a = max(self.align(x) for x in t[1]); o = (o + a - 1) // a * a
            return o
        raise ValueError(t)
    ptrsize = 8
    def align(self, t):
        k = t[0]
        if k in ('i', 'f', 'ptr'): return self.size(t)
        if k == 'v': return min(self.size(t), 32)
        if k == 'a': return self.align(t[2])
        if k == 'n': return self.align(self.types[t[1]])
        if k == 's': return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        raise ValueError(t)
    def field_off(self, t, i):
        if t[0] == 'n': t = self.types[t[1]]
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x); o = (o + a - 1) // a * a
            if j == i: return o, x
            o += self.size(x)
        raise ValueError('field')

class P:
    """token cursor"""
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.m = mod
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise ValueError('expected %r got %r in %r' % (x, y, ' '.join(self.t)))
    def type(self):
        x = self.next()
        if x in FT: t = FT[x]
        elif re.match(r'^i\d+$', x): t = ('i', int(x[1:]))
        elif x == '<':
            if self.peek() == '{':
                self.next(); t = ('s', tuple(self._tl('}')), True); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); t = ('v', n, e)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); t = ('a', n, e)
        elif x == '{': t = ('s', tuple(self._tl('}')), False)
        elif x[0] == '%': t = ('n', x)
        else: raise ValueError('type? %r in %r' % (x, ' '.join(self.t)))
        if x == 'ptr' and self.peek() == 'addrspace':
            self.next(); self.expect('('); self.next(); self.expect(')')
        if self.peek() == '(' and False: pass
        return t
    def _tl(self, end):
        out = []
        if self.eat(end): return out
        while True:
            out.append(self.type())
            if self.eat(end): return out
            self.expect(',')
    def value(self, t):
        """operand of type t: ('l',name) local, ('g',name), ('c', python const) ..."""
        x = self.next()
        if x[0] == '%': return ('l', x)
        if x[0] == '@': return ('g', x)
        if x in ('true', 'false'): return ('c', 1 if x == 'true' else 0)
        if x in ('undef', 'poison'): return ('u',)
        if x == 'zeroinitializer': return ('z',)
        if x == 'null': return ('null',)
        if x == 'none': return ('u',)
        if x == '<' or x == '[' or x == '{':
            end = {'<': '>', '[': ']', '{': '}'}[x]
            packed = False
            if x == '<' and self.peek() == '{': self.next(); packed = True; end = '}'
            out = []
            while not self.eat(end):
                if out: self.expect(',')
                et = self.type(); out.append((et, self.value(et)))
            if packed: self.expect('>')
            return ('agg', out)
        if x.startswith('c"'):
            return ('bytes', x)
        if x in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            self.expect('(')
            if x == 'getelementptr':
                bt = self.type(); self.expect(',')
                ops = []
                while True:
                    if self.peek() == 'inrange': self.next()
                    ot = self.type(); ops.append((ot, self.value(ot)))
                    if self.eat(')'): break
                    self.expect(',')
                return ('ce_gep', bt, ops)
            ot = self.type(); v = self.value(ot); self.expect('to'); tt = self.type(); self.expect(')')
            return ('ce_cast', x, ot, v, tt)
        if t[0] == 'f':
            if x.startswith('0x'):
                if x[2] in 'KLMHR': raise ValueError('fp literal ' + x)
                return ('c', struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0])
            return ('c', float(x))
        if t[0] == 'i': return ('c', int(x))
        raise ValueError('value? %r of %r in %r' % (x, t, ' '.join(self.t)))

FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'disjoint',
         'volatile', 'tail', 'musttail', 'notail', 'nneg', 'nusw', 'samesign'}
PARAM_ATTRS = {'noundef', 'nocapture', 'readonly', 'writeonly', 'noalias', 'nonnull', 'immarg', 'signext', 'zeroext', 'returned',
               'readnone', 'inreg', 'nofree', 'nest', 'swiftself', 'allocalign', 'noext'}

def skip_attrs(p):
    while True:
        x = p.peek()
        if x in PARAM_ATTRS: p.next()
        elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'nofpclass', 'captures'):
            p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    y = p.next()
                    if y == '(': d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0: break
            elif x == 'align': p.next()
        else: return

BIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'addrspacecast'}

def parse_instr(line, mod):
    dbg = None
    m = re.search(r', !dbg (![0-9]+)', line)
    if m: dbg = m.group(1)
    k = line.find(', !')
    if k >= 0: line = line[:k]
    ins = Instr(); ins.text = line.strip(); ins.dbg = dbg; ins.res = None; ins.x = None; ins.ty = None; ins.a = ()
    p = P(tokenize(line), mod)
    if p.peek(1) == '=' and p.peek()[0] == '%':
        ins.res = p.next(); p.next()
    op = p.next()
    while op in FLAGS: op = p.next()
    ins.op = op
    def flags():
        while p.peek() in FLAGS: p.next()
    def tv():
        t = p.type(); skip_attrs(p); return (t, p.value(t))
    if op in BIN:
        flags(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        ins.ty = t; ins.a = (a, b)
    elif op == 'fneg' or op == 'freeze':
        flags(); t = p.type(); ins.ty = t; ins.a = (p.value(t),)
    elif op in CAST:
        flags(); t = p.type(); v = p.value(t); p.expect('to'); ins.ty = p.type(); ins.a = (v,); ins.x = t
    elif op == 'load':
        flags()
        if p.peek() == 'atomic': raise ValueError('atomic')
        t = p.type(); p.expect(','); pt, v = tv(); ins.ty = t; ins.a = (v,)
        ins.x = int(p.t[p.i + 2]) if p.peek() == ',' and p.peek(1) == 'align' else 1
    elif op == 'store':
        flags()
        t, v = tv(); p.expect(','); pt, q = tv(); ins.ty = t; ins.a = (v, q)
        ins.x = int(p.t[p.i + 2]) if p.peek() == ',' and p.peek(1) == 'align' else 1
    elif op == 'getelementptr':
        flags(); bt = p.type(); ops = []
        while p.eat(','):
            if p.peek() == 'inrange': p.next()
            ops.append(tv())
        ins.ty = ('ptr',); ins.x = bt; ins.a = tuple(ops)
    elif op == 'alloca':
        t = p.type(); ins.ty = ('ptr',); ins.x = t
        n = None
        while p.eat(','):
            if p.peek() == 'align': p.next(); p.next()
            elif p.peek() == 'addrspace': p.i += 4
            else: n = tv()
        ins.a = (n,)
    elif op in ('icmp', 'fcmp'):
        flags(); pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        ins.x = pr; ins.ty = t; ins.a = (a, b)
    elif op == 'select':
        flags(); c = tv(); p.expect(','); a = tv(); p.expect(','); b = tv()
        ins.ty = a[0]; ins.x = c[0]; ins.a = (c[1], a[1], b[1])
    elif op == 'phi':
        flags(); t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next(); p.expect(']'); inc.append((v, b))
            if not p.eat(','): break
        ins.ty = t; ins.a = tuple(inc)
    elif op == 'br':
        if p.peek() == 'label':
            p.next(); ins.a = (p.next(),)
        else:
            c = tv(); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            ins.a = (c[1], a, b)
    elif op == 'switch':
        c = tv(); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cs = []
        while not p.eat(']'):
            k = tv(); p.expect(','); p.expect('label'); cs.append((k[1], p.next()))
        ins.ty = c[0]; ins.a = (c[1], d, cs)
    elif op == 'ret':
        if p.peek() == 'void': ins.a = (None,)
        else: t, v = tv(); ins.ty = t; ins.a = (v,)
    elif op == 'unreachable': pass
    elif op == 'extractelement':
        t, v = tv(); p.expect(','); i = tv(); ins.ty = t; ins.a = (v, i[1])
    elif op == 'insertelement':
        t, v = tv(); p.expect(','); e = tv(); p.expect(','); i = tv(); ins.ty = t; ins.a = (v, e[1], i[1]); ins.x = e[0]
    elif op == 'shufflevector':
        t, a = tv(); p.expect(','); t2, b = tv(); p.expect(','); mt, mv = tv()
        ins.ty = t; ins.a = (a, b, mv); ins.x = mt
    elif op == 'extractvalue':
        t, v = tv(); ix = []
        while p.eat(','): ix.append(int(p.next()))
        ins.ty = t; ins.a = (v,); ins.x = ix
    elif op == 'insertvalue':
        t, v = tv(); p.expect(','); et, e = tv(); ix = []
        while p.eat(','): ix.append(int(p.next()))
        ins.ty = t; ins.a = (v, e); ins.x = (et, ix)
    elif op == 'call':
        flags()
        while p.peek() in ('fastcc', 'ccc', 'arm_aapcs_vfpcc', 'arm_aapcscc', 'arm_aapcs_vfpcc'): p.next()
        skip_attrs(p)
        flags()
        t = p.type(); 
        if p.peek() == '(':      # varargs function type
            d = 0
            while True:
                y = p.next()
                if y == '(': d += 1
                elif y == ')':
                    d -= 1
                    if d == 0: break
        if p.peek() == 'asm': ins.x = 'asm'; ins.ty = t; ins.a = (); return ins
        callee = p.next()
        p.expect('('); args = []
        while not p.eat(')'):
            if args: p.expect(',')
            at = p.type()
            skip_attrs(p)
            if at == ('meta',):
                d = 0
                while p.peek() not in (',', ')'): p.next()
                args.append((at, ('u',)))
            else: args.append((at, p.value(at)))
        ins.ty = t; ins.x = callee; ins.a = tuple(args)
    else:
        raise ValueError('instruction %r' % line)
    return ins

DEF = re.compile(r'^define .*?@("?[-\w.$]+"?)\(')

def parse(text, want=None):
    """parse the functions whose name satisfies `want`"""
    mod = Module()
    if 'wasm32' in text[:2000] or 'armv7' in text[:2000] or re.search(r'target triple = "(wasm32|arm|thumb)', text): mod.ptrsize = 4
    lines = text.split('\n')
    i = 0; n = len(lines)
    while i < n:
        l = lines[i]
        if not l: i += 1; continue
        c = l[0]
        if c == '%':
            m = re.match(r'^(%[-\w."]+) = type (.*)$', l)
            if m and m.group(2) != 'opaque':
                mod.types[m.group(1)] = P(tokenize(m.group(2)), mod).type()
        elif c == '@':
            m = re.match(r'^(@[-\w."$]+) = (.*)$', l)
            if m: mod.globals[m.group(1)] = m.group(2)
        elif c == '!':
            m = re.match(r'^(!\d+) = (?:distinct )?(.*)$', l)
            if m: mod.dbg[m.group(1)] = m.group(2)
        elif l.startswith('declare'):
            m = re.search(r'@([-\w.$]+)\(', l)
            if m: mod.decls.add(m.group(1))
        elif l.startswith('define'):
            m = DEF.match(l); name = m.group(1).strip('"')
            j = i + 1
            while lines[j] != '}': j += 1
            if want is None or want(name):
                mod.funcs[name] = (l, lines[i + 1:j])
            else:
                mod.decls.add('=' + name)
            i = j
        i += 1
    return mod

def get(mod, name):
    """Func, parsed on demand"""
    f = mod.funcs[name]
    if isinstance(f, Func): return f
    head, body = f
    fn = Func(); fn.name = name; fn.blocks = {}; fn.order = []; fn.args = []
    m = re.search(r'!dbg (![0-9]+)', head); fn.dbg = m.group(1) if m else None
    k = head.index('@' + name) if ('@' + name) in head else head.index('@"' + name)
    k = head.index('(', k)
    d = 0
    for e in range(k, len(head)):
        if head[e] == '(': d += 1
        elif head[e] == ')':
            d -= 1
            if d == 0: break
    p = P(tokenize(head[k:e + 1]), mod)
    p.expect('(')
    while not p.eat(')'):
        if fn.args: p.expect(',')
        if p.eat('...'): continue
        t = p.type(); skip_attrs(p)
        nm = p.next() if p.peek() and p.peek()[0] == '%' else None
        fn.args.append((t, nm))
    cur = None
    buf = []
    lines = []
    # join multi-line switch
    for l in body:
        if not l.strip(): continue
        if lines and lines[-1].lstrip().startswith('switch') and not lines[-1].rstrip().endswith(']') and ']' not in lines[-1].split('[')[-1]:
            lines[-1] += ' ' + l.strip(); continue
        lines.append(l)
    nunnamed = None
    for l in lines:
        if not l.startswith(' '):
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = '%' + m.group(1); fn.blocks[cur] = []; fn.order.append(cur)
            continue
        s = l.strip()
        if s.startswith(';'): continue
        if cur is None:
            cur = '%entry$'; fn.blocks[cur] = []; fn.order.append(cur)
        fn.blocks[cur].append(parse_instr(s, mod))
    mod.funcs[name] = fn
    return fn

def dbg_line(mod, ref):
    """(file, line, function) chain of a !dbg reference, innermost first"""
    out = []
    while ref:
        d = mod.dbg.get(ref)
        if not d or not d.startswith('!DILocation'): break
        m = re.search(r'line: (\d+)', d); line = int(m.group(1)) if m else 0
        sc = re.search(r'scope: (!\d+)', d)
        fn = None; fl = None
        s = sc.group(1) if sc else None
        while s:
            x = mod.dbg.get(s, '')
            if 'DISubprogram' in x:
                m = re.search(r'name: "([^"]*)"', x); fn = m.group(1) if m else None
                m = re.search(r'file: (!\d+)', x)
                if m:
                    f = mod.dbg.get(m.group(1), ''); m2 = re.search(r'filename: "([^"]*)"', f); fl = m2.group(1) if m2 else None
                break
            m = re.search(r'scope: (!\d+)', x); s = m.group(1) if m else None
        out.append((fl, line, fn))
        m = re.search(r'inlinedAt: (!\d+)', d); ref = m.group(1) if m else None
    return out
