"""Inventory of the public functions, read from clang's type-resolved AST
(-ast-print: macros expanded, typedef names of parameters kept)."""
import re, os, json

ATTR = re.compile(r'__attribute__\(\((?:[^()]|\([^()]*\))*\)\)\s*')

class Param:
    __slots__ = ('text', 'name', 'base', 'dims', 'ptr', 'const')
    def __init__(self, text):
        self.text = text
        t = re.sub(r'\brestrict\b', '', text)
        t = ATTR.sub('', t)
        self.const = bool(re.search(r'\bconst\b', t))
        t = re.sub(r'\bconst\b', '', t)
        m = re.match(r'^\s*((?:unsigned |signed |struct |union |enum )*\w+)\s*(.*)$', t.strip())
        self.base = m.group(1)
        rest = m.group(2).strip()
        # function pointer or array pointers
        fp = re.match(r'^\(\*\s*(\w+)\)\((.*)\)$', rest)
        if fp:
            self.name = fp.group(1); self.ptr = 'fn'; self.dims = []
            return
        self.ptr = rest.count('*')
        rest = rest.replace('*', ' ').strip()
        m = re.match(r'^(\w*)\s*((?:\[[^\]]*\]\s*)*)$', rest)
        if not m:
            raise ValueError('cannot parse parameter: %r' % text)
        self.name = m.group(1)
        self.dims = re.findall(r'\[([^\]]*)\]', m.group(2))
    def __repr__(self):
        return self.text

class Fn:
    __slots__ = ('name', 'ret', 'params', 'has_body', 'static', 'sig')
    def __repr__(self):
        return '%s %s(%s)' % (self.ret, self.name, ', '.join(p.text for p in self.params))

VEC = re.compile(r'^(i?)vec([234])$'); MAT = re.compile(r'^mat([234])(?:x([234]))?$')
def decay(p):
    """the type a parameter has after adjustment: (element, remaining extents), None when it is no array or pointer"""
    b = p.base; m = VEC.match(b)
    if m: e, d = ('int' if m.group(1) else 'float'), [int(m.group(2))]
    elif b == 'versor': e, d = 'float', [4]
    elif MAT.match(b):
        m = MAT.match(b); e, d = 'float', [int(m.group(1)), int(m.group(2) or m.group(1))]
    else: e, d = b, []
    if p.ptr == 'fn' or p.ptr > 1 or p.ptr and p.dims: return None
    if p.ptr: d = [0] + d
    elif p.dims: d = [0] + [int(x) for x in p.dims[1:] if x.isdigit()] + d
    return (e, d[1:]) if d else None

SHAPES = None
def reshape(f):
    """a parameter written another way with the same C type (float *v for vec3 v) keeps the shape recorded for it"""
    global SHAPES
    if SHAPES is None:
        t = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/shapes.json'
        SHAPES = json.load(open(t)) if os.path.exists(t) else {}
    for k, (b, d, n) in SHAPES.get(f.name, {}).items():
        if int(k) >= len(f.params): return
        p = f.params[int(k)]
        if p.ptr == 'fn' or (p.base, p.dims, p.ptr) == (b, d, n): continue
        now = decay(p); o = (p.base, p.dims, p.ptr)
        p.base, p.dims, p.ptr = b, list(d), n
        if now is None or decay(p) != now: p.base, p.dims, p.ptr = o

NAMES = None
def rename(f):
    """parameters carry the names recorded for them (params.json), by position: what a function's author calls an
    argument means nothing to its callers, and everything downstream is keyed on the recorded names"""
    global NAMES
    if NAMES is None:
        t = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/params.json'
        NAMES = json.load(open(t)) if os.path.exists(t) else {}
    want = NAMES.get(f.name)
    if want is None or len(want) != len(f.params) or not all(want) or not all(p.name for p in f.params): return
    for p, n in zip(f.params, want):
        if p.name == n: continue
        p.text = re.sub(r'\b%s\b(?!.*\b%s\b)' % (p.name, p.name), n, p.text, count=1)
        p.name = n

def split_params(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{': depth += 1
        if ch in ')]}': depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    if cur.strip(): out.append(cur)
    return [p.strip() for p in out]

LINE = re.compile(r'^(?:static |extern |inline |const )*(\w[\w ]*?[\s\*]+)(\w+)\((.*)\)\s*(?:\{|;)?\s*$')

def parse_ast_print(text, prefixes=('glm_', 'glms_', 'glmc_', 'glmm_', 'S_', 'R_', 'L_')):
    fns = {}
    for line in text.splitlines():
        if not line or line[0] in ' }/#': continue
        l = ATTR.sub('', line).strip()
        static = 'static ' in l[:40]
        l2 = re.sub(r'^(?:(?:static|extern|inline|__inline__|__inline)\s+)+', '', l)
        m = LINE.match(l2)
        if not m: continue
        name = m.group(2)
        if not name.startswith(prefixes): continue
        f = Fn()
        f.name = name
        f.ret = m.group(1).strip()
        ps = m.group(3).strip()
        f.static = static
        f.has_body = l.rstrip().endswith('{')
        try:
            f.params = [] if ps in ('', 'void') else [Param(p) for p in split_params(ps)]
        except (ValueError, AttributeError) as e:
            continue        # not a shape this library uses; a missing public function is caught by the instance floors
        f.sig = l2
        rename(f)
        reshape(f)
        if name in fns and fns[name].has_body and not f.has_body:
            continue
        fns[name] = f
    return fns
