"""Shapes of API parameters, and generation of the wrapper translation unit.

A wrapper `W_<id>` fixes the calling convention: every aggregate is passed by
pointer, every scalar result is stored through `ret`.  Functions that take a
run-time count or an index are instantiated for fixed values of it.
"""
import re, itertools
from .decls import Param

def typ(base):
    """(element kind, number of 4-byte cells) of a cglm type name, or None"""
    b = base
    if b.startswith('glm_') : return None
    if b.endswith('s') and re.match(r'^(i?vec[234]s|mat\d(x\d)?s|versors)$', b):
        b = b[:-1]
    m = re.match(r'^vec([234])$', b)
    if m: return ('f', int(m.group(1)))
    m = re.match(r'^ivec([234])$', b)
    if m: return ('i', int(m.group(1)))
    if b == 'versor': return ('f', 4)
    m = re.match(r'^mat([234])$', b)
    if m: return ('f', int(m.group(1)) ** 2)
    m = re.match(r'^mat([234])x([234])$', b)
    if m: return ('f', int(m.group(1)) * int(m.group(2)))
    return None

def is_struct(base):
    return bool(re.match(r'^(i?vec[234]s|mat\d(x\d)?s|versors)$', base))

SCALARS = {'float': 'f', 'int': 'i', '_Bool': 'b', 'bool': 'b', 'size_t': 'z', 'uint32_t': 'z',
           'glm_euler_seq': 'i', 'double': 'd'}

class Slot:
    """a wrapper parameter: kind 'obj' (pointer to `cells` cells of `elem`) or 'val'"""
    __slots__ = ('name', 'kind', 'elem', 'cells', 'ctype', 'param', 'align')
    def __init__(self, name, kind, elem, cells, ctype, param=None):
        self.name, self.kind, self.elem, self.cells, self.ctype, self.param = name, kind, elem, cells, ctype, param
    def __repr__(self):
        return '%s:%s%s[%s]' % (self.name, self.kind, self.elem, self.cells)

class Inst:
    """one instantiation of a function: wrapper name, slots and C text"""
    __slots__ = ('fn', 'wname', 'slots', 'text', 'tag', 'ret')

class Unsupported(Exception):
    pass

def make_src_cells(fn):
    m = re.match(r'^glm[sc]?_(.*)_make$', fn.name)
    if m:
        b = {'quat': 'versor'}.get(m.group(1), m.group(1))
        t = typ(b)
        if t: return t
    if re.match(r'^glm[sc]?_i?vec[234]$', fn.name):
        t = typ(re.sub(r'^glm[sc]?_', '', fn.name))
        # the constructor from a larger vector reads as many cells as the result has
        return t
    return None

def param_slot(fn, p):
    t = typ(p.base)
    if p.ptr == 'fn':
        raise Unsupported('function pointer')
    if t:
        if p.ptr == 0 and not p.dims:
            return Slot(p.name, 'obj', t[0], t[1], p.base, p)
        if p.ptr == 0 and len(p.dims) == 1 and p.dims[0]:
            return Slot(p.name, 'obj', t[0], t[1] * int(p.dims[0]), p.base, p)
        if p.ptr == 0 and len(p.dims) == 1:
            return Slot(p.name, 'arr', t[0], t[1], p.base, p)
        if p.ptr == 1 and not p.dims:
            return Slot(p.name, 'arr', t[0], t[1], p.base, p)
        if p.ptr == 1 and len(p.dims) == 1:
            return Slot(p.name, 'ptrarr', t[0], t[1], p.base, p)
        raise Unsupported(p.text)
    if p.base in SCALARS:
        e = SCALARS[p.base]
        if p.ptr == 0 and not p.dims:
            return Slot(p.name, 'val', e, 1, p.base, p)
        if p.ptr == 0 and len(p.dims) == 1 and p.dims[0]:
            return Slot(p.name, 'obj', e, int(p.dims[0]), p.base, p)
        if p.ptr == 1 and not p.dims:
            c = make_src_cells(fn)
            if c and p is fn.params[0]:
                return Slot(p.name, 'obj', e, c[1], p.base, p)
            return Slot(p.name, 'obj', e, 1, p.base, p)
    raise Unsupported(p.text)

def enum_index_params(fn, slots):
    """indices enumerated for functions that take row/column indices or a swizzle mask"""
    m = re.match(r'^glm[sc]?_mat([234])_swap_(col|row)$', fn.name)
    if m:
        n = int(m.group(1))
        names = [s.name for s in slots if s.elem == 'i' and s.kind == 'val']
        if len(names) == 2:
            return [dict(zip(names, ij)) for ij in itertools.product(range(n), repeat=2)]
    m = re.match(r'^glm[sc]?_vec([234])_swizzle$', fn.name)
    if m:
        n = int(m.group(1))
        names = [s.name for s in slots if s.elem == 'i' and s.kind == 'val']
        if len(names) == 1:
            combos = list(itertools.product(range(n), repeat=n)) if n < 4 else \
                     [c for k, c in enumerate(itertools.product(range(4), repeat=4)) if k % 5 == 0 or len(set(c)) == 4]
            return [{names[0]: sum(c << (2 * k) for k, c in enumerate(cs))} for cs in combos]
    en = [s for s in slots if s.ctype == 'glm_euler_seq']
    if en: return [{en[0].name: v} for v in EULER_SEQ]
    return None

# the six enumerators of the rotation-order type (euler.h): each axis number shifted by its position
EULER_SEQ = (0 << 0 | 1 << 2 | 2 << 4, 0 << 0 | 2 << 2 | 1 << 4, 1 << 0 | 0 << 2 | 2 << 4,
             1 << 0 | 2 << 2 | 0 << 4, 2 << 0 | 0 << 2 | 1 << 4, 2 << 0 | 1 << 2 | 0 << 4)

# fixed counts for functions with a run-time count
COUNTS = (0, 1, 2, 3, 4, 5, 8, 9, 33, 257)

def instances(fn, counts=COUNTS, prefix='W_'):
    """all wrapper instances of fn"""
    slots = [param_slot(fn, p) for p in fn.params]
    out = []
    # clamp is specified for minVal <= maxVal: the wrapper passes max(minVal, maxVal) as the upper bound
    nm = {s.name.lower(): s.name for s in slots}
    clampb = (nm['minval'], nm['maxval']) if re.search(r'(^|_)clamp$', fn.name) and 'minval' in nm and 'maxval' in nm else None
    arr = [s for s in slots if s.kind in ('arr', 'ptrarr')]
    cnts = [s for s in slots if s.elem == 'z']
    idx = enum_index_params(fn, slots)
    if arr and not cnts:
        # a plain pointer to one object
        for s in arr:
            if s.kind == 'ptrarr': raise Unsupported('pointer array')
            s.kind = 'obj'
        arr = []
    if cnts:
        lo = [c for c in counts if not (fn.name.endswith('_mulN') and not 2 <= c <= 5)]
        variants = [({cnts[0].name: n}, '__n%d' % n, n) for n in lo]
    elif idx:
        variants = [(d, '__' + '_'.join(str(v) for v in d.values()), None) for d in idx]
    else:
        variants = [({}, '', None)]
    rt = fn.ret
    for fixed, tag, n in variants:
        i = Inst()
        i.fn = fn; i.tag = tag; i.wname = prefix + fn.name + tag
        i.slots = []
        decl, args, pre = [], [], []
        call_args = []
        for s in slots:
            if s.name in fixed and s.kind == 'val':
                call_args.append('%d' % fixed[s.name]); continue
            ns = Slot(s.name, 'obj' if s.kind in ('arr', 'ptrarr') else s.kind, s.elem, s.cells, s.ctype, s.param)
            p = s.param
            if s.kind == 'arr':
                ns.cells = s.cells * n
                decl.append('%s *%s' % (s.ctype, s.name)); call_args.append(s.name)
            elif s.kind == 'ptrarr':
                # n separate objects
                names = ['%s%d' % (s.name, k) for k in range(n)]
                for nm in names:
                    i.slots.append(Slot(nm, 'obj', s.elem, s.cells, s.ctype, p))
                    decl.append('%s *%s' % (s.ctype, nm))
                pre.append('%s *arr_%s[%d] = { %s };' % (s.ctype, s.name, n, ', '.join(names)))
                call_args.append('arr_' + s.name)
                continue
            elif s.kind == 'obj':
                if p.ptr == 0 and not p.dims and is_struct(s.ctype):
                    decl.append('%s *%s' % (s.ctype, s.name)); call_args.append('*' + s.name)
                elif p.ptr == 0 and not p.dims:
                    decl.append('%s %s' % (s.ctype, s.name)); call_args.append(s.name)
                elif p.dims:
                    decl.append('%s %s[%s]' % (s.ctype, s.name, p.dims[0])); call_args.append(s.name)
                else:
                    decl.append('%s%s *%s' % ('const ' if p.const else '', s.ctype, s.name)); call_args.append(s.name)
            else:
                ct = s.ctype
                decl.append('%s %s' % (ct, s.name)); call_args.append(s.name)
            i.slots.append(ns)
        if clampb: call_args = ['%s > %s ? %s : %s' % (*clampb, *clampb) if a == clampb[1] else a for a in call_args]
        call = '%s(%s)' % (fn.name, ', '.join(call_args))
        i.ret = None
        if rt == 'void':
            body = call + ';'
        elif typ(rt) and is_struct(rt):
            t = typ(rt)
            i.ret = Slot('ret', 'obj', t[0], t[1], rt)
            decl.append('%s *ret' % rt); body = '*ret = %s;' % call
        elif rt in ('_Bool', 'bool'):
            i.ret = Slot('ret', 'obj', 'b', 1, 'int'); decl.append('int *ret'); body = '*ret = (int)%s;' % call
        elif rt in SCALARS and SCALARS[rt] in 'fi':
            i.ret = Slot('ret', 'obj', SCALARS[rt], 1, rt); decl.append('%s *ret' % ('int' if rt.startswith('glm_') else rt)); body = '*ret = %s;' % call
        else:
            raise Unsupported('return type ' + rt)
        if i.ret: i.slots.append(i.ret)
        i.text = 'void %s(%s) { %s %s }' % (i.wname, ', '.join(decl) or 'void', ' '.join(pre), body)
        out.append(i)
    return out
