"""Correspondence between the parameters of sibling API functions (struct / array / compiled)."""
from . import model

# siblings whose parameter order differs on purpose: struct-API base name -> array parameter index for each struct parameter, and for the result
EXPLICIT = {
    'perspective_resize': ([1, 0], 1),
    'perspective_resize_rh_no': ([1, 0], 1), 'perspective_resize_lh_no': ([1, 0], 1),
    'perspective_resize_rh_zo': ([1, 0], 1), 'perspective_resize_lh_zo': ([1, 0], 1),
    'vec2': ([0], 1),
}

def raw(b): return b[:-1] if model.is_struct(b) else b

def struct_to_array(s, a):
    """(list: array-parameter index of each struct-API parameter, index of the array parameter that holds the result or None) or None"""
    base = s.name.split('_', 1)[1]
    if base in EXPLICIT: return EXPLICIT[base]
    S = [raw(p.base) for p in s.params]; B = [p.base for p in a.params]
    n = len(S)
    if s.ret != 'void' and model.is_struct(s.ret):
        r = raw(s.ret)
        if B == S + [r]: return list(range(n)), n
        if B == S:
            # in place: the result is the (first) parameter of the result type
            cand = [i for i, b in enumerate(B) if b == r]
            if not cand: return None
            named = [i for i in cand if a.params[i].name == 'dest']
            return list(range(n)), (named or cand)[0]
        if B == [r] + S: return list(range(1, n + 1)), 0
        return None
    if S == B and (raw(s.ret) == a.ret): return list(range(n)), None
    return None
