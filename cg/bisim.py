"""Coinductive equality of two functions' SSA graphs (for loops the value numbering cannot close)."""
from . import llir

COMM = {'fadd', 'fmul', 'add', 'mul', 'and', 'or', 'xor'}

def same(ma, na, mb, nb):
    """True when the two functions run in lockstep: same CFG, matching stores, calls and conditions on values equal by coinduction"""
    try:
        fa, fb = llir.get(ma, na), llir.get(mb, nb)
    except (KeyError, ValueError):
        return False
    if len(fa.args) != len(fb.args): return False
    A = {n: i for i, (t, n) in enumerate(fa.args)}; B = {n: i for i, (t, n) in enumerate(fb.args)}
    da = {i.res: (i, b) for b in fa.order for i in fa.blocks[b] if i.res}
    db = {i.res: (i, b) for b in fb.order for i in fb.blocks[b] if i.res}
    bm = {}; hyp = set(); work = []
    def blk(x, y):
        if x in bm: return bm[x] == y
        if y in bm.values(): return False
        bm[x] = y; work.append((x, y)); return True
    def val(x, y):
        """operands equal; phis assumed equal once visited"""
        st = [(x, y)]
        while st:
            x, y = st.pop()
            if x is None or y is None:
                if x is not y: return False
                continue
            if not (isinstance(x, tuple) and x and x[0] == 'l'):
                if isinstance(y, tuple) and y and y[0] == 'l': return False
                if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
                    if len(x) != len(y): return False
                    if x and isinstance(x[0], str) and x[0] == 'g':
                        if ma.globals.get(x[1]) != mb.globals.get(y[1]) and x[1] != y[1]: return False
                        continue
                    st += list(zip(x, y)); continue
                if x != y: return False
                continue
            if not (isinstance(y, tuple) and y and y[0] == 'l'): return False
            k = (x[1], y[1])
            if k in hyp: continue
            if x[1] in A or y[1] in B:
                if A.get(x[1], -1) != B.get(y[1], -2): return False
                continue
            hyp.add(k)
            (i, bi), (j, bj) = da[x[1]], db[y[1]]
            if i.op != j.op or i.ty != j.ty: return False
            if i.op == 'phi':
                if not blk(bi, bj) or len(i.a) != len(j.a): return False
                jj = {b: v for v, b in j.a}
                pend.append((i, j))
                continue
            if not ins(i, j, st): return False
        return True
    def ins(i, j, st):
        if i.op != j.op or i.ty != j.ty: return False
        if i.op == 'call':
            if i.x != j.x or len(i.a) != len(j.a): return False
        elif i.op not in ('phi',) and i.x != j.x: return False
        if len(i.a) != len(j.a): return False
        st += list(zip(i.a, j.a))
        return True
    pend = []
    blk(fa.order[0], fb.order[0])
    def settle():
        while pend:
            i, j = pend.pop()
            jj = {b: v for v, b in j.a}
            for v, b in i.a:
                y = bm.get(b)
                if y is None:
                    later.append((i, j)); break
                if y not in jj or not val(v, jj[y]): return False
        return True
    later = []
    while work:
        x, y = work.pop()
        ia = [i for i in fa.blocks[x] if i.op in ('store', 'call', 'br', 'switch', 'ret', 'load', 'unreachable') and not skip(i)]
        ib = [i for i in fb.blocks[y] if i.op in ('store', 'call', 'br', 'switch', 'ret', 'load', 'unreachable') and not skip(i)]
        if len(ia) != len(ib): return False
        for i, j in zip(ia, ib):
            if i.op != j.op: return False
            if i.op == 'br':
                if len(i.a) != len(j.a): return False
                if len(i.a) == 1:
                    if not blk(i.a[0], j.a[0]): return False
                else:
                    if not val(i.a[0], j.a[0]) or not blk(i.a[1], j.a[1]) or not blk(i.a[2], j.a[2]): return False
            elif i.op == 'switch':
                if i.ty != j.ty or len(i.a[2]) != len(j.a[2]) or not val(i.a[0], j.a[0]) or not blk(i.a[1], j.a[1]): return False
                cj = {repr(k): l for k, l in j.a[2]}
                for k, l in i.a[2]:
                    if repr(k) not in cj or not blk(l, cj[repr(k)]): return False
            elif i.res is not None:
                if not val(('l', i.res), ('l', j.res)): return False
            else:
                st = []
                if not ins(i, j, st): return False
                if not all(val(p, q) for p, q in st): return False
    for _ in range(50):
        pend += later; later.clear()
        if not pend: return True
        if not settle(): return False
    return not later

def skip(i):
    return i.op == 'call' and isinstance(i.x, str) and ('lifetime' in i.x or 'llvm.dbg' in i.x or 'assume' in i.x)
