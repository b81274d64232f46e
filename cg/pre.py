"""Documented preconditions of individual functions, as equations on input cells.

Every entry is quoted from the function's own documentation; nothing else is assumed about inputs."""
from . import alg
from .alg import atom, const, Subst

# affine-mat.h: "Matrix format should be: R R R X / R R R Y / R R R Z / 0 0 0 W"
AFF = {3: 0, 7: 0, 11: 0}
# "Right Matrix format should be: R R R 0 / R R R 0 / R R R 0 / 0 0 0 1"
ROT = {3: 0, 7: 0, 11: 0, 12: 0, 13: 0, 14: 0, 15: 1}
# "inverse orthonormal rotation + translation matrix (ridig-body)": X = | R  T | / | 0  1 |
RIGID = {3: 0, 7: 0, 11: 0, 15: 1}
AFF1 = {3: 0, 7: 0, 11: 0, 15: 1}
PRE = {
    'mul': {'m1': AFF, 'm2': AFF},
    'mul_rot': {'m1': AFF, 'm2': ROT},
    # affine-post.h: "m: affine transform"
    'rotated': {'m': AFF1}, 'rotated_x': {'m': AFF1}, 'rotated_y': {'m': AFF1}, 'rotated_z': {'m': AFF1}, 'rotated_at': {'m': AFF1},
    'inv_tr': {'mat': RIGID, 'm': RIGID},
}

def cell_eqs(fname):
    b = fname.split('_', 1)[1]
    return PRE.get(b, {})

def subst_for(fname, objs):
    eq = cell_eqs(fname)
    d = {}
    for s, cells in eq.items():
        if s in objs:
            for i, v in cells.items(): d[atom('in', s, i, 'f')] = const(v)
    return Subst(atoms=d).poly if d else None

def exact_recip(x):
    """reciprocal (square root) estimates read as the exact function: only for the functions documented as approximate"""
    d = {}
    for a in alg.atoms_of(x):
        k = alg.ATOMS[a]
        if k[0] == 'fn' and k[1] == 'rcp_approx': d[a] = alg.inv(k[2])
        elif k[0] == 'fn' and k[1] == 'rsqrt_approx': d[a] = alg.inv(alg.sqrt(k[2]))
    return Subst(atoms=d).poly(x) if d else x
