"""C09: square matrices: products, transposes, determinants, inverses, element moves."""
from cg import spec, pre
def run(ck):
    spec.run_spec(ck, ['c09.h'], floor=300, xform=lambda i, n: pre.exact_recip if i.fn.name.endswith('_fast') else None)
