"""Operations of the Python runtime that harnesses need in both the symbolic and the concrete run."""
import os
def hash_(x):
    if os.environ.get('VF_CONCRETE'): return hash(x)
    from engine import shims
    return shims.vf_hash(x)
def float_(x):
    if os.environ.get('VF_CONCRETE'): return float(x)
    from engine import shims
    return shims.vf_float(x)
def set_(xs):
    if os.environ.get('VF_CONCRETE'): return set(xs)
    from engine import shims
    return shims.mkset(xs, False)

def number_of(ctx, c):
    """A number for the oracle standing for an exact constant of any kind."""
    if not ctx.symbolic: return c if isinstance(c, (int, float)) else float(c)
    from engine import sx
    return sx.wrap(c)
