"""C01: elementwise binary arithmetic agrees with NumPy for all dtypes, shapes and layouts."""
import operator as op
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential

RULE = ("two operands with independently drawn dtype, broadcast-compatible shapes, contents (specials included) and "
        "memory layouts; non-trivial = both operands non-empty and the reference accepts the call")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference", "complex operands are finite and moderate (|x| <= 1e4), divisors non-zero",
               "integer exponents are 0..100"]

EXACT = {"add", "subtract", "multiply", "maximum", "minimum", "fmax", "fmin", "divide", "true_divide", "floor_divide",
         "remainder", "mod", "fmod", "copysign", "nextafter", "heaviside", "gcd", "lcm", "ldexp"}
FNS = ["add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "remainder", "mod", "power", "pow",
       "float_power", "maximum", "minimum", "fmax", "fmin", "fmod", "arctan2", "hypot", "copysign", "logaddexp",
       "logaddexp2", "nextafter", "heaviside", "gcd", "lcm", "ldexp", "divmod"]
OPS = {"+": ("add", op.add), "-": ("subtract", op.sub), "*": ("multiply", op.mul), "/": ("divide", op.truediv),
       "//": ("floor_divide", op.floordiv), "%": ("remainder", op.mod), "**": ("power", op.pow)}
FLOATY = {"arctan2", "hypot", "copysign", "logaddexp", "logaddexp2", "nextafter", "heaviside", "divmod", "ldexp"}


def dts(src, fn):
    if fn in ("gcd", "lcm"):
        p = G.INTS
    elif fn == "ldexp":
        return src.choice(G.FLOATS), src.choice(["int64", "int32", "int8"])
    elif fn in ("fmod", "floor_divide", "remainder", "mod", "divmod") or fn in FLOATY:
        p = G.REALS
    else:
        p = G.ALL
    a = src.choice(p)
    b = a if src.bool(0.5) else src.choice(p)
    if a == b == "bool" and fn not in ("add", "multiply", "maximum", "minimum", "fmax", "fmin"):
        raise Discard("bool-bool")
    ia, ib = np.dtype(a), np.dtype(b)
    if fn in FLOATY and ia.kind in "iu" and ib.kind in "iu" and ia.kind != ib.kind and max(ia.itemsize, ib.itemsize) <= 2:
        raise Discard("small mixed-sign")
    return a, b


def modes(fn, a, b):
    ka, kb = np.dtype(a).kind, np.dtype(b).kind
    cx = "c" in (ka, kb)
    if fn in ("power", "pow", "float_power"):
        if cx:
            return "nz", "small"
        ints = ka in "iub" and kb in "iub" and fn != "float_power"
        return "any", "nonneg" if ints else "any"
    if cx and fn in ("maximum", "minimum", "fmax", "fmin"):
        return "finite", "finite"
    if cx and fn in ("divide", "true_divide"):
        return "mod", "nz"
    if cx and fn == "multiply":
        return "mod", "mod"
    if fn == "ldexp":
        return "any", "small"
    return "any", "any"


def draw(src, fn):
    da, db = dts(src, fn)
    ma, mb = modes(fn, da, db)
    sa, sb = G.bcast_pair(src)
    A = G.array(src, da, sa, ma, bcast=True)
    B = G.array(src, db, sb, mb, bcast=True)
    src.sig = f"{fn} {da} {db}"
    src.nontrivial = A.n.size > 0 and B.n.size > 0
    ex = fn in EXACT and "c" not in (A.n.dtype.kind, B.n.dtype.kind)
    return A, B, ex


def func(src):
    fn = src.choice(FNS)
    A, B, ex = draw(src, fn)
    src.label(fn)
    src.note(f"{fn}({A!r}, {B!r})")
    differential(src, fn, lambda: getattr(rp, fn)(A.r, B.r), lambda: getattr(np, fn)(A.n, B.n), exact=ex,
                 atol=1e-6 if fn in ("logaddexp", "logaddexp2") else None)  # cancellation near 0


def ref(f):
    return np.power if f is op.pow else f  # NumPy's ** special-cases a 0-d exponent (sqrt, ...), np.power does not


def oper(src):
    o = src.choice(list(OPS))
    fn, f = OPS[o]
    A, B, ex = draw(src, fn)
    src.label(o)
    src.note(f"{A!r} {o} {B!r}")
    differential(src, o, lambda: f(A.r, B.r), lambda: ref(f)(A.n, B.n), exact=ex)


def same(src):
    """Both operands are (views of) the same array."""
    o = src.choice(list(OPS))
    fn, f = OPS[o]
    d, _ = dts(src, fn)
    if d == "bool":
        raise Discard("bool-bool")
    k = np.dtype(d).kind
    m = "pos" if k == "c" or o == "**" else "any"
    n = src.int(2, 40)
    X = G.array(src, d, (n,), m, layout=False)
    sl = [(slice(None), slice(None)), (slice(1, None), slice(None, -1)), (slice(None, None, -1), slice(None)),
          (slice(0, n // 2), slice(n - n // 2, None)), (slice(0, n // 2 * 2, 2), slice(1, None, 2))]
    p, q = src.choice(sl)
    src.sig = f"same {o} {d}"
    src.note(f"x={X!r}; x[{p}] {o} x[{q}]")
    src.nontrivial = True
    before = X.n.copy()
    differential(src, o, lambda: f(X.r[p], X.r[q]), lambda: ref(f)(X.n[p], X.n[q]), exact=fn in EXACT and k != "c")
    if not G.same_bits(np.asarray(X.r), before):
        raise Violation("mutated", f"operand of {o} was modified")


FACETS = {"func": Facet(func, 40000), "oper": Facet(oper, 16000), "same": Facet(same, 8000)}
