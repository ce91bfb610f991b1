"""C06: NaN-aware reductions ignore exactly the NaNs."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, scale_atol, prod_rtol
from .c05 import axis

RULE = ("a float array with frequent NaNs (all-NaN lanes included), a NaN-aware reduction and an axis; non-trivial = the array is "
        "non-empty and the reference accepts")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference; sums and products are compared with a rounding tolerance, order statistics exactly"]
FNS = ["nansum", "nanprod", "nanmin", "nanmax", "nanmean", "nanvar", "nanstd", "nanmedian", "nanargmin", "nanargmax", "nancumsum", "nancumprod"]
EX = {"nanmin", "nanmax", "nanargmin", "nanargmax"}


def func(src):
    fn = src.choice(FNS)
    d = src.choice(["float64", "float64", "float32"] + (["int64", "int32", "bool"] if fn not in ("nancumsum", "nancumprod") else []))
    shp = G.shape(src, zero=0, lo=1)
    mode = {"f": "nanmod", "i": "small", "b": "any"}[d[0]]
    if fn in ("nanprod", "nancumprod"):
        mode = "tiny" if d[0] == "i" else "nantiny" if d[0] == "f" else "any"
    A = G.array(src, d, shp, mode, bcast=True)
    ax = axis(src, len(shp), tup="arg" not in fn and "cum" not in fn)
    if fn == "nanprod" and d[0] == "i" and np.prod(np.abs(A.n).astype(float).clip(1)) > 2**52:
        raise Discard("integer product past 2**52")  # computed in float64
    src.sig = f"{fn} {d} {type(ax).__name__}"
    src.label(fn, f"axis={type(ax).__name__}")
    src.note(f"{fn}({A!r}, axis={ax})")
    src.nontrivial = True
    tol = scale_atol(A.n, power=2 if fn == "nanvar" else 1)
    if fn == "nanstd":
        tol = scale_atol(A.n, power=2) ** 0.5
    if "prod" in fn:
        tol = None
    differential(src, fn, lambda: getattr(rp, fn)(A.r, axis=ax), lambda: getattr(np, fn)(A.n, axis=ax), exact=fn in EX, atol=tol, rtol=prod_rtol(A.n) if "prod" in fn else None,
                 dtype="same")


def quant(src):
    fn = src.choice(["nanpercentile", "nanquantile"])
    d = src.choice(["float64", "float32"])
    shp = G.shape(src, 1, 3, zero=0)
    A = G.array(src, d, shp, "nanmod")
    ax = src.choice([None] + list(range(-len(shp), len(shp))))
    qs = [0, 25, 50, 75, 100, 10, 33.3, 99, 62.5]
    q = src.choice(qs) if src.bool(0.4) else [src.choice(qs) for _ in range(src.int(1, 4))]
    if fn == "nanquantile":
        q = [x / 100 for x in q] if isinstance(q, list) else q / 100
    src.sig = f"{fn} {d} {type(ax).__name__} {len(shp)}"
    src.note(f"{fn}({A!r}, {q}, axis={ax})")
    src.nontrivial = True
    fit = (lambda x: np.asarray(x).reshape(-1)) if not isinstance(q, list) and (len(shp) == 1 or ax is None) else (lambda x: x)
    differential(src, fn, lambda: fit(getattr(rp, fn)(A.r, q, axis=ax)), lambda: fit(getattr(np, fn)(A.n, q, axis=ax)),
                 atol=scale_atol(A.n), dtype=None if isinstance(q, list) else "same", rtol=2e-6 if d == "float32" else 1e-10)


FACETS = {"func": Facet(func, 40000), "quant": Facet(quant, 8000)}
