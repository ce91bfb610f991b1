"""C05: reductions agree with NumPy over every axis, layout and dtype."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, scale_atol, prod_rtol

RULE = ("an array (drawn dtype, shape up to 4-d, contents, layout), a reduction, an axis (None, any single axis incl. negative, or a "
        "tuple) and keepdims; non-trivial = array non-empty, reference accepts")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference; sums and products are compared with a rounding tolerance, order statistics exactly"]
FNS = ["sum", "prod", "min", "max", "mean", "var", "std", "any", "all", "argmin", "argmax", "count_nonzero", "ptp", "amin", "amax", "median", "average"]
METH = ["sum", "prod", "min", "max", "mean", "var", "std", "any", "all", "argmin", "argmax", "ptp"]
NO16 = {"var", "std", "median", "average", "ptp"}  # half-precision moments are accumulated in another precision
EX = {"min", "max", "amin", "amax", "any", "all", "argmin", "argmax", "count_nonzero", "ptp"}


def axis(src, nd, tup=True):
    k = src.weighted([(3, "none"), (5, "one"), (2, "neg"), (2 if tup else 0, "tuple")])
    if k == "none" or nd == 0:
        return None
    if k == "one":
        return src.below(nd)
    if k == "neg":
        return -1 - src.below(nd)
    return tuple(src.subset(range(nd), 0.6)) or None


def mode(fn, d):
    if fn == "ptp":
        return "any" if d in ("float64", "bool") else "small"
    if fn in ("prod",):
        return "tiny"
    if fn in EX:
        return "any"
    return "mod" if d[0] in "fc" else "mid"


def tol(fn, A):
    if fn in ("var", "std"):
        t = scale_atol(A.n, power=2)
        return t ** 0.5 if fn == "std" else t
    return scale_atol(A.n)


def no_overflow(fn, A):
    """Floating products that overflow part-way depend on the order of evaluation (inf * 0)."""
    if fn == "prod" and A.n.dtype.kind in "fc":
        if np.prod(np.maximum(np.abs(A.n).astype(float), 1)) > float(np.finfo(A.n.dtype).max) / 4:
            raise Discard("overflowing product")


def func(src):
    fn = src.choice(FNS)
    d = src.choice(G.ALL if fn in ("sum", "prod", "mean") else [x for x in G.REALB if x != "float16"] if fn in NO16 else G.REALB)
    shp = G.shape(src, zero=0.03)
    A = G.array(src, d, shp, mode(fn, d), bcast=True)
    if fn == "median" and A.n.size == 0:
        raise Discard("empty")
    ax = axis(src, len(shp), tup=fn not in ("average", "argmin", "argmax"))
    src.sig = f"{fn} {d} {type(ax).__name__}"
    src.label(fn, f"axis={type(ax).__name__}")
    src.note(f"{fn}({A!r}, axis={ax})")
    src.nontrivial = A.n.size > 0
    no_overflow(fn, A)
    if fn == "count_nonzero":
        differential(src, fn, lambda: rp.count_nonzero(A.r), lambda: np.count_nonzero(A.n), exact=True)
        return
    nf = getattr(np, fn)
    differential(src, fn, lambda: getattr(rp, fn)(A.r, axis=ax), lambda: nf(A.n, axis=ax), exact=fn in EX and not (fn == "ptp" and d == "float32"), atol=tol(fn, A), rtol=prod_rtol(A.n) if fn == "prod" else None,
                 dtype="same")


def meth(src):
    fn = src.choice(METH)
    d = src.choice(G.ALL if fn in ("sum", "prod", "mean") else [x for x in G.REALB if x != "float16"] if fn in NO16 else G.REALB)
    shp = G.shape(src, zero=0.03)
    A = G.array(src, d, shp, mode(fn, d), bcast=True)
    ax = axis(src, len(shp), tup=False)
    if fn == "ptp" and ax is not None:
        ax %= len(shp)
    kw = {"axis": ax}
    if fn not in ("argmin", "argmax", "ptp") and src.bool(0.5):
        kw["keepdims"] = True
    src.sig = f"{fn} {d} {type(ax).__name__} {sorted(kw)}"
    src.label(fn)
    src.note(f"{A!r}.{fn}({kw})")
    src.nontrivial = A.n.size > 0
    no_overflow(fn, A)
    if fn == "ptp":
        differential(src, fn, lambda: A.r.ptp(**kw), lambda: np.ptp(A.n, **kw), exact=d != "float32")
        return
    differential(src, fn, lambda: getattr(A.r, fn)(**kw), lambda: getattr(A.n, fn)(**kw), exact=fn in EX and not (fn == "ptp" and d == "float32"), atol=tol(fn, A), rtol=prod_rtol(A.n) if fn == "prod" else None,
                 dtype="same")


def wavg(src):
    d = src.choice(["float64", "float32", "int64"])
    shp = G.shape(src, 1, 3, zero=0)
    A = G.array(src, d, shp, "mod" if d[0] == "f" else "small")
    ax = src.choice([None] + list(range(len(shp))))
    ws = shp if ax is None or src.bool(0.5) else (shp[ax],)
    W = G.array(src, "float64", ws, "pos")
    src.sig = f"average {d} {type(ax).__name__} {'same' if ws == shp else '1d'}"
    src.note(f"average({A!r}, axis={ax}, weights={W!r})")
    src.nontrivial = True
    differential(src, "average", lambda: rp.average(A.r, axis=ax, weights=W.r), lambda: np.average(A.n, axis=ax, weights=W.n), atol=scale_atol(A.n, W.n))


def quant(src):
    fn = src.choice(["percentile", "quantile"])
    d = src.choice(["float64", "float32", "int64", "int32"])
    shp = G.shape(src, 1, 3, zero=0)
    A = G.array(src, d, shp, src.choice(["mod", "mod", "nanmod"]) if d[0] == "f" else "small", bcast=True)
    ax = src.choice([None] + list(range(-len(shp), len(shp))))
    qs = [0, 25, 50, 75, 100, 10, 33.3, 99, 62.5]
    q = src.choice(qs) if src.bool(0.5) else [src.choice(qs) for _ in range(src.int(1, 4))]
    if fn == "quantile":
        q = q / 100 if not isinstance(q, list) else [x / 100 for x in q]
    src.sig = f"{fn} {d} {type(ax).__name__} {type(q).__name__}"
    src.note(f"{fn}({A!r}, {q}, axis={ax})")
    src.nontrivial = True
    one = not isinstance(q, list)
    # a scalar q is answered with a length-1 array when the result would be 0-d (finding F-quant-scalar)
    fit = (lambda x: np.asarray(x).reshape(-1)) if one and (ax is None or len(shp) == 1) else (lambda x: x)
    differential(src, fn, lambda: fit(getattr(rp, fn)(A.r, q, axis=ax)), lambda: fit(getattr(np, fn)(A.n, q, axis=ax)),
                 atol=scale_atol(A.n), rtol=2e-6 if d == "float32" else 1e-10)


FACETS = {"func": Facet(func, 30000), "meth": Facet(meth, 20000), "wavg": Facet(wavg, 4000), "quant": Facet(quant, 6000)}
