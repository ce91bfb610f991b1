"""C07: cumulative, difference, integration, interpolation and sliding-window functions."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, scale_atol

RULE = ("arrays of drawn dtype, shape, contents and layout, and the function's parameters (axis, order, spacing, mode); non-trivial = "
        "non-empty input the reference accepts")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference; floating-point results are compared with a rounding tolerance"]


def cum(src):
    fn = src.choice(["cumsum", "cumprod", "cumulative_sum", "cumulative_prod", "m.cumsum", "m.cumprod"])
    d = src.choice(G.ALL)
    shp = G.shape(src, lo=1, zero=0.03)
    mode = "tiny" if "prod" in fn else "mod" if d[0] in "fc" else "any"
    A = G.array(src, d, shp, mode, bcast=True)
    ax = src.choice([None] + list(range(-len(shp), len(shp))))
    kw = {}
    if fn.startswith("cumul"):
        if ax is None:
            ax = 0
        if src.bool(0.4):
            kw["include_initial"] = True
    src.sig = f"{fn} {d} {'none' if ax is None else 'neg' if ax < 0 else 'pos'} {kw}"
    src.label(fn)
    src.note(f"{fn}({A!r}, axis={ax}, {kw})")
    src.nontrivial = A.n.size > 0
    tol = scale_atol(A.n) if "sum" in fn else None
    if fn.startswith("m."):
        if ax is not None:
            ax %= len(shp)
        f = fn[2:]
        differential(src, fn, lambda: getattr(A.r, f)(axis=ax), lambda: getattr(A.n, f)(axis=ax), atol=tol)
    else:
        differential(src, fn, lambda: getattr(rp, fn)(A.r, axis=ax, **kw), lambda: getattr(np, fn)(A.n, axis=ax, **kw), atol=tol)


def diffs(src):
    fn = src.choice(["diff", "diff", "ediff1d", "gradient", "trapezoid", "unwrap"])
    d = src.choice(G.REALS + ["complex128"]) if fn in ("diff", "ediff1d") else src.choice(["float64", "float32", "int64", "int32"])
    shp = G.shape(src, lo=1, zero=0.0)
    A = G.array(src, d, shp, "mod" if d[0] in "fc" else "any" if fn in ("diff", "ediff1d") else "small", bcast=True)
    ax = src.int(-len(shp), len(shp) - 1)
    src.sig = f"{fn} {d} {'neg' if ax < 0 else 'pos'}"
    src.label(fn)
    src.nontrivial = True
    tol = scale_atol(A.n)
    if fn == "diff":
        n = src.int(0, 3)
        src.sig += f" n{n}"
        src.note(f"diff({A!r}, n={n}, axis={ax})")
        differential(src, fn, lambda: rp.diff(A.r, n=n, axis=ax), lambda: np.diff(A.n, n=n, axis=ax), atol=tol)
    elif fn == "ediff1d":
        kw = {}
        for side in ("to_begin", "to_end"):
            if src.bool(0.4):
                e = d if src.bool(0.6) else src.choice(["float64", "int64", "int8", "uint8", "bool", "float32", "complex128"])
                kw[side] = G.array(src, e, G.shape(src, 0, 2, maxdim=3, zero=0), "small")
        src.sig += f" {sorted((k, str(v.n.dtype)) for k, v in kw.items())}"
        src.note(f"ediff1d({A!r}, {kw})")
        differential(src, fn, lambda: rp.ediff1d(A.r, **{k: v.r for k, v in kw.items()}), lambda: np.ediff1d(A.n, **{k: v.n for k, v in kw.items()}), atol=tol, invalid="reject")
    elif fn == "gradient":
        kw, args = {}, []
        if src.bool(0.5):
            kw["axis"] = ax
        k = src.choice(["none", "h", "x"])
        X = None
        if k == "h":
            args = [src.choice([0.5, 2.0, 3.0])]
        elif k == "x":
            kw["axis"] = ax
            X = G.array(src, "float64", (shp[ax],), vals=np.cumsum(np.array([src.choice([0.5, 1.0, 0.25, 2.0]) for _ in range(shp[ax])])))
        src.sig += f" {sorted(kw)} {k}"
        src.note(f"gradient({A!r}, {args or X}, {kw})")
        differential(src, fn, lambda: rp.gradient(A.r, *([X.r] if X else args), **kw),
                     lambda: np.gradient(A.n, *([X.n] if X else args), **kw), atol=tol * 16, dtype=None)
    elif fn == "trapezoid":
        kw = {"axis": ax}
        k = src.choice(["none", "dx", "x"])
        src.sig += f" {k}"
        if k == "dx":
            kw["dx"] = src.choice([0.5, 2.0, 3.0])
        X = None
        if k == "x":
            X = G.array(src, "float64", (shp[ax],), "mod")
        src.note(f"trapezoid({A!r}, x={X!r}, {kw})")
        differential(src, fn, lambda: rp.trapezoid(A.r, *([X.r] if X else []), **kw),
                     lambda: np.trapezoid(A.n, *([X.n] if X else []), **kw), atol=tol * (100 if X else 4), dtype=None)
    else:
        if d != "float64":
            raise Discard("unwrap int")
        kw = {"axis": ax}
        if src.bool(0.3):
            kw["period"] = src.choice([4.0, 2.5, 6.283185307179586])
        if src.bool(0.2):
            kw["discont"] = src.choice([4.0, 3.2, 8.0])
        src.sig += f" {sorted(kw)}"
        src.note(f"unwrap({A!r}, {kw})")
        differential(src, fn, lambda: rp.unwrap(A.r, **kw), lambda: np.unwrap(A.n, **kw), atol=tol * 10, dtype="kind")


def interp(src):
    n = src.int(1, 8)
    xp = np.cumsum(np.array([src.choice([0.5, 1.0, 0.25, 2.0]) for _ in range(n)])) - 2
    fp = G.values(src, "float64", n, "mod")
    XP = G.array(src, "float64", (n,), vals=xp)
    FP = G.array(src, "float64", (n,), vals=fp)
    shp = G.shape(src, 1, 1, zero=0)
    xs = np.array([src.choice([float(v) for v in xp] + [-5.0, 0.0, 0.3, 1.7, 2.2, 3.9, 6.1, 20.0]) for _ in range(shp[0])])
    X = G.array(src, "float64", shp, vals=xs)
    kw = {}
    if src.bool(0.3):
        kw["left"] = -9.0
    if src.bool(0.3):
        kw["right"] = 9.0
    src.sig = f"interp {sorted(kw)} {n == 1}"
    src.note(f"interp({X!r}, {XP!r}, {FP!r}, {kw})")
    src.nontrivial = True
    differential(src, "interp", lambda: rp.interp(X.r, XP.r, FP.r, **kw), lambda: np.interp(X.n, XP.n, FP.n, **kw), atol=1e-11)


def conv(src):
    fn = src.choice(["convolve", "correlate"])
    da = src.choice(["float64", "float32", "int64", "int32", "uint8"])
    db = src.choice([da, "float64"])
    big = src.bool(0.02)  # past the size at which the FFT method takes over
    na, nb = src.int(1, 9), src.int(1, 9)
    if big:  # the full length just around a power of two, or anywhere
        p = src.choice([2048, 4096, 8192])
        nb = -(-500_001 // (p - 700)) + src.below(200)
        na = p - nb + 1 + src.choice([0, 1, -1, 2, 17, nb // 4, nb // 2, -nb // 2])
    if src.bool(0.5):
        na, nb = nb, na
    A = G.array(src, da, (na,), "small")
    B = G.array(src, db, (nb,), "small")
    mode = src.choice(["full", "same", "valid"])
    src.sig = f"{fn} {da} {db} {mode} {'lt' if A.n.size < B.n.size else 'ge'}"
    src.label(fn, mode)
    src.note(f"{fn}({A!r}, {B!r}, {mode})")
    src.nontrivial = A.n.size > 1 and B.n.size > 1
    differential(src, fn, lambda: getattr(rp, fn)(A.r, B.r, mode=mode), lambda: getattr(np, fn)(A.n.astype("float64"), B.n.astype("float64"), mode=mode),
                 atol=scale_atol(A.n, B.n, power=2, extra=100), dtype=None, rtol=1e-5 if "float32" in (da, db) else None)


def cov(src):
    fn = src.choice(["cov", "corrcoef"])
    d = src.choice(["float64", "float32", "int64"])
    shp = (src.int(1, 4), src.int(3, 8)) if src.bool(0.7) else (src.int(3, 9),)
    A = G.array(src, d, shp, "mod" if d[0] == "f" else "small")
    if fn == "corrcoef":
        sd = np.std(A.n, axis=-1)
        if np.any((sd < 1e-3) & (A.n.max(-1) != A.n.min(-1))) or A.n.dtype.kind == "f" and np.any(A.n.max(-1) == A.n.min(-1)):
            raise Discard("degenerate")  # constant rows of integers: 0/0 exactly
    kw = {"ddof": src.int(0, 2)} if fn == "cov" else {}
    if shp[0] == 1 and len(shp) == 2:
        raise Discard("one row")  # answered as a 1x1 matrix (finding)
    src.sig = f"{fn} {d} {len(shp)} {shp[0] == 1}"
    src.note(f"{fn}({A!r}, {kw})")
    src.nontrivial = True
    e = 1e-6 if d == "float32" else 1e-12
    differential(src, fn, lambda: getattr(rp, fn)(A.r, **kw).reshape(np.shape(getattr(np, fn)(A.n, **kw))), lambda: getattr(np, fn)(A.n, **kw),
                 atol=scale_atol(A.n, power=2, extra=64) if fn == "cov" else e * 1e4, dtype=None)


FACETS = {"cum": Facet(cum, 20000), "diffs": Facet(diffs, 20000), "interp": Facet(interp, 6000), "conv": Facet(conv, 10000), "cov": Facet(cov, 4000)}
