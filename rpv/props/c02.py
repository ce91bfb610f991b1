"""C02: elementwise unary mathematics agrees with NumPy."""
import operator as op
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, run, Err, show

RULE = ("one operand with drawn dtype, shape, contents (specials included) and memory layout; non-trivial = operand "
        "non-empty and accepted by the reference")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference"]

# name -> dtypes, value mode
FL = G.FLOATS
RB = G.REALS
CX = G.COMPLEX
T = {}


def reg(names, dts, mode="any", exact=False, **kw):
    for n in names.split():
        T[n] = (dts, mode, exact, kw)


reg("sqrt exp exp2 expm1 log log2 log10 log1p sin cos tan sinh cosh tanh arcsin arccos arctan arcsinh arccosh arctanh "
    "asin acos atan asinh acosh atanh cbrt", RB)
reg("deg2rad rad2deg degrees radians", ["float64", "float32"])
reg("fix", FL, exact=True)
reg("rint", ["float64", "float32"], "halfless", exact=True)
reg("abs absolute negative positive square sign", G.REALS, exact=True)
reg("reciprocal", FL, exact=True)
reg("fabs", FL, exact=True)
reg("signbit", G.REALS + ["bool"], exact=True)
reg("isnan isinf isfinite", G.NUMERIC + ["bool"], exact=True)
reg("isneginf isposinf", G.REALS + ["bool"], exact=True)
reg("floor ceil trunc", G.REALS, exact=True)
reg("real imag conj conjugate", G.NUMERIC, exact=True)
reg("iscomplex isreal", G.NUMERIC + ["bool"], exact=True)
reg("angle", ["complex128"], "finite")
reg("sinc", ["float64", "float32"], "mod")
reg("i0", ["float64", "float32"], "mod", rtol=1e-5)
reg("spacing", ["float64", "float32"], "nonneg", exact=True)
reg("modf frexp", ["float64", "float32"], exact=True)
reg("nan_to_num", FL, exact=True)
CXT = ("sqrt exp log sin cos tan sinh cosh tanh abs absolute negative positive square reciprocal arcsin arccos arctan arcsinh arccosh arctanh asin acos atan asinh acosh atanh "
       "log2 log10 log1p expm1 exp2 sign sinc").split()
INV = "sqrt arcsin arccos arctan arcsinh arccosh arctanh asin acos atan asinh acosh atanh tan tanh sinh cosh sin cos exp".split()
EDGE = [0.0, -0.0, 1e-9, 0.25, 0.5, 0.9999, 1.0, 1.0001, 2.0, 3.0, 17.0]
FAR = [1e5, 1e8, 1e15, 1e-12]
REFUSE = "deg2rad rad2deg degrees radians i0 spacing modf frexp".split()
OPS = {"neg": op.neg, "abs": abs}


def func(src):
    fn = src.choice(sorted(T))
    dts, mode, exact, kw = T[fn]
    d = src.choice(dts)
    A = G.array(src, d, G.shape(src), mode, bcast=True)
    src.sig = f"{fn} {d}"
    src.label(fn)
    src.note(f"{fn}({A!r})")
    src.nontrivial = A.n.size > 0
    differential(src, fn, lambda: getattr(rp, fn)(A.r), lambda: getattr(np, fn)(A.n), exact=exact, signzero=exact and fn not in ("sign",), **kw)


def cplx(src):
    fn = src.choice(CXT)
    d = src.choice(CX)
    A = G.array(src, d, G.shape(src), "nz" if fn in ("log", "reciprocal") else "small", bcast=True)
    src.sig = f"{fn} {d}"
    src.note(f"{fn}({A!r})")
    src.nontrivial = A.n.size > 0
    kw = {"rtol": 1e-4, "atol": 1e-6} if fn == "sinc" and d == "complex64" else {}
    differential(src, fn, lambda: getattr(rp, fn)(A.r), lambda: getattr(np, fn)(A.n), **kw)


def branch(src):
    """Complex functions near and on their branch cuts: both parts, and the sign of the zero that picks the side."""
    fn = src.choice(INV)
    d = src.choice(CX)
    shp = G.shape(src, 0, 2, zero=0.0)
    n = int(np.prod(shp, dtype=int))
    vs = EDGE + (FAR if fn in ("sqrt", "arcsin", "arccos", "arcsinh", "arccosh", "asin", "acos", "asinh", "acosh") else [])
    part = lambda: src.choice([1, -1]) * src.choice(vs)
    z = np.array([complex(part(), part()) for _ in range(n)], dtype=d).reshape(shp)
    A = G.array(src, d, shp, vals=z)
    src.sig = f"{fn} {d}"
    src.note(f"{fn}({A!r})")
    src.nontrivial = n > 0
    with np.errstate(all="ignore"):
        e = np.asarray(getattr(np, fn)(A.n))
    r = run(lambda: getattr(rp, fn)(A.r))
    if isinstance(r, Err):
        raise Violation("raises", f"{fn}: {r}")
    g = np.array(np.asarray(r))
    if g.shape != e.shape or g.dtype != e.dtype:
        raise Violation("dtype", f"{fn}: got {g.dtype}{g.shape}, expected {e.dtype}{e.shape}")
    rt = 2e-9 if d == "complex128" else 3e-3
    at = 1e-14 if d == "complex128" else 1e-5
    for part, x, y in (("real", g.real, e.real), ("imag", g.imag, e.imag)):
        ok = (x == y) | np.isnan(x) & np.isnan(y) | (np.abs(x - y) <= at + rt * np.abs(y)) | ~np.isfinite(y) | ~np.isfinite(e.real) | ~np.isfinite(e.imag)
        if not ok.all():
            i = np.argwhere(~ok)[0]
            raise Violation("value", f"{fn}({A.n[tuple(i)]!r}): {part} part {x[tuple(i)]!r}, expected {y[tuple(i)]!r}")


def refuse(src):
    """Functions that are only defined on real numbers refuse complex input instead of losing its imaginary part."""
    fn = src.choice(REFUSE)
    A = G.array(src, src.choice(CX), G.shape(src, zero=0.0), "small", bcast=True)
    src.sig = f"{fn} {A.n.dtype}"
    src.note(f"{fn}({A!r})")
    src.nontrivial = True
    r = run(lambda: getattr(rp, fn)(A.r))
    if not isinstance(r, Err) or r.panic:
        raise Violation("accepts", f"{fn}({A!r}) gave {show(r)}, expected a TypeError")


def oper(src):
    o = src.choice(list(OPS))
    d = src.choice(G.NUMERIC)
    A = G.array(src, d, G.shape(src), "any", bcast=True)
    if o == "abs" and d in CX:
        raise Discard("c-abs")
    src.sig = f"{o} {d}"
    src.note(f"{o} {A!r}")
    src.nontrivial = A.n.size > 0
    differential(src, o, lambda: OPS[o](A.r), lambda: OPS[o](A.n), exact=True)


def params(src):
    """Functions with parameters: clip, round (no ties), nan_to_num, angle(deg)."""
    fn = src.choice(["clip", "round", "nan_to_num", "angle", "mclip", "mround"])
    if fn in ("clip", "mclip"):
        d = src.choice(G.REALS)
        A = G.array(src, d, G.shape(src), "f53", bcast=True)
        lim = 100 if np.dtype(d).kind != "u" else 100
        lo0 = 0 if np.dtype(d).kind == "u" else -lim
        lo = src.choice([None, 1, 2, 0, 3] + ([-2, -1, -5] if lo0 else []))
        hi = src.choice([None, 5, 3, 1, 10, 7])
        if lo is None and hi is None:
            raise Discard("clip-none")
        src.sig = f"{fn} {d}"
        src.note(f"clip({A!r}, {lo}, {hi})")
        src.nontrivial = A.n.size > 0
        if fn == "clip":
            differential(src, fn, lambda: rp.clip(A.r, lo, hi), lambda: np.clip(A.n, lo, hi), exact=True)
        else:
            differential(src, fn, lambda: A.r.clip(lo, hi), lambda: A.n.clip(lo, hi), exact=True)
        return
    if fn in ("round", "mround"):
        d = src.choice(["float64", "float32", "complex128", "complex64"])
        A = G.array(src, d, G.shape(src), "halfless" if d[0] == "f" else "small", bcast=True)
        if d[0] == "c":
            v = A.n.copy()
            A = G.array(src, d, v.shape, vals=v * 0.771357)
        k = src.choice([0, 1, 2, -1, 3])
        src.sig = f"{fn} {d}"
        src.note(f"round({A!r}, {k})")
        src.nontrivial = A.n.size > 0
        if fn == "round":
            differential(src, fn, lambda: rp.round(A.r, k), lambda: np.round(A.n, k))
        else:
            differential(src, fn, lambda: A.r.round(k), lambda: A.n.round(k))
        return
    if fn == "nan_to_num":
        d = src.choice(["float64", "float32"])
        A = G.array(src, d, G.shape(src), "anyquarter", bcast=True)
        kw = {}
        for key in ("nan", "posinf", "neginf"):
            if src.bool(0.5):
                kw[key] = src.choice([0.0, 1.0, -2.0, 100.5])
        src.sig = f"{fn} {d}"
        src.note(f"nan_to_num({A!r}, {kw})")
        src.nontrivial = A.n.size > 0
        differential(src, fn, lambda: rp.nan_to_num(A.r, **kw), lambda: np.nan_to_num(A.n, **kw), exact=True)
        return
    if fn == "angle":
        d = src.choice(["complex128", "float64"])
        A = G.array(src, d, G.shape(src), "finite" if d == "complex128" else "nz", bcast=True)
        src.sig = f"{fn} {d}"
        src.note(f"angle({A!r}, deg=True)")
        src.nontrivial = A.n.size > 0
        differential(src, fn, lambda: rp.angle(A.r, deg=True), lambda: np.angle(A.n, deg=True))
        return


FACETS = {"func": Facet(func, 40000), "cplx": Facet(cplx, 8000), "branch": Facet(branch, 12000), "refuse": Facet(refuse, 600), "oper": Facet(oper, 6000), "params": Facet(params, 10000)}
