"""C03: comparisons, logical and bitwise operations, tolerance tests and array equality agree with NumPy."""
import operator as op
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential

RULE = ("operands with independently drawn dtype, broadcast-compatible shapes, contents (NaN, infinities, extreme and "
        "equal values) and memory layouts; non-trivial = all operands non-empty and the reference accepts the call")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference"]
CMP = ["equal", "not_equal", "less", "less_equal", "greater", "greater_equal"]
COPS = {"==": op.eq, "!=": op.ne, "<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge}
LOG = ["logical_and", "logical_or", "logical_xor"]
BIT = ["bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift"]
BOPS = {"&": op.and_, "|": op.or_, "^": op.xor, "<<": op.lshift, ">>": op.rshift}


def pair(src, p, ma="any", mb=None, samep=0.5, **kw):
    a = src.choice(p)
    b = a if src.bool(samep) else src.choice(p)
    sa, sb = G.bcast_pair(src)
    A = G.array(src, a, sa, ma, bcast=True)
    B = G.array(src, b, sb, mb or ma, bcast=True)
    src.nontrivial = A.n.size > 0 and B.n.size > 0
    return A, B


def compare_(src):
    m = src.choice(["any", "tiny", "small"])
    pool = G.REALB if src.bool(0.85) else G.COMPLEX
    A, B = pair(src, pool, m)
    cx = A.n.dtype.kind == "c"
    if src.bool(0.5):
        fn = src.choice(CMP[:2] if cx else CMP)
        f, g = getattr(rp, fn), getattr(np, fn)
    else:
        fn = src.choice(list(COPS)[:2] if cx else list(COPS))
        f = g = COPS[fn]
    src.sig = f"{fn} {A.n.dtype} {B.n.dtype}"
    src.label(fn)
    src.note(f"{fn}({A!r}, {B!r})")
    differential(src, fn, lambda: f(A.r, B.r), lambda: g(A.n, B.n), exact=True)


def logical(src):
    A, B = pair(src, G.REALB, src.choice(["any", "tiny"]))
    fn = src.choice(LOG + ["logical_not"])
    src.sig = f"{fn} {A.n.dtype} {B.n.dtype}"
    src.label(fn)
    src.note(f"{fn}({A!r}, {B!r})")
    if fn == "logical_not":
        differential(src, fn, lambda: rp.logical_not(A.r), lambda: np.logical_not(A.n), exact=True)
    else:
        differential(src, fn, lambda: getattr(rp, fn)(A.r, B.r), lambda: getattr(np, fn)(A.n, B.n), exact=True)


def bitwise(src):
    fn = src.choice(BIT + list(BOPS) + ["invert", "bitwise_not", "~"])
    sh = fn in ("left_shift", "right_shift", "<<", ">>")
    p = G.INTS if sh else G.INTS + G.BOOL
    A, B = pair(src, p, "any", "nonneg" if sh else "any", samep=0.5)
    src.sig = f"{fn} {A.n.dtype} {B.n.dtype}"
    src.label(fn)
    src.note(f"{fn}({A!r}, {B!r})")
    if fn in ("invert", "bitwise_not", "~"):
        f, g = (op.invert, op.invert) if fn == "~" else (getattr(rp, fn), getattr(np, fn))
        differential(src, fn, lambda: f(A.r), lambda: g(A.n), exact=True)
        return
    f, g = (BOPS[fn], BOPS[fn]) if fn in BOPS else (getattr(rp, fn), getattr(np, fn))
    differential(src, fn, lambda: f(A.r, B.r), lambda: g(A.n, B.n), exact=True)


def close(src):
    fn = src.choice(["isclose", "allclose", "array_equal"])
    d = src.choice(["float64", "float32"] + G.SINTS)
    sa, sb = G.bcast_pair(src)
    A = G.array(src, d, sa, "anyquarter" if d.startswith("f") else "tiny", bcast=True)
    if src.bool(0.6):  # nearly equal
        base = A.n
        if d.startswith("f"):
            eps = G.values(src, d, base.size, "tiny").reshape(base.shape) * src.choice([1e-9, 1e-6, 1e-5, 1e-3])
            v = np.where(np.isfinite(base), base + eps, base).astype(d)
        else:
            v = base.copy()
        B = G.array(src, d, base.shape, vals=v)
    else:
        B = G.array(src, d, sb, "anyquarter" if d.startswith("f") else "tiny", bcast=True)
    src.nontrivial = A.n.size > 0 and B.n.size > 0
    kw = {}
    if fn != "array_equal":
        if src.bool(0.5):
            kw = {"rtol": src.choice([1e-3, 1e-7, 0.5]), "atol": src.choice([0.0, 1e-8, 1e-4])}
        if src.bool(0.4):
            kw["equal_nan"] = True
    src.sig = f"{fn} {d} {sorted(kw)}"
    src.label(fn)
    src.note(f"{fn}({A!r}, {B!r}, {kw})")
    if fn != "array_equal" and d.startswith("f"):
        # skip the borderline, where one rounding decides
        rt, at = kw.get("rtol", 1e-5), kw.get("atol", 1e-8)
        with np.errstate(all="ignore"):
            l = np.abs(A.n.astype("f8") - B.n.astype("f8"))
            r_ = at + rt * np.abs(B.n.astype("f8"))
            if np.any(np.abs(l - r_) <= 1e-6 * r_):
                raise Discard("borderline")
    differential(src, fn, lambda: getattr(rp, fn)(A.r, B.r, **kw), lambda: getattr(np, fn)(A.n, B.n, **kw), exact=True)


def where_(src):
    cs, xs = G.bcast_pair(src)
    d1 = src.choice(G.ALL)
    d2 = d1 if src.bool(0.6) else src.choice(G.ALL)
    C = G.array(src, src.choice(["bool", "bool", "bool", "int64", "float64"]), cs, "tiny", bcast=True)
    X = G.array(src, d1, xs, "any", bcast=True)
    Y = G.array(src, d2, src.choice([xs, cs, ()]), "any", bcast=True)
    src.sig = f"where {C.n.dtype} {d1} {d2}"
    src.note(f"where({C!r}, {X!r}, {Y!r})")
    src.nontrivial = C.n.size > 0 and X.n.size > 0 and Y.n.size > 0
    differential(src, "where", lambda: rp.where(C.r, X.r, Y.r), lambda: np.where(C.n, X.n, Y.n), exact=True)


def scalar(src):
    """An array against a Python or NumPy number, on either side."""
    d = src.choice(G.ALL)
    A = G.array(src, d, G.shape(src, 0, 3), src.choice(["any", "tiny"]))
    pool = [0, 1, -1, 2, 0.5, -1.5, 300, -129, 2**31, 2**53 + 1, 2**63 - 1, -2**63, 2**63, 2**64 - 1, 0.1, float("nan"), float("inf"), True, False, 3.0]
    s = src.choice(pool + ([1j, 1 + 2j] if A.n.dtype.kind == "c" else []))
    if A.n.size and src.bool(0.5):
        s = A.n.flat[src.below(A.n.size)].item()
        if isinstance(s, int) and not isinstance(s, bool) and src.bool(0.3):
            s += src.choice([1, -1])
        if isinstance(s, float) and d != "float64":
            s = float(s)
    if isinstance(s, int) and not isinstance(s, bool) and abs(s) > 2**53 and A.n.dtype.kind in "fc":
        s = float(s) if A.n.dtype.kind == "f" else 1
    if A.n.dtype.kind == "b" and isinstance(s, int) and not isinstance(s, bool) and abs(s) > 2**40:
        s = 2
    if not -2**63 <= (s if isinstance(s, int) else 0) < 2**64:
        s = 0
    if d == "uint64" and isinstance(s, int) and s < 0:
        s = src.choice([-1, -2**63])
    cx = A.n.dtype.kind == "c" or isinstance(s, complex)
    rev = src.bool(0.4)
    if src.bool(0.4):
        fn = src.choice(CMP[:2] if cx else CMP)
        f, g = getattr(rp, fn), getattr(np, fn)
    else:
        fn = src.choice(list(COPS)[:2] if cx else list(COPS))
        f = g = COPS[fn]
    if d == "float16" and isinstance(s, (int, float)) and s == s and abs(s) > 60000 and abs(s) != float("inf"):
        s = 100
    if d == "float32" and isinstance(s, float) and abs(s) > 3e38 and abs(s) != float("inf"):
        s = 0.1
    src.sig = f"{fn} {d} {type(s).__name__} {rev}"
    src.note(f"{fn}({A!r}, {s!r}) reversed={rev}")
    src.nontrivial = A.n.size > 0
    with np.errstate(all="ignore"):
        differential(src, fn, lambda: f(s, A.r) if rev else f(A.r, s), lambda: g(s, A.n) if rev else g(A.n, s), exact=True)


NEAR = [2**53, 2**62, 2**63 - 1, 2**31, 2**32 - 1, 2**24, 255, 127, 2**63 - 1024]


def near(src):
    """Integers of different types that differ by one or not at all, at the limits of float precision."""
    shp = G.shape(src, 1, 2)
    n = int(np.prod(shp))
    da, db = src.choice(G.INTS), src.choice(G.INTS)
    ca, cb = np.iinfo(da), np.iinfo(db)

    def val(c, base, off):
        v = base + off
        return min(max(v, int(c.min)), int(c.max))
    base = [src.choice(NEAR) * src.choice([1, 1, -1]) for _ in range(n)]
    va = np.array([val(ca, b, src.choice([0, 0, 1, -1])) for b in base], da).reshape(shp)
    vb = np.array([val(cb, b, src.choice([0, 0, 1, -1])) for b in base], db).reshape(shp)
    A, B = G.array(src, da, shp, vals=va), G.array(src, db, shp, vals=vb)
    fn = src.choice(CMP)
    src.sig = f"{fn} {da} {db}"
    src.note(f"{fn}({A!r}, {B!r})")
    src.nontrivial = n > 0
    differential(src, fn, lambda: getattr(rp, fn)(A.r, B.r), lambda: getattr(np, fn)(A.n, B.n), exact=True)


WORDS = ["", "a", "b", "ab", "abc", "abd", "B", "é", "zz", "aa", " ", "a ", "longer word"]


def text(src):
    """Arrays of strings and of bytes compare by their text."""
    sa, sb = G.bcast_pair(src, hi=2)
    by = src.bool(0.3)
    mk = lambda shp: np.array([src.choice(WORDS) for _ in range(int(np.prod(shp)))] or [""], dtype=str)[:int(np.prod(shp))].reshape(shp)
    a, b = mk(sa), mk(sb)
    if by:
        a, b = (np.char.encode(x, "latin-1") for x in (a, b))
    if a.size == 0 or b.size == 0:
        raise Discard
    fn = src.choice(CMP)
    how = src.choice(["op", "func"])
    src.sig = f"{fn} {'bytes' if by else 'str'} {how}"
    src.note(f"{fn}({a.tolist()}, {b.tolist()}) of {a.dtype}, {b.dtype}")
    src.nontrivial = True
    ops = dict(zip(CMP, COPS.values()))
    f = ops[fn] if how == "op" else getattr(rp, fn)
    differential(src, fn, lambda: f(rp.array(a), rp.array(b)), lambda: ops[fn](a, b), exact=True)


def wherescalar(src):
    """where with numbers among its operands."""
    C = G.array(src, "bool", G.shape(src, 0, 3))
    d = src.choice(G.ALL)
    X = G.array(src, d, C.n.shape)
    k = src.choice(["xs", "sx", "ss"])
    num = lambda: src.choice([0, 1, -1, 2.5, 100, True, 2**53 + 1, 0.0, float("nan")])
    s, t = num(), num()
    for v in (s, t):
        if isinstance(v, int) and not isinstance(v, bool) and k != "ss" and d[0] in "iuf" and not (
                d[0] in "iu" and np.iinfo(d).min <= v <= np.iinfo(d).max or d[0] == "f" and abs(v) < 1000):
            raise Discard
    rx, nx = {"xs": ((X.r, s), (X.n, s)), "sx": ((s, X.r), (s, X.n)), "ss": ((s, t), (s, t))}[k]
    if k == "ss" and isinstance(s, bool) != isinstance(t, bool):
        raise Discard
    src.sig = f"where {k} {d} {type(s).__name__}"
    src.note(f"where({C!r}, {nx})")
    src.nontrivial = C.n.size > 0
    differential(src, "where", lambda: rp.where(C.r, *rx), lambda: np.where(C.n, *nx), exact=True)


FACETS = {"compare": Facet(compare_, 20000), "logical": Facet(logical, 8000), "bitwise": Facet(bitwise, 16000),
          "close": Facet(close, 10000), "where": Facet(where_, 8000),
          "scalar": Facet(scalar, 12000), "near": Facet(near, 6000), "text": Facet(text, 5000), "wherescalar": Facet(wherescalar, 5000)}
