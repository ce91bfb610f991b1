"""C28: the printed form of an array."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G

RULE = "the printed form of an array of drawn dtype, shape and memory layout; non-trivial = at least two elements"
ASSUMPTIONS = ["lines are not wrapped, and elements are formatted one by one and padded to a common width (NumPy wraps at 75 columns and gives floats a common number of digits); "
               "integers and booleans are compared with NumPy's text with wrapping off",
               "floats show up to eight decimals (four for float16), in scientific form below 1e-4 and from 1e16 on"]
INTS = ["int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "bool"]
WIDE = 10**9


def shape(src):
    k = src.weighted([(6, "small"), (3, "long"), (4, "big"), (1, "edge")])
    if k == "small":
        return G.shape(src, 0, 4, maxdim=9, maxsize=400)
    if k == "long":
        return (src.choice([999, 1000, 1001, 1002, 1005, 1200, 2000, 3001]),)
    if k == "edge":     # exactly at the threshold
        return src.choice([(10, 100), (100, 10), (1000, 1), (1, 1000), (10, 10, 10), (7, 143), (143, 7), (1001, 1), (1, 1001), (4, 251), (2, 501), (20, 50, 1), (5, 5, 41), (40, 5, 5)])
    nd = src.int(2, 4)
    out = [src.choice([1, 2, 3, 5, 6, 7, 8, 9]) for _ in range(nd)]
    out[src.below(nd)] = src.choice([40, 100, 150, 300, 500])
    return tuple(out) if np.prod(out) <= 20000 else (7, 200)


def start(src, A):
    src.note(f"print {str(A.n.dtype)} {A.n.shape} {A.lay}" + (f" {A.n.tolist()!r}" if A.n.size <= 60 else ""))
    src.sig = f"{A.n.dtype} {A.n.ndim}d {'big' if A.n.size > 1000 else 'small'}"
    src.nontrivial = A.n.size >= 2


def same(what, got, want):
    if got != want:
        g, w = got.split("\n"), want.split("\n")
        i = next((i for i, (x, y) in enumerate(zip(g, w)) if x != y), min(len(g), len(w)))
        raise Violation("value", f"{what}: line {i} is {(g[i] if i < len(g) else None)!r:.200}, expected {(w[i] if i < len(w) else None)!r:.200}")


def ints(src):
    """Integers and booleans print as NumPy prints them."""
    A = G.array(src, src.choice(INTS), shape(src), src.choice(["any", "small"]), bcast=True)
    start(src, A)
    with np.printoptions(linewidth=WIDE, threshold=1000, edgeitems=3):
        same("repr", repr(A.r), repr(A.n))
        same("str", str(A.r), str(A.n))
    same("format", f"{A.r}", str(A.r))


def laid_out(shp, token, sep, prefix):
    """The text NumPy's layout gives when element k (in logical order) is token(k), padded to the widest one shown."""
    ks = np.arange(int(np.prod(shp, dtype=int))).reshape(shp)
    seen = []
    opt = dict(max_line_width=WIDE, threshold=1000, edgeitems=3, separator=sep, prefix=prefix)
    np.array2string(ks, formatter={"all": lambda k: (seen.append(int(k)), "0")[1]}, **opt)
    toks = {k: token(k) for k in set(seen)}
    w = max(map(len, toks.values()), default=0)
    return np.array2string(ks, formatter={"all": lambda k: toks[int(k)].rjust(w)}, **opt)


def arranged(A, token, name):
    """repr and str lay the tokens of the elements out in the array's shape."""
    n = A.n
    body = laid_out(n.shape, token, ", ", "array(") if n.size else "[]"
    suf = []
    if n.size > 1000 or (n.size == 0 and n.ndim > 1):
        suf.append(f"shape={n.shape}")
    if n.size == 0 or name not in ("float64", "int64", "bool"):
        suf.append(f"dtype={name}")
    same("repr", repr(A.r), "array(" + ", ".join([body] + suf) + ")")
    same("str", str(A.r), laid_out(n.shape, token, " ", "") if n.size else "[]")
    same("format", f"{A.r}", str(A.r))


def real(what, t, v, digits, cx=False):
    """The text t of a float reads back to v within the digits shown."""
    try:
        x = float(t)
    except ValueError:
        raise Violation("value", f"{what}: {t!r} does not read as a number; the element is {v!r}") from None
    w, v = v, float(v)
    bad = None
    if np.isnan(v):
        bad = not np.isnan(x)
    elif np.isinf(v):
        bad = x != v
    else:
        m = abs(v)
        tol = 0.5001 * 10.0 ** -digits * (1 if m == 0 or 1e-4 <= m < 1e16 else m if m < 1 else m)
        if not (m == 0 or 1e-4 <= m < 1e16):
            tol = 0.5001 * 10.0 ** -digits * 10.0 ** np.floor(np.log10(m)) * (1 + 1e-12)
            tol = max(tol, 5e-324)
        tol = max(tol, 0.501 * float(np.spacing(np.abs(w))))     # the shortest text that reads back to the element itself
        # more digits than these are noise: at most `digits` after the point
        frac = t.split("e")[0].partition(".")[2]
        bad = not abs(x - v) <= tol or len(frac) > digits or frac.endswith("0") or "." not in t
        bad = bad or np.signbit(x) != np.signbit(v)
    if bad:
        raise Violation("value", f"{what}: shows {t!r}; the element is {v!r}")


def floats(src):
    """Each float reads back to the element (to the decimals shown), in its place."""
    d = src.choice(["float64", "float64", "float32", "float16"])
    A = G.array(src, d, shape(src), src.choice(["any", "any", "finite", "small"]), bcast=True)
    start(src, A)
    flat = A.n.ravel()

    def token(k):
        t = str(rp.asarray(np.array(flat[k], dtype=d)))
        real("0-d " + d, t, flat[k], 4 if d == "float16" else 8)
        return t
    arranged(A, token, d)


def complexes(src):
    """Each complex number shows both parts, with their signs."""
    d = src.choice(["complex128", "complex64"])
    A = G.array(src, d, shape(src), src.choice(["any", "any", "finite", "small"]), bcast=True)
    start(src, A)
    flat = A.n.ravel()

    def token(k):
        t = str(rp.asarray(np.array(flat[k], dtype=d)))
        if t[:1] != "(" or t[-2:] != "j)":
            raise Violation("value", f"complex: {t!r}")
        b = t[1:-2]
        cut = max((i for i in range(1, len(b)) if b[i] in "+-" and b[i - 1] != "e"), default=None)
        if cut is None:
            raise Violation("value", f"complex: {t!r} has one part; the element is {flat[k]!r}")
        real("real part", b[:cut], flat[k].real, 8)
        im = b[cut:]
        real("imaginary part", im[1:] if im[0] == "+" else im, flat[k].imag, 8)
        return t
    arranged(A, token, d)


UNITS = {"Y": "year", "M": "month", "W": "week", "D": "day", "h": "hour", "m": "minute", "s": "second", "ms": "millisecond", "us": "microsecond", "ns": "nanosecond"}


def texts(src):
    """Strings and bytes in quotes, dates as NumPy writes them, durations with their unit."""
    k = src.choice(["U", "S", "M", "m"])
    shp = shape(src)
    size = int(np.prod(shp, dtype=int))
    if k in "US":
        w = src.int(1, 6)
        abc = ["", "a", "bc", "Def", "1", " x", "é", "日本", "€a", "-", "longer"] if k == "U" else ["", "a", "bc", "Def", "1", " x", "-", "longer"]
        vs = [src.choice(abc)[:w] for _ in range(min(size, 12))]
        a = np.resize(np.array(vs or ["a"], dtype=f"{k}{w}"), shp)
        name = {"U": "str", "S": "bytes"}[k]
    else:
        u = src.choice(list(UNITS))
        lim = {"Y": 1900, "M": 20000, "W": 90000, "D": 700000, "h": 10**7, "m": 10**9, "s": 5 * 10**10, "ms": 10**13, "us": 10**16, "ns": 9 * 10**18}[u]
        vs = [src.choice([0, 1, -1, -2**63, src.int(-lim, lim), src.int(-lim, lim), src.int(-1000, 1000)]) for _ in range(min(size, 12))]
        a = np.resize(np.array(vs or [0], dtype="i8"), shp).view(f"{k}8[{u}]")
        name = f"{'datetime' if k == 'M' else 'timedelta'}64[{u}]"
    r = rp.asarray(np.ascontiguousarray(a).reshape(shp))
    n, lay = a, "C"
    if len(shp) and size and src.bool(0.5):
        key = tuple(slice(None, None, src.choice([1, 2, -1, -2])) for _ in shp)
        n, r, lay = a[key], r[key if len(shp) > 1 else key[0]], f"{key}"
        if src.bool(0.5):
            n, r, lay = n.T, r.T, lay + ".T"
    A = G.Arr(r, n, lay)
    start(src, A)
    flat = n.ravel()

    def token(i):
        if k == "U":
            return f"'{flat[i]}'"
        if k == "S":
            return f"b'{flat[i].decode()}'"
        v = int(flat[i].astype("i8"))
        if v == -2**63:
            return "NaT"
        if k == "M":
            return str(flat[i])
        return f"{v} {UNITS[u]}{'' if abs(v) == 1 else 's'}"
    arranged(A, token, name)


def dtypes(src):
    """The printed form of a dtype names it."""
    d = src.choice(INTS + ["float64", "float32", "float16", "complex64", "complex128"] + [f"{k}64[{u}]" for k in ("datetime", "timedelta") for u in UNITS])
    A = G.Arr(rp.zeros((2,), dtype=d) if d[-1] != "]" else rp.asarray(np.zeros(2, dtype=d)), np.zeros(2, dtype=d), "C")
    src.note(f"dtype {d}")
    src.nontrivial = True
    src.sig = d
    s, t = str(A.r.dtype), repr(A.r.dtype)
    if s != d or d not in t:
        raise Violation("value", f"the dtype of a {d} array prints as {s!r} and {t!r}")
    if not A.r.dtype == d or A.r.dtype == ("int64" if d != "int64" else "int32"):
        raise Violation("value", f"the dtype of a {d} array does not compare as its name")


FACETS = {"ints": Facet(ints, 1200), "floats": Facet(floats, 900), "complexes": Facet(complexes, 600), "texts": Facet(texts, 700), "dtypes": Facet(dtypes, 100)}
