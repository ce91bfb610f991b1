"""C13: array creation."""
import math
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show

RULE = ("a creation function with drawn arguments (nested Python lists of drawn scalars; bounds, steps and counts; shapes; dtypes; buffers); "
        "non-trivial = the reference accepts and the result has at least one element, or the reference refuses malformed input")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference; a bare Python scalar given to array() and out-of-range Python integers are not judged"]


def nested(src, vals, shp):
    if len(shp) == 1:
        out = [vals.pop() for _ in range(shp[0])]
        return tuple(out) if src.bool(0.1) else out
    out = [nested(src, vals, shp[1:]) for _ in range(shp[0])]
    return tuple(out) if src.bool(0.1) else out


SC = {"bool": [True, False], "int": [0, 1, -1, 2, 7, -300, 10**6, 2**53 + 1, -2**62, 2**63 - 1], "float": [0.0, 1.5, -2.25, 1e300, float("nan"), float("inf"), 0.1, -0.0],
      "complex": [1j, 1 + 2j, -0.5j, complex(0, 0), complex(1.5, -3)]}


def lists(src):
    shp = G.shape(src, 1, 3, zero=0.04)
    n = int(np.prod(shp))
    kinds = src.choice([["int"], ["float"], ["bool"], ["complex"], ["int", "float"], ["bool", "int"], ["float", "complex"], ["bool", "float"], ["int", "complex"]])
    pool = [v for k in kinds for v in SC[k]]
    vals = [src.choice(pool) for _ in range(n)]
    bad = src.bool(0.06)
    obj = nested(src, list(vals), shp)
    dt = src.choice([None, None, None] + G.ALL)
    if bad and n and len(shp) >= 2:
        obj = list(obj)
        obj[src.below(len(obj))] = src.choice([[1, 2, 3, 4, 5, 6, 7], 3, []])
    src.sig = f"{'+'.join(kinds)} {dt} {len(shp)} {bad}"
    src.note(f"array({obj!r}, dtype={dt})")
    src.nontrivial = n > 0

    def ref():
        with np.errstate(all="raise", under="ignore"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                return np.array(obj, dtype=dt) if dt else np.array(obj)
    if dt and dt[0] in "iu" and ("float" in kinds or "complex" in kinds):
        raise Discard
    if dt and (dt[0] == "f" or dt == "bool") and "complex" in kinds:
        raise Discard
    f = src.choice(["array", "array", "asarray"])
    e = run(ref)
    if isinstance(e, Err) and not isinstance(e.e, ValueError):
        raise Discard("ref-refuses")
    differential(src, "array(list)", lambda: getattr(rp, f)(obj, dtype=dt) if dt else getattr(rp, f)(obj), ref, exact=True, signzero=True,
                 invalid="reject" if bad else "any")


WORDS = ["", "a", "abc", "h\u00e9llo", "\u65e5\u672c", "\U0001f600", "e\u0301", "x y", "\u00df", "0", "-1", "a\nb", "\u00e9" * 9, "long text here", "A"]


def texts(src):
    """Lists of text: as wide as the longest element counted in characters, or as the dtype says."""
    shp = G.shape(src, 1, 3, zero=0)
    vals = [src.choice(WORDS) for _ in range(int(np.prod(shp)))]
    src.nontrivial = any(vals)
    raw = src.bool(0.3)  # bytes
    if raw:
        vals = [v.encode()[:src.int(1, 40)] for v in vals]
    obj = nested(src, vals, shp)
    dt = src.choice([None, None, None] + (["S3", "S1", "S20", "bytes"] if raw else ["U3", "U1", "U20", "<U5", "str"]))
    f = src.choice(["array", "array", "asarray"])
    src.sig = f"text {dt} {len(shp)}"
    src.note(f"{f}({obj!r}, dtype={dt})")
    differential(src, f"{f}(list of text)", lambda: getattr(rp, f)(obj, dtype=dt) if dt else getattr(rp, f)(obj), lambda: np.array(obj, dtype=dt) if dt else np.array(obj),
                 exact=True, invalid="any")


def ranges(src):
    f = src.choice(["arange", "arange", "linspace", "logspace", "geomspace", "arange_int"])
    src.nontrivial = True
    if f == "arange_int":
        a, b = src.int(-20, 20), src.int(-20, 40)
        st = src.choice([None, 1, 2, 3, 7, -1, -2, -5])
        args = [b] if src.bool(0.25) else [a, b] + ([st] if st else [])
        dt = src.choice([None, None, "int64", "int32", "float64", "float32", "int16"])
        src.sig = f"{f} {len(args)} {dt}"
        src.note(f"arange{tuple(args)} {dt}")
        differential(src, "arange", lambda: rp.arange(*args, dtype=dt) if dt else rp.arange(*args), lambda: np.arange(*args, dtype=dt), exact=True)
    elif f == "arange":
        a = src.choice([0.0, 0.5, -1.25, 3.0, 10.0, -7.5])
        st = src.choice([0.25, 0.5, 1.0, 0.1, 0.3, -0.5, -0.125, 1.7, 0.01])
        n = src.int(0, 40)
        # stop is kept half a step away from a grid point so that the count does not hinge on rounding
        b = a + st * (n - 0.5)
        dt = src.choice([None, None, "float64", "float32"])
        src.sig = f"{f} {dt}"
        src.note(f"arange({a}, {b}, {st}) {dt}")
        differential(src, "arange", lambda: rp.arange(a, b, st, dtype=dt) if dt else rp.arange(a, b, st), lambda: np.arange(a, b, st, dtype=dt), rtol=1e-6 if dt == "float32" else 1e-12, atol=1e-5 if dt == "float32" else 1e-13)
    else:
        num = src.choice([0, 1, 2, 3, 5, 10, 33, 50])
        dt = src.choice([None, None, None, "float32", "int64"] if f == "linspace" else [None, None, "float32"])
        kw = {"dtype": dt} if dt else {}
        if f == "linspace":
            a, b = (src.choice([0.0, 1.0, -3.5, 10.0, 2.25, -100.0, 1e6]) for _ in range(2))
        elif f == "logspace":
            a, b = (src.choice([0.0, 1.0, -2.0, 3.0, 0.5]) for _ in range(2))
            kw["base"] = src.choice([10.0, 2.0, 3.5])
        else:
            a, b = (src.choice([1.0, 2.0, 1000.0, 0.001, 256.0]) for _ in range(2))
            if src.bool(0.15):
                a, b = -a, -b
        src.sig = f"{f} {dt}"
        src.note(f"{f}({a}, {b}, {num}, {kw})")
        if dt == "int64":  # truncation sits on rounding
            w = np.linspace(a, b, num)
            if num and (np.abs(w - np.round(w)) < 1e-9).any() and not (w == np.round(w)).all():
                pass
            if ((np.abs(w - np.round(w)) < 1e-9) & (w != np.round(w))).any():
                raise Discard
        differential(src, f, lambda: getattr(rp, f)(a, b, num, **kw), lambda: getattr(np, f)(a, b, num, **kw), rtol=1e-6 if dt == "float32" else 1e-12, atol=1e-13 * max(abs(a), abs(b), 1))
        if f in ("linspace", "geomspace") and num >= 2 and dt is None:
            r = np.asarray(getattr(rp, f)(a, b, num))
            if r[0] != a or r[-1] != b:
                raise Violation("endpoint", f"{f}({a},{b},{num}) runs from {r[0]!r} to {r[-1]!r}")


def filled(src):
    f = src.choice(["zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like", "empty_like", "eye", "identity", "tri", "diagflat", "diag", "vander"])
    dt = src.choice([None] + G.ALL)
    kw = {"dtype": dt} if dt else {}
    src.sig = f"{f} {dt}"
    shp = G.shape(src, 0, 4)
    fill = src.choice([0, 1, 3, 2.5, 100, True]) if not (dt and dt[0] in "iub") else src.choice([0, 1, 3, 100])
    if f == "vander":
        raise Discard
    src.nontrivial = True
    if f in ("zeros", "ones", "empty"):
        arg = src.choice([shp, list(shp)] + ([shp[0]] if len(shp) == 1 else []))
        src.note(f"{f}({arg}, {dt})")
        r = differential(src, f, lambda: getattr(rp, f)(arg, **kw), lambda: getattr(np, "zeros" if f == "empty" else f)(arg, **kw)) if f != "empty" else None
        if f == "empty":
            e = run(lambda: rp.empty(arg, **kw))
            if isinstance(e, Err) or e.shape != tuple(shp) or str(e.dtype) != (dt or "float64"):
                raise Violation("shape", f"empty({arg},{dt}): {show(e)}")
    elif f == "full":
        src.note(f"full({shp}, {fill}, {dt})")
        if dt is None:
            fill = float(fill)
        differential(src, f, lambda: rp.full(shp, fill, **kw), lambda: np.full(shp, fill, **kw), exact=True)
    elif f.endswith("_like"):
        d = src.choice(G.ALL)
        A = G.array(src, d, shp)
        src.sig = f"{f} {d} {dt}"
        src.note(f"{f}({A!r}, {fill}, {dt})")
        if f == "empty_like":
            e = run(lambda: rp.empty_like(A.r, **kw))
            if isinstance(e, Err) or e.shape != tuple(shp) or str(e.dtype) != (dt or d):
                raise Violation("shape", f"empty_like: {show(e)}")
        elif f == "full_like":
            if (dt or d)[0] in "iub":
                fill = int(fill)
            differential(src, f, lambda: rp.full_like(A.r, fill, **kw), lambda: np.full_like(A.n, fill, **kw), exact=True)
        else:
            differential(src, f, lambda: getattr(rp, f)(A.r, **kw), lambda: getattr(np, f)(A.n, **kw), exact=True)
        # a fresh array: writing to it leaves the model alone
        compare("model array", A.r, A.n, exact=True)
    elif f in ("eye", "identity"):
        n = src.int(0, 7)
        src.note(f"{f}({n}, {dt})")
        differential(src, f, lambda: getattr(rp, f)(n, **kw), lambda: getattr(np, f)(n, **kw), exact=True)
    elif f == "tri":
        n, m, k = src.int(0, 6), src.choice([None, 0, 1, 3, 5, 7]), src.int(-7, 7)
        src.note(f"tri({n},{m},{k},{dt})")
        differential(src, f, lambda: rp.tri(n, m, k, **kw), lambda: np.tri(n, m, k, **({"dtype": dt} if dt else {})), exact=True)
    else:
        d = src.choice(G.ALL)
        A = G.array(src, d, G.shape(src, 1, 2, maxdim=3, maxsize=12), bcast=True)
        if A.n.size > 14:
            raise Discard
        k = src.int(-3, 3)
        src.sig = f"{f} {d}"
        if f == "diag":
            src.note(f"diag({A!r})")
            differential(src, f, lambda: rp.diag(A.r), lambda: np.diag(A.n), exact=True)
            return
        src.note(f"diagflat({A!r}, {k})")
        differential(src, f, lambda: rp.diagflat(A.r, k), lambda: np.diagflat(A.n, k), exact=True)


def special(src):
    f = src.choice(["bartlett", "blackman", "hamming", "hanning", "kaiser", "frombuffer", "fromfunction", "fftfreq", "meshgrid", "asarray_same", "copy", "require", "broadcast_shapes"])
    src.sig = f
    src.nontrivial = True
    if f in ("bartlett", "blackman", "hamming", "hanning"):
        m = src.choice([0, 1, 2, 3, 4, 5, 8, 17, 64, 101])
        src.note(f"{f}({m})")
        differential(src, f, lambda: getattr(rp, f)(m), lambda: getattr(np, f)(m), atol=1e-12)
    elif f == "kaiser":
        m, b = src.choice([0, 1, 2, 3, 5, 8, 17, 64]), src.choice([0.0, 1.0, 5.0, 8.6, 14.0])
        src.note(f"{f}({m},{b})")
        differential(src, f, lambda: rp.kaiser(m, b), lambda: np.kaiser(m, b), rtol=1e-6, atol=1e-9)
    elif f == "frombuffer":
        d = src.choice(["float64", "float32", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "complex128", "complex64", "bool"])
        v = G.values(src, d, src.int(0, 12), "any")
        b = v.tobytes()
        src.sig = f"{f} {d}"
        it = v.dtype.itemsize
        cnt = src.choice([None, None, 0, 1, 2, 3, len(v), len(v) + 1])
        off = src.choice([None, None, 0, it, 2 * it])
        kw = {}
        if cnt is not None:
            kw["count"] = cnt
        if off is not None:
            kw["offset"] = off
        if off and off % it or (off or 0) >= len(b):
            raise Discard
        t = bytes
        src.note(f"frombuffer({t.__name__}({b!r}), {d}, {kw})")
        differential(src, f, lambda: rp.frombuffer(t(b), dtype=d, **kw), lambda: np.frombuffer(b, dtype=d, **kw), exact=True, invalid="reject")
    elif f == "fromfunction":
        shp = G.shape(src, 1, 3, zero=0, maxdim=4)
        w = [src.int(-3, 3) for _ in shp]
        src.note(f"fromfunction({shp}, {w})")
        fn = lambda *ix: sum(c * i for c, i in zip(ix, w))
        rf = lambda *ix: sum((i * c for c, i in list(zip(w, ix))[1:]), ix[0] * w[0])
        differential(src, f, lambda: rp.fromfunction(shp, rf), lambda: np.fromfunction(rf, shp), exact=True, dtype=None)
    elif f == "fftfreq":
        n, d = src.int(1, 33), src.choice([1.0, 0.5, 0.1, 2.0, 3.3])
        g = src.choice(["fftfreq", "rfftfreq"])
        src.sig = g
        src.note(f"{g}({n},{d})")
        differential(src, g, lambda: getattr(rp.fft, g)(n, d), lambda: getattr(np.fft, g)(n, d), rtol=1e-12)
    elif f == "meshgrid":
        m = src.int(1, 3)
        xs = [G.array(src, src.choice(["float64", "int64", "float32"]), (src.int(0, 4),), "small", bcast=True) for _ in range(m)]
        ix = src.choice(["xy", "ij"])
        src.note(f"meshgrid({xs}, {ix})")
        differential(src, f, lambda: list(rp.meshgrid(*[x.r for x in xs], indexing=ix)), lambda: list(np.meshgrid(*[x.n for x in xs], indexing=ix)), exact=True)
    elif f in ("asarray_same", "copy", "require"):
        d = src.choice(G.ALL)
        A = G.array(src, d, G.shape(src, 0, 3), bcast=True)
        src.sig = f"{f} {d}"
        src.note(f"{f}({A!r})")
        fs = {"asarray_same": [rp.asarray, rp.array], "copy": [rp.copy, rp.ascontiguousarray], "require": [rp.require, rp.asfortranarray]}[f]
        g = src.choice(fs)
        if g in (rp.ascontiguousarray, rp.asfortranarray) and A.n.ndim == 0:
            raise Discard
        c = run(lambda: g(A.r))
        if isinstance(c, Err):
            raise Violation("raises", f"{g}: {c}")
        compare(str(f), c, A.n, exact=True)
        if g is rp.ascontiguousarray and not c.flags.c_contiguous or g is rp.asfortranarray and not c.flags.f_contiguous:
            raise Violation("flags", f"{g.__name__}: not contiguous: strides {c.strides}")
    else:
        a, b = G.bcast_pair(src)
        if src.bool(0.2):
            a = G.shape(src, 0, 3)
        src.note(f"broadcast_shapes({a},{b})")
        e = run(lambda: np.broadcast_shapes(a, b))
        r = run(lambda: rp.broadcast_shapes(a, b))
        if isinstance(e, Err):
            if not isinstance(r, Err):
                raise Violation("accepts-invalid", f"broadcast_shapes({a},{b}) = {r}")
        elif isinstance(r, Err) or tuple(r) != e:
            raise Violation("value", f"broadcast_shapes({a},{b}) = {r}, expected {e}")


FACETS = {"texts": Facet(texts, 4000), "lists": Facet(lists, 25000), "ranges": Facet(ranges, 15000), "filled": Facet(filled, 15000), "special": Facet(special, 15000)}
