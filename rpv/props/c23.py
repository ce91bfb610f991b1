"""C23: Python functions applied over arrays, iteration, and the complex-extending functions."""
import math
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import compare, run, Err, show, differential

RULE = ("a Python function drawn from a fixed family, applied along axes or elementwise to arrays of drawn dtype, shape, layout (or a drawn array for the emath functions); "
        "non-trivial = at least one call of the function, or one element")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference for shapes, values and dtypes (the dtype of the first result, or otypes)",
               "the emath functions may give a wider dtype than NumPy's where rumpy documents float64 or complex128; the values are judged",
               "empty inputs of vectorize, and apply_along_axis over no slices, are refused by NumPy and not judged"]

ALONG = {
    "sum": lambda x: x.sum(), "max": lambda x: x.max(), "argmax": lambda x: x.argmax(), "reverse": lambda x: x[::-1], "sort": lambda x: np.sort(x), "cumsum": lambda x: x.cumsum(),
    "head": lambda x: x[:2], "step": lambda x: x[::2], "outer": lambda x: x[:3, None] * np.arange(1, 3, dtype=x.dtype), "positive": lambda x: x != 0, "any": lambda x: bool(x.any()), "mean": lambda x: x.mean(),
    "len": lambda x: len(x), "list": lambda x: x.tolist(), "pylist": lambda x: [float(abs(x[0])), 2.5], "item": lambda x: x[-1].item(), "deep": lambda x: np.stack([x[:1], x[-1:]]).reshape(1, 2, 1), "kw": None,
    "zerod": lambda x: np.asarray(x.min()), "f32": lambda x: np.abs(x).astype("f4")[:1], "empty": lambda x: x[:0],
}


def same(what, r, n, **kw):
    n = run(n) if callable(n) else n
    if isinstance(n, Err):
        raise Discard("ref-refuses")
    r = run(r)
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{what}: {r}; expected {show(n)}")
    compare(what, r, n, exact=True, **kw)
    return r


def along(src):
    """apply_along_axis calls the function once per slice, in order, and puts the results in the axis' place."""
    d = src.choice(G.ALL)
    A = G.array(src, d, G.shape(src, 1, 4, maxdim=4, zero=0.0, maxsize=100), "small", bcast=True)
    k = src.choice(sorted(ALONG))
    ax = src.int(-A.n.ndim, A.n.ndim - 1)
    if d[0] == "c" and k in ("max", "argmax", "sort", "zerod"):
        k = "reverse"
    if k == "kw":
        c = src.int(1, 3)

        def f(x, a, b=0):
            return x * np.asarray(a, x.dtype) + np.asarray(b, x.dtype)
        extra, kw = (c,), ({"b": src.int(0, 2)} if src.bool() else {})
    else:
        f, extra, kw = ALONG[k], (), {}
    wrap = src.choice(["np", "rp", "list"]) if k not in ("any", "len", "list", "pylist", "item") else "np"
    seen, ref = [], []

    def fr(x, *a, **q):
        if not isinstance(x, rp.ndarray) or x.ndim != 1:
            raise AssertionError(f"called with {show(x)}")
        v = np.array(np.asarray(x))
        seen.append(v)
        y = f(v, *a, **q)
        if wrap == "rp":
            return rp.asarray(np.ascontiguousarray(y)) if np.ndim(y) else y
        return y.tolist() if wrap == "list" else y

    def fn(x, *a, **q):
        ref.append(np.array(x))
        y = f(x, *a, **q)
        return y.tolist() if wrap == "list" else y
    src.sig = f"{k} {d} {wrap} {A.n.ndim} {ax} {A.lay[:4]}"
    src.note(f"apply_along_axis({k} as {wrap}, {ax}, {A!r}, {extra}, {kw})")
    src.nontrivial = A.n.size > 0
    with np.errstate(all="ignore"):
        same(f"apply_along_axis({k}, {ax})", lambda: rp.apply_along_axis(fr, ax, A.r, *extra, **kw), lambda: np.apply_along_axis(fn, ax, A.n, *extra, **kw))
    if len(seen) != len(ref) or not all(G.same_bits(x, y) for x, y in zip(seen, ref)):
        raise Violation("calls", f"apply_along_axis(axis={ax}) of {A!r} called the function with {seen}, expected {ref}")
    G_unchanged(A)


def G_unchanged(A):
    if not G.same_bits(np.array(np.asarray(A.r)), A.n):
        raise Violation("operand", f"the operand {A!r} was modified: {show(A.r)}")


def over(src):
    """apply_over_axes reduces one axis after the other and keeps the dimensions."""
    d = src.choice(["float64", "float32", "int64", "int32", "uint8", "bool", "complex128"])
    A = G.array(src, d, G.shape(src, 1, 4, maxdim=4, zero=0.0, maxsize=100), "small")
    name = src.choice(["sum", "max", "min", "prod", "first", "cumsum"] if d[0] != "c" else ["sum", "first", "cumsum"])
    keep = src.bool()
    g = {"first": lambda x, a: np.take(x, 0, a), "cumsum": lambda x, a: np.cumsum(x, a)}.get(name) or (lambda x, a: getattr(np, name)(x, axis=a, keepdims=keep))
    axes = [src.int(-A.n.ndim, A.n.ndim - 1) for _ in range(src.int(1, 3))]
    wrap = src.bool()
    conv = (lambda y: rp.asarray(np.ascontiguousarray(y).reshape(np.shape(y)))) if wrap else (lambda y: y)
    src.sig = f"{name} {d} {keep} {wrap} {len(axes)} {A.n.ndim}"
    src.note(f"apply_over_axes({name}, keepdims={keep}, {A!r}, {axes})")
    src.nontrivial = True
    same(f"apply_over_axes({name}, {axes})", lambda: rp.apply_over_axes(lambda x, a: conv(g(np.asarray(x), a)), A.r, axes), lambda: np.apply_over_axes(g, A.n, axes))
    G_unchanged(A)


def py(x):
    return x.item() if hasattr(x, "item") else x


def tri(x):
    x = x.real if isinstance(x, complex) else x
    return int(x) if x > 0 else 0


ELEM = {
    1: {"neg": lambda x: -x if not isinstance(x, bool) else x, "plus": lambda x: x + 1, "half": lambda x: x * 0.5, "iszero": lambda x: x == 0, "text": lambda x: "abc"[: 1 + tri(x) % 3] , "tri": tri, "cplx": lambda x: complex(tri(x), 1), "two": lambda x: (tri(x), x * 0.25),
        "const": lambda x: 7, "id": lambda x: x, "nan": lambda x: math.nan, "three": lambda x: (1, True, 2.5)},
    2: {"add": lambda x, y: x + y, "mul": lambda x, y: x * y, "eq": lambda x, y: x == y, "left": lambda x, y: x, "right": lambda x, y: y, "pair": lambda x, y: (y, x), "lin": lambda x, y: 3 * x - 2 * y, "cmp": lambda x, y: "same" if x == y else "no"},
    3: {"fma": lambda x, y, z: x * y + z, "mid": lambda x, y, z: y, "all": lambda x, y, z: (x, y, z), "sub": lambda x, y, z: x - 2 * y + 4 * z},
}


def operands(src, nin, first_array=True):
    out = []
    a, b = G.bcast_pair(src, 3, 3, zero=0.0)
    shps = [a, b, src.choice([a, b, ()])]
    for i in range(nin):
        d = src.choice(G.ALL)
        if i and src.bool(0.25):
            x = src.choice([3, -2, 0.5, True, 1j])
            out.append((x, x, type(x).__name__))
        else:
            A = G.array(src, d, shps[i] if shps[i] or i else (3,), "tiny", bcast=True)
            out.append((A.r, A.n, A))
    return out


def elementwise(src):
    """vectorize and frompyfunc call the function on every broadcast element, with its own type."""
    nin = src.weighted([(3, 1), (3, 2), (1, 3)])
    k = src.choice(sorted(ELEM[nin]))
    f = ELEM[nin][k]
    ops = operands(src, nin)
    which = src.choice(["vectorize", "frompyfunc"])
    seen, ref = [], []

    def g(log):
        def h(*a):
            a = [py(x) for x in a]
            log.append(a)
            return f(*a)
        return h
    kw = {}
    nout = {"two": 2, "pair": 2, "all": 3, "three": 3}.get(k, 1)
    src.note(f"{which}({k})({', '.join(repr(o[2]) for o in ops)})")
    src.nontrivial = True
    if which == "vectorize":
        if k not in ("text", "cmp") and src.bool(0.4):
            ot = ["float64", "complex128", "float32", "int64"]
            t = [src.choice(ot if k not in ("nan", "half", "two", "id", "left", "right", "three") else ot[:3]) for _ in range(nout)]
            cx = any((o[1].dtype.kind == "c" if isinstance(o[1], np.ndarray) else isinstance(o[1], complex)) for o in ops) or k == "cplx"
            fl = any((o[1].dtype.kind in "fc" if isinstance(o[1], np.ndarray) else isinstance(o[1], (float, complex))) for o in ops)
            if cx:
                t = ["complex128"] * nout
            elif fl:
                t = ["float64" if x == "int64" else x for x in t]
            kw["otypes"] = t if src.bool() else "".join(np.dtype(x).char for x in t)
        src.sig = f"{which} {k} {bool(kw)} {[getattr(getattr(o[1], 'dtype', 0), 'name', o[2]) for o in ops]}"
        src.note(f"{kw}")
        nn = run(lambda: np.vectorize(g(ref), otypes=kw.get("otypes") or None)(*(o[1] for o in ops)))
        if isinstance(nn, Err):
            raise Discard("ref-refuses")
        if not kw and isinstance(nn, tuple) != (nout > 1):
            raise Discard("arity")
        r = run(lambda: rp.vectorize(g(seen), **kw)(*(o[0] for o in ops)))
        if isinstance(r, Err):
            raise Violation("panic" if r.panic else "raises", f"vectorize({k}): {r}; expected {show(nn)}")
        compare(f"vectorize({k})", r, nn, exact=True)
    else:
        src.sig = f"{which} {k} {[getattr(getattr(o[1], 'dtype', 0), 'name', o[2]) for o in ops]}"
        nn = run(lambda: np.frompyfunc(g(ref), nin, nout)(*(o[1] for o in ops)))
        if isinstance(nn, Err):
            raise Discard("ref-refuses")
        r = run(lambda: rp.frompyfunc(g(seen), nin, nout)(*(o[0] for o in ops)))
        if isinstance(r, Err):
            raise Violation("panic" if r.panic else "raises", f"frompyfunc({k}): {r}; expected {show(nn)}")
        rs, ns = (r, nn) if nout > 1 else ((r,), (nn,))
        if len(rs) != len(ns):
            raise Violation("arity", f"frompyfunc({k}): {len(rs)} outputs, expected {len(ns)}")
        for x, y in zip(rs, ns):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape:
                raise Violation("shape", f"frompyfunc({k}): got shape {x.shape}, expected {y.shape}")
            for p, q in zip(x.ravel().tolist(), y.ravel().tolist()):
                if p != q and not (p != p and q != q):
                    raise Violation("value", f"frompyfunc({k}): got {x.tolist()}, expected {y.tolist()}")
    cols = np.broadcast_arrays(*(np.asarray(o[1]) for o in ops))
    ref = [[y.item() for y in x] for x in zip(*(c.ravel() for c in cols))]
    eq = len(seen) == len(ref) and all(type(p) is type(q) and (p == q or p != p and q != q) for x, y in zip(seen, ref) for p, q in zip(x, y))
    if not eq:
        raise Violation("calls", f"{which}({k}) called the function with {seen[:8]}, expected {ref[:8]}")
    for o in ops:
        if isinstance(o[2], G.Arr):
            G_unchanged(o[2])


SIG = {
    "(n),(n)->()": lambda x, y: (x * y).sum(), "(n)->()": lambda x: x.max() if x.dtype.kind != "c" else x.sum(), "(n)->(n)": lambda x: x[::-1], "(m,n),(n)->(m)": lambda x, y: (x * y).sum(-1),
    "(n),()->(n)": lambda x, y: x + type(y)(1) * y, "(),()->()": lambda x, y: x * y, "(m),(n)->(m,n)": lambda x, y: x[:, None] * y, "(m,n)->(n,m)": lambda x: x.T, "(n)->(),()": lambda x: (x[0], x[-1]),
    "(k, n) , (n, j) -> (k)": lambda x, y: x.sum(1) * y.dtype.type(1) if 0 else x.sum(1),
}


def generalized(src):
    """vectorize with a signature loops over the leading dimensions and hands over the core ones."""
    sig = src.choice(sorted(SIG))
    f = SIG[sig]
    ins = [tuple(x for x in c.split(",") if x) for c in sig.replace(" ", "").split("->")[0][1:-1].split("),(")]
    dims = {k: src.int(1, 4) for k in "mnkj"}
    a, b = G.bcast_pair(src, 2, 3, zero=0.0)
    loops = [a, b]
    d = src.choice(["float64", "int64", "int32", "float32", "complex128", "uint8"])
    arrs = []
    for i, c in enumerate(ins):
        shp = loops[i] + tuple(dims[x] for x in c)
        bad = len(ins) == 2 and i == 1 and "n" in c and src.bool(0.06)
        if bad:
            shp = loops[i] + tuple(dims[x] + (x == "n") for x in c)
        arrs.append(G.array(src, d, shp, "tiny"))
    seen, ref = [], []

    def wrap(log, isr):
        def h(*x):
            v = [np.array(np.asarray(y)) if isinstance(y, (rp.ndarray, np.ndarray)) and np.ndim(y) else py(y) for y in x]
            log.append(v)
            y = f(*v)
            return y
        return h
    src.sig = f"{sig} {d} {[x.n.ndim for x in arrs]}"
    src.note(f"vectorize(signature={sig!r})({', '.join(map(repr, arrs))})")
    src.nontrivial = True
    nn = run(lambda: np.vectorize(wrap(ref, 0), signature=sig)(*(x.n for x in arrs)))
    r = run(lambda: rp.vectorize(wrap(seen, 1), signature=sig)(*(x.r for x in arrs)))
    if isinstance(nn, Err):
        if not isinstance(r, Err) or r.panic:
            raise Violation("accepts-invalid", f"vectorize({sig}): {nn} expected, got {show(r)}")
        return
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"vectorize({sig}): {r}; expected {show(nn)}")
    compare(f"vectorize({sig})", r, nn, rtol=1e-6 if d != "float64" else 1e-14, atol=1e-6 if d in ("float32",) else 1e-14, dtype="any" if not all(np.ndim(x.n) for x in arrs) else "same")
    if len(seen) != len(ref) or not all(np.array_equal(p, q) for x, y in zip(seen, ref) for p, q in zip(x, y)):
        raise Violation("calls", f"vectorize({sig}) called the function with {seen[:6]}, expected {ref[:6]}")


def iterate(src):
    """ndenumerate, ndindex, and iteration visit every element once, in C order, with its own type."""
    k = src.choice(["ndenumerate", "ndindex", "iter", "flat", "isscalar", "obj", "shares"])
    if k == "ndindex":
        shp = tuple(src.int(0 if src.bool(0.1) else 1, 4) for _ in range(src.int(0, 4)))
        src.sig = f"ndindex {shp}"
        src.note(f"ndindex{shp}")
        src.nontrivial = True
        a = (list(rp.ndindex(*shp)), list(rp.ndindex(shp)))
        e = list(np.ndindex(*shp))
        for g in a:
            if g != e:
                raise Violation("value", f"ndindex{shp}: got {g}, expected {e}")
        return
    d = src.choice(G.ALL)
    A = G.array(src, d, G.shape(src, 0 if k != "iter" else 1, 4, maxdim=4), "any", bcast=True)
    src.sig = f"{k} {d} {A.n.ndim} {A.lay[:4]}"
    src.note(f"{k} {A!r}")
    src.nontrivial = A.n.size > 0
    eq = lambda p, q: type(p) is type(q) and (p == q or p != p and q != q)
    if k == "ndenumerate":
        g = run(lambda: list(rp.ndenumerate(A.r)))
        if isinstance(g, Err):
            raise Violation("raises", f"ndenumerate: {g}")
        e = [(i, x.item()) for i, x in np.ndenumerate(A.n)]
        if len(g) != len(e) or not all(x[0] == y[0] and eq(x[1], y[1]) for x, y in zip(g, e)):
            raise Violation("value", f"ndenumerate: got {g[:12]}, expected {e[:12]}")
    elif k in ("iter", "flat"):
        it = list(A.r) if k == "iter" else list(A.r.flat)
        e = list(A.n) if k == "iter" else list(A.n.flat)
        if len(it) != len(e):
            raise Violation("value", f"{k}: {len(it)} items, expected {len(e)}")
        for x, y in zip(it, e):
            x = x if not isinstance(x, rp.ndarray) else np.array(np.asarray(x))
            if k == "iter":
                if not G.same_bits(np.asarray(x, y.dtype) if np.ndim(y) == 0 else x, np.asarray(y)):
                    raise Violation("value", f"iter: got {x!r}, expected {y!r}")
            elif not (np.asarray(x).shape == () and (x == y or x != x and y != y)):
                raise Violation("value", f"flat: got {x!r}, expected {y!r}")
    elif k == "isscalar":
        for x in (A.r, 3, 2.5, 1j, "a", True, b"b", [1], (1,), None, A.n):
            if rp.isscalar(x) != np.isscalar(x if not isinstance(x, rp.ndarray) else A.n):
                raise Violation("value", f"isscalar({show(x)}) is {rp.isscalar(x)}")
    elif k == "obj":
        for f in ("iscomplexobj", "isrealobj"):
            if getattr(rp, f)(A.r) is not getattr(np, f)(A.n):
                raise Violation("value", f"{f}: {getattr(rp, f)(A.r)}")
        for f in ("isreal", "iscomplex"):
            compare(f, getattr(rp, f)(A.r), getattr(np, f)(A.n), exact=True)
    else:
        B = A.r.copy() if src.bool() else rp.asarray(np.array(A.n))
        if not rp.shares_memory(A.r, A.r) or not rp.may_share_memory(A.r, A.rbase):
            raise Violation("value", "shares_memory of an array with itself or its base is False")
        if rp.shares_memory(A.r, B) or rp.may_share_memory(B, A.r):
            raise Violation("value", "shares_memory of an array and its copy is True")
        if A.n.ndim:
            for v in (A.r.T, A.r[:1], A.r[..., None], A.r.reshape(A.n.shape) if A.lay == "C" else A.r[::-1]):
                if not rp.shares_memory(v, A.r):
                    raise Violation("value", "shares_memory of an array and its view is False")


def emath(src):
    """The emath functions: real inside the real domain, the complex principal value outside."""
    f = src.choice(["sqrt", "log", "log2", "log10", "arccos", "arcsin", "arctanh", "logn", "power", "real_if_close"])
    d = src.choice(G.ALL)
    dom = src.choice(["in", "out", "mixed"])
    shp = G.shape(src, 0, 3, maxdim=4)
    lo, hi = (-1, 1) if f in ("arccos", "arcsin", "arctanh") else (0, 9)
    n = int(np.prod(shp, dtype=int))
    vals = []
    for _ in range(n):
        k = src.int(0, 3)
        x = src.choice([lo, hi, 0, 1, (lo + hi) / 2, 0.25, lo + 0.001, hi - 0.001, 2]) if k else src.int(0, 1000) / 1000 * (hi - lo) + lo
        if dom == "out" or dom == "mixed" and src.bool(0.3):
            x = src.choice([-1, -2, -0.5, 3, -7.25, 1.5, -1.001, 1.001, -100])
        vals.append(x)
    if f == "arctanh":
        vals = [0.3 if abs(v) == 1 else v for v in vals]
    if f.startswith("log"):
        vals = [v or 0.5 for v in vals]
    if d[0] in "iub":
        vals = [int(v) for v in vals]
        if d[0] in "u":
            vals = [abs(v) for v in vals]
        if f.startswith("log"):
            vals = [v or 2 for v in vals]
        if f == "arctanh":
            vals = [max(-127 if d[0] == "i" else 0, min(127, 3 * v)) for v in vals]
    if d[0] == "c" and src.bool(0.7):
        vals = [complex(v, src.choice([0.5, -1.0, 0.0, 2.0])) for v in vals]
    A = G.array(src, d, shp, vals=np.array(vals, dtype=d).reshape(shp))
    src.sig = f"{f} {d} {dom} {A.n.ndim}"
    src.nontrivial = n > 0
    tol = {"float16": 1e-2, "float32": 3e-5, "complex64": 3e-5, "int8": 2e-2, "uint8": 2e-2, "bool": 2e-2, "int16": 3e-5, "uint16": 3e-5}.get(d, 1e-12)
    if f == "real_if_close":
        if d[0] != "c":
            A = G.array(src, src.choice(["complex128", "complex64"]), shp)
        v = A.n.copy()
        e = np.finfo(v.dtype).eps
        m = src.choice([0, 1, 50, 99, 101, 200, 1e6])
        with np.errstate(all="ignore"):
            v.imag = np.where(np.array([src.bool() for _ in range(n)]).reshape(shp), e * m, 0)
        A = G.array(src, str(v.dtype), shp, vals=v)
        tolerance = src.choice([None, None, 10.0, 150.0, 1000.0])
        src.note(f"real_if_close({A!r}, {tolerance})")
        kw = {} if tolerance is None else {"tol": tolerance}
        same("real_if_close", lambda: rp.real_if_close(A.r, **kw), lambda: np.real_if_close(A.n, **kw))
        return
    with np.errstate(all="ignore"):
        if f in ("logn", "power"):
            b = src.choice([2, 10, 0.5, -2, 3.0, -0.5, 2.5, 1.5])
            if src.bool():
                B = G.array(src, "float64", shp, vals=np.array([src.choice([2, 10, 0.5, -2, 3.0, -0.5, 2.5, 1.5]) for _ in range(n)], float).reshape(shp))
                br, bn = B.r, B.n
            else:
                br, bn = rp.asarray(np.array([float(b)])), np.array([float(b)])
            src.note(f"emath.{f}({A!r}, {show(bn)})")
            if f == "power":
                if (A.n == 0).any():
                    raise Discard("zero base")
                r, e = run(lambda: rp.emath.power(A.r, br)), np.emath.power(A.n.astype("c16" if A.n.dtype.kind == "c" else "f8"), bn)
            else:
                r, e = run(lambda: rp.emath.logn(br, A.r)), np.emath.logn(bn, A.n)
        else:
            src.note(f"emath.{f}({A!r})")
            r, e = run(lambda: getattr(rp.emath, f)(A.r)), getattr(np.emath, f)(A.n)
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"emath.{f}: {r}; expected {show(e)}")
    g, e = np.asarray(r), np.asarray(e)
    if g.shape != e.shape:
        raise Violation("shape", f"emath.{f}: got shape {g.shape}, expected {e.shape}")
    if f == "arctanh" and d[0] != "c" and (np.abs(A.n.astype(float)) == 1).any():
        raise Discard("pole")
    real = A.n.dtype.kind != "c" and (e.dtype.kind != "c" or f == "power" and not (np.iscomplex(e).any()))
    if A.n.dtype.kind != "c" and g.dtype.kind != e.dtype.kind and not (f == "power" and g.dtype.kind == "f" and real):
        raise Violation("dtype", f"emath.{f}: got dtype {g.dtype}, expected {e.dtype}")
    compare(f"emath.{f}", g.astype("c16"), e.astype("c16"), rtol=tol, atol=tol)


def moments(src):
    """moment, skew and kurtosis equal their definitions computed in exact fractions."""
    from fractions import Fraction as Q
    d = src.choice([x for x in G.ALL if x[0] in "iuf" and x != "float16"])
    A = G.array(src, d, G.shape(src, 1, 3, maxdim=6, zero=0.0, maxsize=80), "small", bcast=True)
    f = src.choice(["moment", "skew", "kurtosis"])
    k = src.int(1, 5)
    ax = src.choice([None] + list(range(-A.n.ndim, A.n.ndim)))
    keep = ax is not None and src.bool(0.3)
    src.sig = f"{f} {d} {k if f == 'moment' else ''} {ax} {keep}"
    src.note(f"{f}({k}) of {A!r} axis={ax} keepdims={keep}")
    src.nontrivial = True
    kw = {"keepdims": True} if keep else {}
    rows = A.n.reshape(1, -1) if ax is None else np.moveaxis(A.n, ax, -1).reshape(-1, A.n.shape[ax])
    if not np.isfinite(A.n).all():
        raise Discard("not finite")
    out, bound = [], 0.0
    for row in rows:
        q = [Q(x.item()) for x in row]
        mu = sum(q) / len(q)
        m = lambda j: sum((x - mu) ** j for x in q) / len(q)
        s = max(abs(float(x)) for x in q) or 1.0
        spread = float(m(2)) ** 0.5
        if f == "moment":
            out.append(float(m(k)))
            bound = max(bound, s * max(spread, s * 1e-7) ** (k - 1), s ** k * 1e-9 if k == 1 else 0)
        else:
            if spread < 0.05 * s:
                raise Discard("constant slice")
            out.append(float(m(3)) / spread ** 3 if f == "skew" else float(m(4)) / spread ** 4 - 3)
            bound = max(bound, (s / spread) ** 4)
    eps = 3e-5 if d == "float32" else 1e-12
    e = np.array(out)
    if ax is None:
        e = e[0]
    else:
        e = e.reshape(tuple(x for i, x in enumerate(A.n.shape) if i != ax % A.n.ndim))
        if keep:
            e = np.expand_dims(e, ax)
    r = run(lambda: getattr(A.r, f)(*((k,) if f == "moment" else ()), **({} if ax is None else {"axis": ax}), **kw))
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{f}: {r}")
    compare(f, r, e, rtol=eps * 10, atol=max(eps * bound * A.n.size, 1e-300), dtype="any")


class Stop(Exception):
    pass


RAISERS = {
    "along": lambda m, f, x: m.apply_along_axis(f, -1, x), "along args": lambda m, f, x: m.apply_along_axis(lambda v, k: f(v), 0, x, 3),
    "over": lambda m, f, x: m.apply_over_axes(lambda v, a: f(v), x, list(range(x.ndim))), "vectorize": lambda m, f, x: m.vectorize(f)(x),
    "vectorize otypes": lambda m, f, x: m.vectorize(f, otypes=["float64"])(x), "vectorize signature": lambda m, f, x: m.vectorize(f, signature="(n)->()")(x),
    "frompyfunc": lambda m, f, x: m.frompyfunc(f, 1, 1)(x), "frompyfunc 2": lambda m, f, x: m.frompyfunc(lambda a, b: f(a), 2, 1)(x, x),
    "piecewise": lambda m, f, x: m.piecewise(x, [x > 1, x < 1], [f, f]), "ndenumerate": lambda m, f, x: [f(v) for i, v in m.ndenumerate(x)],
}


def raising(src):
    """A function that raises at its k-th call: the very exception comes out, nothing more is called, the operand is as it was and the next call works."""
    name = src.choice(sorted(RAISERS))
    A = G.array(src, src.choice(["float64", "int64", "float32"]), G.shape(src, 1, 3, 4, zero=0), "small")
    k = src.int(1, 7)
    src.sig = f"raising {name}"
    src.note(f"{name} of {A!r}, raising at call {k}")
    if name == "over" and A.n.ndim < 1:
        raise Discard("0-d")

    def make(calls, err):
        def f(v):
            calls.append(0)
            if len(calls) == k:
                raise err
            return v.sum() if hasattr(v, "sum") and name != "over" and name != "piecewise" else v
        return f
    c1, c2, e1, e2 = [], [], Stop("r"), Stop("n")
    ref = "vectorize otypes" if name == "vectorize" else name  # NumPy tries the first element twice to learn about the outputs
    n = run(lambda: RAISERS[ref](np, make(c2, e2), A.n))
    r = run(lambda: RAISERS[name](rp, make(c1, e1), A.r))
    if isinstance(n, Err) and n.e is e2:
        src.nontrivial = True
        src.label("raises")
        if not isinstance(r, Err) or r.e is not e1:
            raise Violation("exception", f"{name}: {show(r) if not isinstance(r, Err) else r}, the exception of the function expected")
        if len(c1) != k:
            raise Violation("calls", f"{name}: {len(c1)} calls, the exception came at call {k}")
    elif isinstance(r, Err) and r.panic:
        raise Violation("panic", f"{name}: {r}")
    G_unchanged(A)
    again = run(lambda: RAISERS[name](rp, make(list(range(100)), None), A.r))
    if isinstance(again, Err) and not isinstance(n, Err):
        raise Violation("raises", f"{name} afterwards: {again}")


FACETS = {"raising": Facet(raising, 1500), "along": Facet(along, 2500),
    "over": Facet(over, 1200),
    "elementwise": Facet(elementwise, 2500),
    "generalized": Facet(generalized, 1500),
    "iterate": Facet(iterate, 2500),
    "emath": Facet(emath, 3000),
    "moments": Facet(moments, 1500),
}
