"""C12: dtype conversion, promotion and casting rules."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show

RULE = ("a pair (or triple) of dtypes with an array of drawn contents and layout; every ordered pair of the fourteen numeric dtypes is reached; "
        "non-trivial = the dtypes differ or the array is a strided view")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference; conversions whose result NumPy leaves undefined (out-of-range or NaN to integer) are not judged"]


def in_range(n, e):
    """Contents whose conversion to e is defined."""
    if n.dtype.kind not in "fc" or np.dtype(e).kind not in "iu":
        return n
    x = n.real if n.dtype.kind == "c" else n
    ii = np.iinfo(e)
    lo, hi = float(ii.min), float(ii.max)
    with np.errstate(all="ignore"):
        y = x.astype("float64")
        ok = np.isfinite(y) & (y > lo - 1) & (y < hi) & (y > (-1 if lo == 0 else lo - 1))
    return np.where(ok, n, 1).astype(n.dtype)


def astype(src):
    d, e = src.choice(G.ALL), src.choice(G.ALL)
    shp = G.shape(src, 0, 4)
    v = in_range(G.values(src, d, int(np.prod(shp)), "any"), e).reshape(shp)
    A = G.array(src, d, shp, vals=v)
    how = src.choice(["astype", "astype", "array", "asarray", "ascontiguousarray"])
    src.sig = f"{how} {d} {e} {len(shp)}"
    src.note(f"{how}({A!r}, {e})")
    src.nontrivial = A.n.size > 0
    with np.errstate(all="ignore"):
        want = A.n.astype(e)
    if how == "ascontiguousarray" and not shp:
        raise Discard
    differential(src, f"{how}->{e}", lambda: A.r.astype(e) if how == "astype" else getattr(rp, how)(A.r, dtype=e), lambda: want, exact=True, signzero=True)
    compare("source unchanged", A.r, A.n, exact=True)


def roundtrip(src):
    d = src.choice(G.ALL)
    wider = [e for e in G.ALL if e != d and np.can_cast(d, e, "safe")]
    if not wider:
        raise Discard
    e = src.choice(wider)
    if d in ("int64", "uint64") and e in ("float64", "complex128"):
        raise Discard
    A = G.array(src, d, G.shape(src, 0, 3), bcast=True)
    src.sig = f"rt {d} {e}"
    src.note(f"{A!r}.astype({e}).astype({d})")
    src.nontrivial = A.n.size > 0
    compare("widen and back", A.r.astype(e).astype(d), A.n, exact=True)


def promote(src):
    d, e, g = src.choice(G.ALL), src.choice(G.ALL), src.choice(G.ALL)
    k = src.choice(["promote_types", "result_type", "can_cast", "issubdtype", "add", "common_type", "isdtype", "info"])
    src.sig = f"{k} {d} {e}"
    src.note(f"{k} {d} {e} {g}")
    src.nontrivial = d != e
    if k == "promote_types":
        got = str(rp.promote_types(d, e))
        if got != str(np.promote_types(d, e)):
            raise Violation("value", f"promote_types({d},{e}) = {got}")
        if got != str(rp.promote_types(e, d)):
            raise Violation("symmetry", f"promote_types({d},{e}) = {got}, swapped {rp.promote_types(e, d)}")
        if str(rp.promote_types(got, d)) != got or str(rp.promote_types(got, e)) != got:
            raise Violation("bound", f"promote_types({d},{e}) = {got} is not an upper bound")
    elif k == "result_type":
        a = rp.zeros((1,), dtype=d)
        got = str(rp.result_type(a, rp.zeros((2,), dtype=e)))
        if got != str(np.promote_types(d, e)) or str(rp.result_type(d, e)) != got or str(rp.result_type(a)) != d:
            raise Violation("value", f"result_type({d},{e}) = {got}")
    elif k == "can_cast":
        c = src.choice(["no", "safe", "same_kind", "unsafe"])
        src.sig += c
        src.note(f"can_cast({d},{e},{c})")
        got = rp.can_cast(d, e, c)
        if got != np.can_cast(d, e, c):
            raise Violation("value", f"can_cast({d},{e},{c}) = {got}")
        if c == "safe" and rp.can_cast(d, e):
            # a safe cast keeps every value
            if not (d in ("int64", "uint64") and np.dtype(e).kind in "fc"):
                A = G.array(src, d, (8,))
                compare("safe cast keeps values", A.r.astype(e).astype(d), A.n, exact=True)
    elif k == "issubdtype":
        c = src.choice(["integer", "floating", "complexfloating", "signedinteger", "unsignedinteger", "number", "inexact", "generic", "bool_"])
        src.note(f"issubdtype({d},{c})")
        src.nontrivial = True
        got = rp.issubdtype(d, getattr(np, c))
        if got != np.issubdtype(d, getattr(np, c)):
            raise Violation("value", f"issubdtype({d},{c}) = {got}")
    elif k == "isdtype":
        c = src.choice(["bool", "signed integer", "unsigned integer", "integral", "real floating", "complex floating", "numeric"])
        src.note(f"isdtype({d},{c})")
        src.nontrivial = True
        got = rp.isdtype(d, c)
        if got != np.isdtype(np.dtype(d), c):
            raise Violation("value", f"isdtype({d},{c}) = {got}")
    elif k == "common_type":
        if "bool" in (d, e):
            raise Discard
        got = rp.common_type(rp.zeros((1,), dtype=d), rp.zeros((1,), dtype=e))
        want = np.dtype(np.common_type(np.zeros(1, d), np.zeros(1, e))).name
        name = np.dtype(got).name if not isinstance(got, str) else got
        if name != want:
            raise Violation("value", f"common_type({d},{e}) = {got}, expected {want}")
    elif k == "info":
        src.nontrivial = True
        if d[0] == "f":
            a, b = rp.finfo(d), np.finfo(d)
            for at in ("eps", "max", "min", "tiny", "bits", "smallest_normal", "smallest_subnormal"):
                if float(getattr(a, at)) != float(getattr(b, at)):
                    raise Violation("value", f"finfo({d}).{at} = {getattr(a, at)!r}, expected {getattr(b, at)!r}")
        elif d[0] in "iu":
            a, b = rp.iinfo(d), np.iinfo(d)
            for at in ("max", "min", "bits"):
                if int(getattr(a, at)) != int(getattr(b, at)):
                    raise Violation("value", f"iinfo({d}).{at} = {getattr(a, at)!r}")
    else:
        x, y = rp.ones((3,), dtype=d), rp.ones((3,), dtype=e)
        got = str((x + y).dtype)
        if got != str(np.promote_types(d, e)):
            raise Violation("value", f"dtype of {d}+{e} = {got}")


ALIAS = {"f8": "float64", "f4": "float32", "f2": "float16", "i8": "int64", "i4": "int32", "i2": "int16", "i1": "int8", "u1": "uint8", "u2": "uint16",
         "u4": "uint32", "u8": "uint64", "?": "bool", "c16": "complex128", "c8": "complex64", "<f8": "float64", "<f4": "float32", "<i8": "int64", "<i4": "int32",
         "<u2": "uint16", "|u1": "uint8", "|i1": "int8", "|b1": "bool", "<c16": "complex128", "float": "float64", "int": "int64", "complex": "complex128"}


def spell(src):
    """The ways of naming a dtype agree."""
    k = src.choice(["np.dtype", "np.type", "alias", "rp.name", "dtypeobj", "type"])
    d = src.choice(G.ALL)
    src.nontrivial = True
    src.sig = f"{k} {d}"
    if k == "np.dtype":
        arg, want = np.dtype(d), d
    elif k == "np.type":
        arg, want = getattr(np, d if d != "bool" else "bool_"), d
    elif k == "alias":
        arg = src.choice(sorted(ALIAS))
        want = ALIAS[arg]
        src.sig = f"{k} {arg}"
    elif k == "rp.name":
        d = src.choice([x for x in G.ALL if hasattr(rp, x) and x != "bool"])
        arg, want = getattr(rp, d), d
    elif k == "dtypeobj":
        arg, want = rp.zeros((1,), dtype=d).dtype, d
    else:
        arg, want = src.choice([(float, "float64"), (int, "int64"), (bool, "bool"), (complex, "complex128")])
    src.note(f"dtype={arg!r}")
    r = run(lambda: (rp.zeros((2,), dtype=arg), rp.ones((1,), dtype=d).astype(arg) if isinstance(arg, str) else rp.ones(3, dtype=arg)))
    if isinstance(r, Err):
        if k in ("alias", "type", "np.type"):
            raise Discard(f"unsupported spelling")
        raise Violation("raises", f"dtype={arg!r}: {r}")
    for x in r:
        if str(x.dtype) != want:
            raise Violation("value", f"dtype={arg!r} gave {x.dtype}, expected {want}")
        if x.itemsize != np.dtype(want).itemsize or x.nbytes != x.size * x.itemsize:
            raise Violation("meta", f"itemsize/nbytes of {want}: {x.itemsize} {x.nbytes}")


def view(src):
    """view(dtype): same bytes, new dtype."""
    d = src.choice(G.ALL)
    e = src.choice(G.ALL)
    if e == "bool" or d == "bool" and e == "bool":
        raise Discard
    shp = G.shape(src, 1, 3, zero=0.02)
    A = G.array(src, d, shp, layout=src.bool(0.4))
    si, so = np.dtype(d).itemsize, np.dtype(e).itemsize
    src.sig = f"view {d} {e} {A.lay[:4]}"
    src.note(f"{A!r}.view({e})")
    src.nontrivial = d != e
    if si != so and not A.n.flags.c_contiguous:
        raise Discard
    n = run(lambda: A.n.view(e))
    if isinstance(n, Err):
        raise Discard("ref-refuses")
    r = run(lambda: A.r.view(e))
    if isinstance(r, Err):
        if not r.panic:
            raise Discard("unsupported")
        raise Violation("panic", f"view: {r}")
    compare("view", r, n, exact=True)


FACETS = {"astype": Facet(astype, 25000), "roundtrip": Facet(roundtrip, 10000), "promote": Facet(promote, 12000), "spell": Facet(spell, 4000), "view": Facet(view, 8000)}
