"""C09: advanced indexing and selection functions pick and write exactly the elements NumPy does."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show

RULE = ("an array (drawn dtype, shape, layout) with drawn selectors: boolean masks, integer index arrays or lists (negative and repeated "
        "indices, sometimes out of range), conditions, choices, positions; non-trivial = the reference accepts the call and selects or "
        "writes at least one element, or refuses it and rumpy must refuse too")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference"]

IDX = ["int64", "int64", "int32", "uint8", "int8", "int16", "uint32", "uint64", "uint16"]


def idx_array(src, n, shp, bad=0.0, dts=IDX, layout=True):
    """An integer index array of shape shp for an axis of length n; with probability bad one entry is out of range."""
    d = src.choice([x for x in dts if np.iinfo(x).max > n + 2 and (x[0] == 'u' or n < 120 or x in ('int64', 'int32', 'int16'))] or ["int64"])
    size = int(np.prod(shp))
    lo = 0 if d[0] == "u" else -n
    vs = [src.int(lo, n - 1) if n > 0 else 0 for _ in range(size)]
    wrong = False
    if bad and size and src.bool(bad):
        vs[src.below(size)] = src.choice([n, n + 1] + ([-n - 1, -n - 2] if lo else []) + ([10**9, -10**9] if d == 'int64' else []))
        wrong = True
    return G.array(src, d, shp, vals=np.array(vs, dtype=d).reshape(shp), layout=layout), wrong


def getadv(src):
    """x[mask], x[int array], x[list]"""
    d = src.choice(G.ALL)
    shp = G.shape(src, 1, 4)
    A = G.array(src, d, shp, bcast=True)
    k = src.weighted([(4, "mask"), (4, "iarr"), (2, "list")])
    src.nontrivial = A.n.size > 0
    if k == "mask":
        M = G.array(src, "bool", shp, bcast=True)
        src.sig = f"mask {d} {len(shp)}"
        src.note(f"{A!r}[{M!r}]")
        differential(src, "x[mask]", lambda: A.r[M.r], lambda: A.n[M.n], exact=True)
        return
    if k == "iarr":
        ishp = G.shape(src, 1, 2, maxdim=4)
        I, wrong = idx_array(src, shp[0], ishp, 0.08)
        src.sig = f"iarr {d} {I.n.dtype} {len(shp)} {len(ishp)}{' bad' if wrong else ''}"
        src.note(f"{A!r}[{I!r}]")
        differential(src, "x[idx]", lambda: A.r[I.r], lambda: A.n[I.n], exact=True, invalid="reject")
        return
    I, wrong = idx_array(src, shp[0], (src.int(1, 5),), 0.1, ["int64"], False)
    L = I.n.tolist()
    src.sig = f"list {d} {len(shp)}{' bad' if wrong else ''}"
    src.note(f"{A!r}[{L!r}]")
    differential(src, "x[list]", lambda: A.r[L], lambda: A.n[L], exact=True, invalid="reject")


def pick(src):
    f = src.choice(["take", "take_m", "take_along_axis", "compress", "compress_m", "extract", "choose", "choose_m", "select", "piecewise",
                    "nonzero", "nonzero_m", "argwhere", "flatnonzero", "count_nonzero", "apply_sort"])
    d = src.choice(G.ALL)
    A = G.array(src, d, G.shape(src, 0 if f in ("argwhere", "flatnonzero", "count_nonzero") else 1, 4), bcast=True)
    shp, nd = A.n.shape, A.n.ndim
    src.nontrivial = A.n.size > 0
    src.sig = f"{f} {d} {nd}"
    if f in ("take", "take_m"):
        ax = src.below(nd) if src.bool(0.7) else None
        n = shp[ax] if ax is not None else A.n.size
        I, wrong = idx_array(src, n, G.shape(src, 1, 2, maxdim=4), 0.06)
        lst = f == "take" and I.n.ndim == 1 and src.bool(0.3)
        if A.n.size == 0 and (wrong or n == 0):
            raise Discard  # NumPy does not look at the indices of an empty take
        src.sig += f" ax={'None' if ax is None else 'k'} i{I.n.ndim} {I.n.dtype}{' bad' if wrong else ''}"
        src.note(f"take({A!r}, {I!r}, axis={ax})")
        iv = I.n.tolist() if lst else I.r
        if f == "take_m":
            differential(src, "take", lambda: A.r.take(iv, axis=ax), lambda: A.n.take(I.n.astype("int64"), axis=ax), exact=True, invalid="reject")
        else:
            differential(src, "take", lambda: rp.take(A.r, iv, axis=ax), lambda: np.take(A.n, I.n.astype("int64"), axis=ax), exact=True, invalid="reject")
    elif f == "take_along_axis":
        ax = src.below(nd)
        ishp = list(shp)
        ishp[ax] = src.int(0, 4)
        I, wrong = idx_array(src, shp[ax], tuple(ishp), 0.06)
        src.note(f"take_along_axis({A!r}, {I!r}, {ax})")
        differential(src, f, lambda: rp.take_along_axis(A.r, I.r, ax), lambda: np.take_along_axis(A.n, I.n, ax), exact=True, invalid="reject")
    elif f in ("compress", "compress_m"):
        ax = src.below(nd) if src.bool(0.7) else None
        n = shp[ax] if ax is not None else A.n.size
        C = G.array(src, src.choice(["bool", "bool", "int64", "float64"]), (src.int(0, n),), "tiny")
        src.sig += f" ax={'None' if ax is None else 'k'}"
        src.note(f"compress({C!r}, {A!r}, axis={ax})")
        cv = C.n.tolist() if C.n.dtype == bool and src.bool(0.4) else C.r
        if f == "compress":
            differential(src, f, lambda: rp.compress(cv, A.r, axis=ax), lambda: np.compress(C.n, A.n, axis=ax), exact=True)
        else:
            differential(src, f, lambda: A.r.compress(cv, axis=ax), lambda: A.n.compress(C.n, axis=ax), exact=True)
    elif f == "extract":
        C = G.array(src, src.choice(["bool", "int8", "float64"]), shp, "tiny", bcast=True)
        src.note(f"extract({C!r}, {A!r})")
        differential(src, f, lambda: rp.extract(C.r, A.r), lambda: np.extract(C.n, A.n), exact=True)
    elif f in ("choose", "choose_m"):
        m = src.int(1, 4)
        I, wrong = idx_array(src, m, shp, 0.05, ["int64", "int32", "uint8"])
        if (I.n < 0).any() and not wrong:
            np_i = np.abs(I.n) % m
            I = G.array(src, str(I.n.dtype), shp, vals=np_i.astype(I.n.dtype))
        cs = [G.array(src, d, shp, bcast=True) for _ in range(m)]
        src.sig += " bad" if wrong else ""
        src.note(f"choose({I!r}, {cs!r})")
        if f == "choose":
            differential(src, f, lambda: rp.choose(I.r, [c.r for c in cs]), lambda: np.choose(I.n, [c.n for c in cs]), exact=True, invalid="reject")
        else:
            differential(src, f, lambda: I.r.choose([c.r for c in cs]), lambda: I.n.choose([c.n for c in cs]), exact=True, invalid="reject")
    elif f == "select":
        if d == "bool":
            d = "int64"  # (the default is a float here, so a bool choice list stays bool)
        m = src.int(1, 4)
        conds = [G.array(src, "bool", shp, bcast=True) for _ in range(m)]
        cs = [G.array(src, d, shp, bcast=True) for _ in range(m)]
        dv = src.choice([0, 1, 5])
        src.note(f"select({conds!r}, {cs!r}, {dv})")
        differential(src, f, lambda: rp.select([c.r for c in conds], [c.r for c in cs], dv),
                     lambda: np.select([c.n for c in conds], [c.n for c in cs], dv), exact=True)
    elif f == "piecewise":
        m = src.int(1, 3)
        if nd != 1:
            A = G.array(src, d, (src.int(1, 9),))
        conds = [G.array(src, "bool", A.n.shape) for _ in range(m)]
        fl = [src.choice([0, 1, 3]) for _ in range(m + src.below(2))]
        src.sig = f"{f} {d}"
        src.note(f"piecewise({A!r}, {conds!r}, {fl})")
        differential(src, f, lambda: rp.piecewise(A.r, [c.r for c in conds], fl), lambda: np.piecewise(A.n, [c.n for c in conds], fl), exact=True)
    elif f == "nonzero":
        src.note(f"nonzero({A!r})")
        differential(src, f, lambda: rp.nonzero(A.r), lambda: np.nonzero(A.n), exact=True)
    elif f == "nonzero_m":
        src.note(f"{A!r}.nonzero()")
        differential(src, f, lambda: A.r.nonzero(), lambda: np.nonzero(A.n), exact=True)
    elif f in ("argwhere", "flatnonzero", "count_nonzero"):
        src.note(f"{f}({A!r})")
        differential(src, f, lambda: getattr(rp, f)(A.r), lambda: getattr(np, f)(A.n), exact=True)
    else:  # argsort feeding take_along_axis sorts
        if A.n.dtype.kind == "c" or A.n.size == 0 or nd < 1:
            raise Discard
        ax = src.below(nd)
        src.note(f"take_along_axis({A!r}, argsort(axis={ax}), {ax})")
        differential(src, f, lambda: rp.take_along_axis(A.r, rp.argsort(A.r, axis=ax), ax), lambda: np.sort(A.n, axis=ax), exact=True)


def write(src):
    f = src.choice(["put", "put_m", "put_along_axis", "putmask", "place", "copyto", "copyto_where", "fill_diagonal", "fill_diagonal"])
    d = src.choice(G.ALL)
    shp = G.shape(src, 2 if f == "fill_diagonal" else 1, 3)
    if f == "fill_diagonal" and len(shp) > 2:
        shp = (shp[0],) * len(shp)
    A = G.array(src, d, shp)
    src.sig = f"{f} {d}"
    src.nontrivial = A.n.size > 0
    m = A.n
    mode = "nonneg" if d[0] == "u" else "small"

    def vals(s, dd=None):
        return G.array(src, dd or d, s, mode)
    if f in ("put", "put_m"):
        if not m.size:
            raise Discard
        I, wrong = idx_array(src, m.size, (src.int(1, 5),), 0.06)
        V = vals((src.int(1, 6),))
        t = src.choice(["array", "scalar", "list"])
        v = V.n.flat[0].item()
        rv, nv = (V.r, V.n) if t == "array" else (v, v) if t == "scalar" else (V.n.tolist(), V.n)
        src.sig += f" {t} {I.n.dtype}{' bad' if wrong else ''}"
        src.note(f"x={A!r}; put(x, {I!r}, {V!r} as {t})")
        ii = I.n.astype("int64")
        rf = (lambda: rp.put(A.r, I.r, rv)) if f == "put" else (lambda: A.r.put(I.r, rv))
        nf = lambda: np.put(m, ii, nv)
    elif f == "put_along_axis":
        ax = src.below(len(shp))
        ishp = list(shp)
        ishp[ax] = src.int(0, min(3, shp[ax]))
        wrong = False
        # distinct targets: the order of colliding writes is unspecified
        v = np.zeros(ishp, "int64")
        for lane in np.ndindex(*[x for i, x in enumerate(ishp) if i != ax]):
            p = src.perm(shp[ax])[:ishp[ax]]
            v[lane[:ax] + (slice(None),) + lane[ax:]] = [q - shp[ax] if src.bool(0.3) else q for q in p]
        if v.size and src.bool(0.05):
            v.flat[src.below(v.size)] = src.choice([shp[ax], -shp[ax] - 1])
            wrong = True
        I = G.array(src, src.choice(["int64", "int32"]), tuple(ishp), vals=v.astype("int64"))
        V = vals(tuple(ishp))
        src.sig += f"{' bad' if wrong else ''}"
        src.note(f"x={A!r}; put_along_axis(x, {I!r}, {V!r}, {ax})")
        rf, nf = (lambda: rp.put_along_axis(A.r, I.r, V.r, ax)), (lambda: np.put_along_axis(m, I.n, V.n, ax))
    elif f in ("putmask", "place"):
        M = G.array(src, "bool", shp)
        V = vals((src.int(1, 6),))
        src.note(f"x={A!r}; {f}(x, {M!r}, {V!r})")
        rf, nf = (lambda: getattr(rp, f)(A.r, M.r, V.r)), (lambda: getattr(np, f)(m, M.n, V.n))
    elif f in ("copyto", "copyto_where"):
        vs = tuple(1 if src.bool(0.2) else x for x in shp)[min(src.weighted([(5, 0), (1, 1), (1, 2)]), len(shp)):]
        V = G.array(src, d, vs, bcast=True)
        if f == "copyto":
            src.note(f"x={A!r}; copyto(x, {V!r})")
            rf, nf = (lambda: rp.copyto(A.r, V.r)), (lambda: np.copyto(m, V.n))
        else:
            M = G.array(src, "bool", shp, bcast=True)
            src.note(f"x={A!r}; copyto(x, {V!r}, where={M!r})")
            rf, nf = (lambda: rp.copyto(A.r, V.r, where=M.r)), (lambda: np.copyto(m, V.n, where=M.n))
    else:
        wrap = src.bool(0.4)
        t = src.choice(["scalar", "array", "list"])
        V = vals((src.int(1, 5),))
        v = V.n.flat[0].item()
        rv, nv = (V.r, V.n) if t == "array" else (v, v) if t == "scalar" else (V.n.tolist(), V.n)
        src.sig += f" {t} wrap={wrap}"
        src.note(f"x={A!r}; fill_diagonal(x, {V!r} as {t}, wrap={wrap})")
        rf, nf = (lambda: rp.fill_diagonal(A.r, rv, wrap=wrap)), (lambda: np.fill_diagonal(m, nv, wrap=wrap))
    before = A.nbase.copy()
    e = run(nf)
    r = run(rf)
    if isinstance(e, Err):
        src.label("ref-refuses")
        if isinstance(e.e, IndexError):
            if not isinstance(r, Err):
                raise Violation("accepts-invalid", f"{f}: reference raises {e}, rumpy accepted")
            return
        raise Discard("ref-refuses")
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{f}: rumpy raised {r}")
    compare(f"array after {f}", A.r, A.n, exact=True)
    compare(f"base after {f}", A.rbase, A.nbase, exact=True)


def index_makers(src):
    f = src.choice(["diag_indices", "diag_indices_from", "tril_indices", "triu_indices", "tril_indices_from", "triu_indices_from", "mask_indices",
                    "unravel_index", "ravel_multi_index", "ix_", "indices", "ndindex", "ndenumerate", "packbits", "unpackbits", "bits_rt",
                    "ravel_rt", "flat_iter", "mgrid", "ogrid"])
    src.sig = f
    src.nontrivial = True
    ex = dict(exact=True)
    if f == "diag_indices":
        n, k = src.int(0, 6), src.int(1, 4)
        src.note(f"{n},{k}")
        differential(src, f, lambda: rp.diag_indices(n, k), lambda: np.diag_indices(n, k), **ex)
    elif f == "diag_indices_from":
        n, k = src.int(1, 4), src.int(2, 3)
        A = G.array(src, "float64", (n,) * k)
        src.note(f"{A!r}")
        differential(src, f, lambda: rp.diag_indices_from(A.r), lambda: np.diag_indices_from(A.n), **ex)
    elif f in ("tril_indices", "triu_indices"):
        n, k, m = src.int(0, 6), src.int(-7, 7), src.choice([None, 0, 1, 2, 3, 4, 6, 7])
        src.note(f"n={n}, k={k}, m={m}")
        differential(src, f, lambda: getattr(rp, f)(n, k, m), lambda: getattr(np, f)(n, k, m), **ex)
    elif f in ("tril_indices_from", "triu_indices_from"):
        A = G.array(src, "float64", (src.int(1, 5), src.int(1, 5)))
        k = src.int(-6, 6)
        src.note(f"{A.n.shape} k={k}")
        differential(src, f, lambda: getattr(rp, f)(A.r, k), lambda: getattr(np, f)(A.n, k), **ex)
    elif f == "mask_indices":
        n, k, g = src.int(0, 5), src.int(-5, 5), src.choice(["tril", "triu"])
        src.note(f"{n} {g} {k}")
        differential(src, f, lambda: rp.mask_indices(n, getattr(rp, g), k), lambda: np.mask_indices(n, getattr(np, g), k), **ex)
    elif f == "unravel_index":
        shp = G.shape(src, 1, 4, zero=0)
        n = int(np.prod(shp))
        o = src.choice("CF")
        t = src.choice(["int", "list", "array"])
        vs = [src.below(n) for _ in range(src.int(1, 5))]
        if src.bool(0.08):
            vs[0] = n + src.below(3)
        I = G.array(src, src.choice(["int64", "int32", "uint8"] if n < 250 else ["int64", "int32"]), (len(vs),), vals=np.array(vs))
        v = vs[0] if t == "int" else vs
        src.sig = f"{f} {t} {o}"
        src.note(f"unravel_index({I!r} as {t}, {shp}, {o})")
        differential(src, f, lambda: rp.unravel_index(I.r if t == "array" else v, shp, order=o),
                     lambda: np.unravel_index(v, shp, order=o), invalid="reject", **ex)
    elif f == "ravel_multi_index":
        shp = G.shape(src, 1, 4, zero=0)
        o = src.choice("CF")
        mode = src.choice(["raise", "raise", "wrap", "clip"])
        n = src.int(1, 5)
        rows = [[src.below(s) if mode == "raise" else src.int(-3 * s, 3 * s) for _ in range(n)] for s in shp]
        if mode == "raise" and src.bool(0.1):
            rows[src.below(len(rows))][0] = src.choice([-1, 100])
        src.sig = f"{f} {mode} {o}"
        src.note(f"ravel_multi_index({rows}, {shp}, mode={mode}, order={o})")
        arr = src.bool(0.5)
        X = G.array(src, "int64", (len(shp), n), vals=np.array(rows))
        differential(src, f, lambda: rp.ravel_multi_index(X.r if arr else rows, shp, mode=mode, order=o),
                     lambda: np.ravel_multi_index(tuple(np.array(x) for x in rows), shp, mode=mode, order=o), invalid="reject", **ex)
    elif f == "ix_":
        m = src.int(1, 3)
        xs = [G.array(src, "int64", (src.int(1, 4),), "small") for _ in range(m)]
        src.note(f"{xs}")
        differential(src, f, lambda: rp.ix_(*[x.r for x in xs]), lambda: np.ix_(*[x.n for x in xs]), **ex)
    elif f == "indices":
        shp = G.shape(src, 1, 4)
        kw = {"dtype": src.choice(["float64", "int32", "int64", "float32", "uint8", "complex128"])} if src.bool(0.5) else {}
        if kw.get("dtype") == "uint8" and max(shp) > 256:
            raise Discard("unrepresentable")
        src.note(f"{shp} {kw}")
        differential(src, f, lambda: rp.indices(shp, **kw), lambda: np.indices(shp, **kw), **ex)
    elif f == "ndindex":
        shp = G.shape(src, 0, 3, maxdim=4)
        src.note(f"{shp}")
        a, b = list(rp.ndindex(*shp)), list(np.ndindex(*shp))
        if a != b:
            raise Violation("value", f"ndindex{shp}: {a} vs {b}")
    elif f == "ndenumerate":
        d = src.choice([x for x in G.REALB])
        A = G.array(src, d, G.shape(src, 0, 3), "small", bcast=True)
        src.note(f"{A!r}")
        a, b = list(rp.ndenumerate(A.r)), [(i, v.item()) for i, v in np.ndenumerate(A.n)]
        if a != b:
            raise Violation("value", f"ndenumerate {A!r}: {a} vs {b}")
    elif f == "flat_iter":
        d = src.choice(G.ALL)
        A = G.array(src, d, G.shape(src, 0, 3), bcast=True)
        src.sig = f"{f} {d}"
        src.note(f"{A!r}")
        a, b = list(A.r.flat), [v.item() for v in A.n.flat]
        if len(a) != len(b) or not all(x == y or (x != x and y != y) for x, y in zip(a, b)):
            raise Violation("value", f"flat of {A!r}: {a} vs {b}")
    elif f == "packbits":
        A = G.array(src, src.choice(["bool", "uint8", "int64", "int8"]), G.shape(src, 1, 3, maxdim=9), "small", bcast=True)
        ax = src.choice([None] + list(range(-A.n.ndim, A.n.ndim)))
        o = src.choice(["big", "little"])
        src.note(f"packbits({A!r}, axis={ax}, {o})")
        differential(src, f, lambda: rp.packbits(A.r, axis=ax, bitorder=o), lambda: np.packbits(A.n, axis=ax, bitorder=o), **ex)
    elif f == "unpackbits":
        A = G.array(src, "uint8", G.shape(src, 1, 3), bcast=True)
        ax = src.choice([None] + list(range(-A.n.ndim, A.n.ndim)))
        o = src.choice(["big", "little"])
        full = (A.n.size if ax is None else A.n.shape[ax]) * 8
        c = None if src.bool(0.5) else src.int(0, full)
        src.note(f"unpackbits({A!r}, axis={ax}, count={c}, {o})")
        differential(src, f, lambda: rp.unpackbits(A.r, axis=ax, count=c, bitorder=o), lambda: np.unpackbits(A.n, axis=ax, count=c, bitorder=o), **ex)
    elif f == "bits_rt":
        A = G.array(src, "bool", (src.int(0, 200),))
        o = src.choice(["big", "little"])
        src.note(f"{A!r} {o}")
        compare("unpackbits(packbits(x))", rp.unpackbits(rp.packbits(A.r, bitorder=o), count=A.n.size, bitorder=o), A.n.astype("uint8"), exact=True)
    elif f == "ravel_rt":
        shp = G.shape(src, 1, 4, zero=0)
        n = int(np.prod(shp))
        o = src.choice("CF")
        vs = [src.below(n) for _ in range(src.int(1, 6))]
        src.note(f"{vs} {shp} {o}")
        un = rp.unravel_index(vs, shp, order=o)
        compare("ravel_multi_index(unravel_index(i))", rp.ravel_multi_index([u.tolist() for u in un], shp, order=o), np.array(vs), exact=True)
    else:
        m = src.int(1, 3)
        ks = []
        cplx = src.bool(0.25)
        for _ in range(m):
            if cplx:
                ks.append(slice(src.int(-3, 3), src.int(-3, 6), 1j * src.int(1, 5)))
            else:
                ks.append(slice(src.choice([None, -2, 0, 1]), src.int(0, 6), src.choice([None, 1, 2, 3])))
        key = tuple(ks) if m > 1 else ks[0]
        src.sig = f"{f} {'1' if not isinstance(key, tuple) else 't'}"
        src.note(f"{f}[{key}]")
        differential(src, f, lambda: getattr(rp, f)[key], lambda: _grid(f, key), **ex)


def _grid(f, key):
    g = getattr(np, f)[key]
    if f == "mgrid" and isinstance(key, tuple):
        return list(g)
    return g


FACETS = {"getadv": Facet(getadv, 20000), "pick": Facet(pick, 30000), "write": Facet(write, 20000), "index_makers": Facet(index_makers, 20000)}
