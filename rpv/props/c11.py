"""C11: sorting, searching, set operations and histograms."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show

RULE = ("an array (drawn dtype, shape, contents with duplicates, NaN, infinities, extreme integers; layout) and an ordering, searching, "
        "set or counting function with drawn axis, kth, side, bins; non-trivial = at least two elements are ordered, looked up or counted")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference (stable order for argsort); partitions are judged by their definition, since their order is not unique"]


def dup(src, d, shp, mode=None, **k):
    """Contents with many duplicates half of the time."""
    if mode is None:
        mode = src.choice(["any", "small", "tiny", "anyq"])
    if mode == "anyq":
        mode = "anyquarter" if d[0] in "f" else "any"
    return G.array(src, d, shp, mode, **k)


def axis(src, nd, none=True):
    return src.choice(([None] if none else []) + list(range(-nd, nd)))


def order(src):
    f = src.choice(["sort", "argsort", "sort_m", "argsort_m", "sort_default", "argsort_default"])
    d = src.choice(G.ALL)
    A = dup(src, d, G.shape(src, 1, 4), bcast=f != "sort_m")
    ax = axis(src, A.n.ndim, none=f != "sort_m")
    src.sig = f"{f} {d} {A.n.ndim} {ax is None}"
    src.note(f"{f}({A!r}, axis={ax})")
    src.nontrivial = A.n.size > 1
    if f == "sort":
        differential(src, f, lambda: rp.sort(A.r, axis=ax), lambda: np.sort(A.n, axis=ax), exact=True)
    elif f == "argsort":
        differential(src, f, lambda: rp.argsort(A.r, axis=ax), lambda: np.argsort(A.n, axis=ax, kind="stable"), exact=True)
    elif f == "sort_default":
        differential(src, f, lambda: rp.sort(A.r), lambda: np.sort(A.n), exact=True)
    elif f == "argsort_default":
        differential(src, f, lambda: rp.argsort(A.r), lambda: np.argsort(A.n, kind="stable"), exact=True)
    elif f == "argsort_m":
        differential(src, f, lambda: A.r.argsort(axis=ax), lambda: np.argsort(A.n, axis=ax, kind="stable"), exact=True)
    else:
        before = A.n.copy()
        r = run(lambda: A.r.sort(axis=ax))
        if isinstance(r, Err):
            raise Violation("raises", f"sort: {r}")
        A.n.sort(axis=ax)
        compare("array after sort()", A.r, A.n, exact=True)
        compare("base after sort()", A.rbase, A.nbase, exact=True)


def check_part(what, vals, orig, kth, ax):
    s = np.sort(orig, axis=ax)
    if vals.shape != orig.shape or vals.dtype != orig.dtype:
        raise Violation("shape", f"{what}: {vals.shape} {vals.dtype}, expected {orig.shape} {orig.dtype}")
    compare(f"{what}: sorted contents", np.sort(vals, axis=ax), s, exact=True)
    v, w = np.moveaxis(vals, ax, -1), np.moveaxis(s, ax, -1)
    compare(f"{what}: kth element", v[..., kth], w[..., kth], exact=True)
    # the first kth elements are the kth smallest, as a multiset
    compare(f"{what}: left part", np.sort(v[..., :kth], axis=-1), w[..., :kth], exact=True)


def part(src):
    f = src.choice(["partition", "argpartition", "partition_m", "argpartition_m"])
    d = src.choice(G.ALL)
    A = dup(src, d, G.shape(src, 1, 3), bcast=f != "partition_m")
    nd = A.n.ndim
    ax = -1 if f.endswith("_m") else axis(src, nd)
    o = A.n.copy() if ax is not None else A.n.reshape(-1).copy()
    ax2 = 0 if ax is None else ax
    L = o.shape[ax2]
    if L == 0:
        raise Discard
    kth = src.below(L)
    src.sig = f"{f} {d} {nd} {ax is None}"
    src.note(f"{f}({A!r}, {kth}, axis={ax})")
    src.nontrivial = L > 1 and o.size > 0
    if f == "partition":
        r = run(lambda: rp.partition(A.r, kth, axis=ax))
    elif f == "argpartition":
        r = run(lambda: rp.argpartition(A.r, kth, axis=ax))
    elif f == "argpartition_m":
        r = run(lambda: A.r.argpartition(kth))
    else:
        r = run(lambda: A.r.partition(kth))
    if isinstance(r, Err):
        raise Violation("raises", f"{f}: {r}")
    if f.startswith("arg"):
        i = np.asarray(r)
        if i.shape != o.shape or i.dtype != np.int64:
            raise Violation("shape", f"{f}: {show(r)}")
        if not np.array_equal(np.sort(i, axis=ax2), np.broadcast_to(np.arange(L).reshape([-1] + [1] * (o.ndim - 1 - (ax2 % o.ndim))), o.shape)):
            raise Violation("value", f"{f}: not a permutation: {show(r)}")
        check_part(f, np.take_along_axis(o, i, ax2), o, kth, ax2)
    elif f == "partition":
        check_part(f, np.asarray(r), o, kth, ax2)
    else:
        check_part(f, np.asarray(A.r), o, kth, ax2)
        if A.rbase is not A.r:  # nothing else of the base may change
            m = A.nbase.copy()
            A.n[...] = np.asarray(A.r)
            compare("base after partition()", A.rbase, A.nbase, exact=True)


def lex(src):
    n = src.int(0, 30)
    m = src.int(1, 4)
    ks = [dup(src, src.choice(G.ALL), (n,), src.choice(["tiny", "tiny", "any"]), bcast=True) for _ in range(m)]
    src.sig = f"lexsort {m} " + " ".join(str(k.n.dtype) for k in ks[:1])
    src.note(f"lexsort({ks})")
    src.nontrivial = n > 1
    differential(src, "lexsort", lambda: rp.lexsort(tuple(k.r for k in ks)), lambda: np.lexsort(tuple(k.n for k in ks)), exact=True)


def search(src):
    f = src.choice(["searchsorted", "searchsorted_m", "digitize", "digitize"])
    d = src.choice(G.REALB if f != "digitize" else ["float64", "float32", "int64", "int32", "uint8", "int8"])
    n = src.choice([0, 1, 2, 3, 5, 8, 20, 33])
    mode = "finite" if f == "digitize" and d[0] == "f" else "f53" if f == "digitize" else "any"
    srt = np.sort(G.values(src, d, n, src.choice([mode, "small"])))
    e = src.choice([d, d, src.choice(G.REALB if f != "digitize" else ["float64", "int64", "float32", "int16"])])
    V = G.array(src, e, G.shape(src, 1, 3), src.choice(["any" if e[0] == "f" or f != "digitize" else "f53", "small"]), bcast=True)
    src.sig = f"{f} {d} {e}"
    src.nontrivial = n > 0 and V.n.size > 0
    if f == "digitize":
        right = src.bool()
        if src.bool(0.4):
            srt = srt[::-1]
        B = G.array(src, d, (n,), vals=srt)
        if n == 0:
            raise Discard
        src.sig += f" {right}"
        src.note(f"digitize({V!r}, {B!r}, right={right})")
        differential(src, f, lambda: rp.digitize(V.r, B.r, right=right), lambda: np.digitize(V.n, B.n, right=right), exact=True)
        return
    B = G.array(src, d, (n,), vals=srt, bcast=False)
    side = src.choice(["left", "right"])
    scalar = src.bool(0.2) and V.n.size and d not in ("int64", "uint64", "bool") and e not in ("int64", "uint64", "bool")
    src.sig += f" {side} {'scalar' if scalar else ''}"
    src.note(f"{f}({B!r}, {V!r}{' first element' if scalar else ''}, side={side})")
    rv, nv = (V.n.flat[0].item(), np.float64(V.n.flat[0])) if scalar else (V.r, V.n)
    if f == "searchsorted":
        fit = (lambda x: np.asarray(x).reshape(-1)) if scalar else (lambda x: x)
        differential(src, f, lambda: fit(rp.searchsorted(B.r, rv, side=side)), lambda: fit(np.searchsorted(B.n, nv, side=side)), exact=True)
    else:
        differential(src, f, lambda: B.r.searchsorted(rv, side=side), lambda: B.n.searchsorted(nv, side=side), exact=True)


def _uall(f, x):
    """NumPy's answer from its stable path (the numbering of equal NaNs is otherwise arbitrary)."""
    u = np.unique_all(x)
    return {"unique_all": tuple(u), "unique_counts": (u.values, u.counts), "unique_inverse": (u.values, u.inverse_indices)}[f]


def sets(src):
    f = src.choice(["unique", "unique_values", "unique_counts", "unique_inverse", "unique_all", "isin", "in1d", "intersect1d", "union1d", "setdiff1d", "setxor1d"])
    d = src.choice(G.ALL)
    A = dup(src, d, G.shape(src, 1, 3), bcast=True)
    src.sig = f"{f} {d}"
    src.nontrivial = A.n.size > 1
    if d[0] == "c" and np.isnan(A.n).any():
        raise Discard("complex NaN")  # which of several complex NaNs are the same element is not pinned down
    if f.startswith("unique"):
        src.note(f"{f}({A!r})")
        if f == "unique":
            differential(src, f, lambda: rp.unique(A.r), lambda: np.unique(A.n), exact=True)
        elif f == "unique_values":
            differential(src, f, lambda: rp.unique_values(A.r), lambda: np.unique(A.n, equal_nan=False), exact=True)
        else:
            differential(src, f, lambda: tuple(getattr(rp, f)(A.r)), lambda: _uall(f, A.n), exact=True)
        return
    e = src.choice([d, d, src.choice(G.ALL)])
    B = dup(src, e, G.shape(src, 1, 2), bcast=True)
    src.sig += f" {e}"
    src.nontrivial = A.n.size > 0 and B.n.size > 0
    ct = np.result_type(A.n, B.n)
    if f in ("isin", "in1d"):
        inv = src.bool(0.4)
        src.note(f"{f}({A!r}, {B!r}, invert={inv})")
        x = A.n if f == "isin" else A.n.reshape(-1)
        # defined elementwise over the common dtype: NumPy picks among algorithms, some of which compare exactly across dtypes
        with np.errstate(all="ignore"):
            ref = (x.astype(ct)[..., None] == B.n.astype(ct).reshape(-1)).any(-1) ^ inv
        differential(src, f, lambda: getattr(rp, f)(A.r, B.r, invert=inv), lambda: ref, exact=True)
        return
    src.note(f"{f}({A!r}, {B!r})")
    if f in ("setdiff1d",) and ct != A.n.dtype:
        B = dup(src, d, B.n.shape)
        src.note(f"{f}({A!r}, {B!r})")
    if B.n.dtype.kind == "c" and np.isnan(B.n).any():
        raise Discard("complex NaN")
    if any(len(np.unique(x)) != len(np.unique(x.astype(ct))) for x in (A.n, B.n)):
        raise Discard("distinct integers collapse in the common dtype")
    differential(src, f, lambda: getattr(rp, f)(A.r, B.r), lambda: getattr(np, f)(A.n, B.n), exact=True)


def hist(src):
    f = src.choice(["histogram", "histogram", "histogram_bin_edges", "histogram2d", "histogramdd", "bincount", "counts_sum"])
    d = src.choice(["float64", "float32", "int64", "int32", "uint8", "int16", "bool"])
    src.sig = f"{f} {d}"
    if f == "bincount":
        d = src.choice([x for x in G.INTS])
        src.sig = f"{f} {d}"
        A = G.array(src, d, (src.int(0, 40),), src.choice(["nonneg", "nonneg", "tiny"]))
        ml = src.choice([0, 0, 1, 5, 20, 150])
        src.note(f"bincount({A!r}, minlength={ml})")
        src.nontrivial = A.n.size > 1
        differential(src, f, lambda: rp.bincount(A.r, minlength=ml), lambda: np.bincount(A.n.astype("int64"), minlength=ml), exact=True, invalid="reject")
        return
    mode = "mod" if d[0] == "f" else "small"
    rng = None
    if src.bool(0.4):
        a = src.choice([-5.0, 0.0, -1.0, 1.0, 0.5])
        rng = (a, a + src.choice([1.0, 2.0, 4.0, 8.0, 0.5]))
    if f in ("histogram", "histogram_bin_edges", "counts_sum"):
        A = G.array(src, d, G.shape(src, 1, 2), mode, bcast=True)
        bins = src.choice([1, 2, 3, 4, 5, 8, 10, 16])
        if A.n.size == 0 and rng is None:
            raise Discard
        src.sig += f" {rng is None}"
        src.note(f"{f}({A!r}, bins={bins}, range={rng})")
        src.nontrivial = A.n.size > 1
        kw = {"range": rng} if rng else {}
        if f == "histogram_bin_edges":
            differential(src, f, lambda: rp.histogram_bin_edges(A.r, bins=bins, **kw), lambda: np.histogram_bin_edges(A.n.astype("float64"), bins=bins, **kw), rtol=1e-12, atol=1e-12)
            return
        r = run(lambda: rp.histogram(A.r, bins=bins, **kw))
        if isinstance(r, Err):
            raise Violation("raises", f"{f}: {r}")
        h, e = np.asarray(r[0]), np.asarray(r[1])
        en = np.histogram_bin_edges(A.n.astype("float64"), bins=bins, **kw)
        compare("histogram edges", e, en, rtol=1e-12, atol=1e-12, dtype=None)
        # values away from every edge must be counted exactly; those on an edge may fall either side by rounding
        x = A.n.astype("float64").ravel()
        if f == "counts_sum":
            lo, hi = en[0], en[-1]
            want = int(((x >= lo) & (x <= hi)).sum())
            if int(h.sum()) != want:
                raise Violation("value", f"histogram counts {h.tolist()} sum to {h.sum()}, {want} values are in range")
            return
        w = (en[-1] - en[0]) / bins
        near = (np.abs(x[:, None] - en[None, :]) < 1e-9 * max(1, abs(w))) & (x[:, None] != np.array([en[0]] + [np.nan] * (bins - 1) + [en[-1]])[None, :])
        if near.any() and not (d[0] == "i" and rng is not None and w in (0.5, 1.0, 2.0, 4.0, 0.25, 0.125)):
            src.label("edge")
            return
        compare("histogram counts", h, np.histogram(x, bins=en)[0], dtype=None)
        return
    n = src.int(1, 30)
    m = 2 if f == "histogram2d" else src.int(1, 3)
    bins = [src.choice([1, 2, 3, 4]) for _ in range(m)] if src.bool() else src.choice([1, 2, 3, 4])
    xs = G.array(src, "float64", (n, m), "mod")
    rr = None
    if src.bool(0.4):
        rr = []
        for _ in range(m):
            a = src.choice([-5.0, 0.0, -1.0, 0.3])
            rr.append((a, a + src.choice([1.0, 2.0, 4.0, 10.0])))
    dens = src.bool(0.2)
    src.sig = f"{f} {m} {rr is None} {dens} {type(bins).__name__}"
    src.note(f"{f}({xs!r}, bins={bins}, range={rr}, density={dens})")
    src.nontrivial = n > 1
    kw = {}
    if rr:
        kw["range"] = [list(x) for x in rr]
    if dens:
        kw["density"] = True
        inr = np.ones(n, bool)
        if rr:
            for j, (lo, hi) in enumerate(rr):
                inr &= (xs.n[:, j] >= lo) & (xs.n[:, j] <= hi)
        if not inr.any():
            raise Discard
    # stay away from interior edges
    bl = bins if isinstance(bins, list) else [bins] * m
    for j in range(m):
        lo, hi = rr[j] if rr else (xs.n[:, j].min(), xs.n[:, j].max())
        ed = np.linspace(lo, hi, bl[j] + 1)
        if (np.abs(xs.n[:, j][:, None] - ed[None, 1:-1]) < 1e-9).any():
            raise Discard
    if f == "histogram2d":
        differential(src, f, lambda: tuple(rp.histogram2d(xs.r[:, 0], xs.r[:, 1], bins=bins, **kw)),
                     lambda: tuple(np.histogram2d(xs.n[:, 0], xs.n[:, 1], bins=bins, **kw)), rtol=1e-11, atol=1e-12)
    else:
        differential(src, f, lambda: _dd(rp.histogramdd(xs.r, bins=bins, **kw)), lambda: _dd(np.histogramdd(xs.n, bins=bins, **kw)), rtol=1e-11, atol=1e-12)


def _dd(r):
    return (r[0],) + tuple(r[1])


FACETS = {"order": Facet(order, 25000), "part": Facet(part, 12000), "lex": Facet(lex, 5000), "search": Facet(search, 15000),
          "sets": Facet(sets, 20000), "hist": Facet(hist, 12000)}
