"""C08: basic indexing reads and writes exactly the elements NumPy does, and views alias their base (histories)."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show

RULE = ("an array (drawn dtype, shape, layout) with an index key of integers, slices (any start/stop/step), Ellipsis and newaxis; or a "
        "history of view-making operations, writes and copies over a growing set of handles, all handles compared after every step; "
        "non-trivial = the reference accepts the first key / at least one write went through a handle that shares memory with another")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference, including for which operations alias"]


def sl(src, d):
    st = src.weighted([(4, None), (2, 1), (3, 2), (3, -1), (2, -2), (1, 3), (1, -3), (1, 2 ** 63 - 1), (1, -2 ** 63), (1, 2 ** 62), (1, -2 ** 61), (1, 10 ** 30)])
    r = [None] + list(range(-d - 2, d + 3)) + [100, -100]
    return slice(src.choice(r), src.choice(r), st)


def key(src, shp, ints=True, bad=0.0, newaxis=True):
    """A basic index key; with probability `bad` an invalid one."""
    nd = len(shp)
    items = []
    k = src.int(0, nd)
    ell = src.bool(0.25)
    pos = src.int(0, k) if ell else -1
    wrong = src.weighted([(1, "oob"), (1, "many")]) if bad and src.bool(bad) else None
    at = src.below(k) if k else 0
    for i in range(k):
        if i == pos:
            items.append(Ellipsis)
        ax = i if (not ell or i < pos) else nd - (k - i)
        d = shp[ax]
        c = src.weighted([(5, "s"), (3 if ints and d else 0, "i"), (1 if newaxis else 0, "n")])
        if wrong == "oob" and i == at:
            items.append(src.choice([d, -d - 1, d + 1, d + 7, -d - 5, 2**31, -2**31, 2**62]))
            continue
        if c == "n":
            items.append(None)
            c = "s"
        items.append(src.int(-d, d - 1) if c == "i" else sl(src, d))
    if ell and pos == k:
        items.append(Ellipsis)
    if wrong == "many":
        items += [src.choice([0, slice(None), -1])] * (nd - k + 1)
    if len(items) == 1 and src.bool(0.7):
        return items[0]
    return tuple(items)


def kind(k):
    ks = k if isinstance(k, tuple) else (k,)
    return "".join(sorted({"i" if isinstance(x, int) else "s" if isinstance(x, slice) else "n" if x is None else "e" for x in ks})) + \
        ("t" if isinstance(k, tuple) else "")


def scalar_kind(what, r, n):
    """A full integer key gives a scalar of the element type."""
    if np.ndim(n) == 0 and not isinstance(r, rp.ndarray):
        want = {"b": bool, "i": int, "u": int, "f": float, "c": complex}[np.asarray(n).dtype.kind]
        if type(r) is not want:
            raise Violation("type", f"{what}: got {type(r).__name__}, expected {want.__name__}")


def get(src):
    d = src.choice(G.ALL)
    shp = G.shape(src, 0, 4)
    A = G.array(src, d, shp, bcast=True)
    k = key(src, shp, bad=0.06)
    src.sig = f"get {kind(k)} {'C' if A.lay == 'C' else 'view'} {A.n.dtype.kind}"
    src.label(kind(k))
    src.note(f"{A!r}[{k!r}]")
    src.nontrivial = True
    r = differential(src, "getitem", lambda: A.r[k], lambda: A.n[k], exact=True, invalid="reject")
    if r is not None:
        scalar_kind("getitem", r, A.n[k])
        if isinstance(r, rp.ndarray):
            # read it back in other ways
            compare("copy of view", r.copy(), A.n[k].copy(), exact=True)
            if r.tolist() != A.n[k].tolist() and not np.array_equal(np.asarray(r.tolist()), np.asarray(A.n[k].tolist()), equal_nan=True):
                raise Violation("tolist", f"tolist {r.tolist()} vs {A.n[k].tolist()}")


def value_for(src, d, shp, allow=("scalar", "array", "array")):
    """A value assignable to a view of shape shp and dtype d -> (rumpy value, numpy value, text)."""
    k = src.choice(list(allow))
    if k == "scalar" or (k == "list" and not len(shp)):
        v = src.choice(G.pool(d, "small"))
        return v, v, repr(v)
    if k == "list":
        v = G.values(src, d, int(np.prod(shp)), "small").reshape(shp).tolist()
        return v, v, repr(v)
    vs = tuple(1 if src.bool(0.2) else x for x in shp)
    cut = src.weighted([(5, 0), (1, 1), (1, 2)])
    vs = vs[min(cut, len(vs)):]
    vd = d if src.bool(0.6) else src.choice([x for x in G.ALL if np.dtype(x).kind != "c" or np.dtype(d).kind == "c"])
    # (a negative float stored in an unsigned element is undefined in C, and so is NumPy's answer)
    V = G.array(src, vd, vs, "nonneg" if np.dtype(d).kind == "u" and np.dtype(vd).kind == "f" else "small", bcast=True)
    return V.r, V.n, repr(V)


def setit(src):
    d = src.choice(G.ALL)
    shp = G.shape(src, 0, 4)
    A = G.array(src, d, shp)
    k = key(src, shp, bad=0.06, newaxis=False)
    n = run(lambda: A.n[k])
    vshp = np.shape(n) if not isinstance(n, Err) else (2,)
    rv, nv, txt = value_for(src, d, vshp)
    src.sig = f"set {kind(k)} {'C' if A.lay == 'C' else 'view'} {A.n.dtype.kind} {type(nv).__name__} {getattr(nv, 'dtype', '')}"
    src.note(f"x={A!r}; x[{k!r}] = {txt}")
    before = A.nbase.copy()
    e = run(lambda: A.n.__setitem__(k, nv))
    src.nontrivial = True
    r = run(lambda: A.r.__setitem__(k, rv))
    if isinstance(e, Err):
        if not isinstance(r, Err):
            raise Violation("accepts-invalid", f"setitem: reference raises {e}, rumpy accepted")
        compare("base after refused setitem", A.rbase, before, exact=True)
        return
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"setitem: rumpy raised {r}")
    compare("view after setitem", A.r, A.n, exact=True)
    compare("base after setitem", A.rbase, A.nbase, exact=True)


def overlap(src):
    """Assigning a view of an array to another view of the same array."""
    d = src.choice(["float64", "int64", "int8", "float32", "bool", "complex128"])
    shp = G.shape(src, 1, 3, zero=0)
    A = G.array(src, d, shp, "any", layout=False)
    ax = src.below(len(shp))
    pre = (slice(None),) * ax
    n = shp[ax]
    a, b = src.choice([(slice(1, None), slice(None, -1)), (slice(None, -1), slice(1, None)), (slice(None, None, -1), slice(None)),
                       (slice(None), slice(None, None, -1)), (slice(None), slice(None)), (slice(0, n // 2), slice(n - n // 2, None)),
                       (slice(None, None, 2), slice(None, (n + 1) // 2)), (slice(None), slice(0, 1))])
    src.sig = f"overlap {d} {a} {b}"
    src.note(f"x={A!r}; x[{pre + (a,)}] = x[{pre + (b,)}]")
    src.nontrivial = True

    def f(x, y):
        x[pre + (a,)] = y[pre + (b,)]
        return x
    m = A.n.copy()  # the right-hand side is read in full before anything is written (NumPy 2.3.5 gets this wrong for some bool arrays)
    differential(src, "overlapping setitem", lambda: f(A.r, A.r), lambda: f(m, A.n.copy()), exact=True)


VIEWS = ["get", "get", "get", "T", "transpose", "swapaxes", "moveaxis", "reshape", "expand_dims", "squeeze", "flip", "ravel", "full", "reshape", "rot90", "flips", "split", "atleast", "rollaxis", "method", "view"]


def hist(src):
    d = src.choice(G.ALL)
    shp = G.shape(src, 1, 3, zero=0)
    A = G.array(src, d, shp, "small", layout=False)
    hs = [[A.r, A.n.copy()]]
    shared = False
    log = [f"h0={A!r}"]
    src.note("")
    wrote = 0
    for step in range(src.int(3, 14)):
        i = src.below(len(hs))
        r, n = hs[i]
        o = src.weighted([(5, "view"), (5, "set"), (1, "copy"), (1, "drop")])
        src.sig = f"hist {o} {d}"
        if o == "view":
            v = src.choice(VIEWS)
            src.sig = f"hist {v} {d}"
            if v == "get":
                k = key(src, n.shape)
                rf, nf, t = (lambda: r[k]), (lambda: n[k]), f"[{k!r}]"
            elif v == "T":
                rf, nf, t = (lambda: r.T), (lambda: n.T), ".T"
            elif v == "full":
                rf, nf, t = (lambda: r[...]), (lambda: n[...]), "[...]"
            elif v == "transpose":
                p = src.perm(n.ndim)
                rf, nf, t = (lambda: rp.transpose(r, p)), (lambda: np.transpose(n, p)), f".transpose({p})"
            elif v in ("swapaxes", "moveaxis"):
                if n.ndim < 1:
                    continue
                a, b = src.int(-n.ndim, n.ndim - 1), src.int(-n.ndim, n.ndim - 1)
                rf, nf, t = (lambda: getattr(rp, v)(r, a, b)), (lambda: getattr(np, v)(n, a, b)), f".{v}({a}, {b})"
            elif v == "reshape":
                if n.size == 0:
                    continue
                s = factor(src, n.size)
                rf, nf, t = (lambda: r.reshape(*s)), (lambda: n.reshape(*s)), f".reshape{s}"
            elif v == "expand_dims":
                a = src.int(-n.ndim - 1, n.ndim)
                rf, nf, t = (lambda: rp.expand_dims(r, a)), (lambda: np.expand_dims(n, a)), f".expand_dims({a})"
            elif v == "squeeze":
                rf, nf, t = (lambda: rp.squeeze(r)), (lambda: np.squeeze(n)), ".squeeze()"
            elif v == "flip":
                if n.ndim < 1:
                    continue
                a = src.below(n.ndim)
                rf, nf, t = (lambda: rp.flip(r, a)), (lambda: np.flip(n, a)), f".flip({a})"
            elif v == "rot90":
                if n.ndim < 2:
                    continue
                k, a = src.int(-2, 3), tuple(src.perm(n.ndim)[:2])
                rf, nf, t = (lambda: rp.rot90(r, k, a)), (lambda: np.rot90(n, k, a)), f".rot90({k}, {a})"
            elif v == "flips":
                if n.ndim < 2:
                    continue
                g = src.choice(["fliplr", "flipud"])
                rf, nf, t = (lambda: getattr(rp, g)(r)), (lambda: getattr(np, g)(n)), f".{g}()"
            elif v == "split":
                if n.ndim < 1:
                    continue
                a, m = src.below(n.ndim), src.int(1, 3)
                j = src.below(m)
                rf, nf, t = (lambda: rp.array_split(r, m, axis=a)[j]), (lambda: np.array_split(n, m, axis=a)[j]), f".array_split({m}, axis={a})[{j}]"
            elif v == "atleast":
                g = src.choice(["atleast_1d", "atleast_2d", "atleast_3d"])
                rf, nf, t = (lambda: getattr(rp, g)(r)), (lambda: getattr(np, g)(n)), f".{g}()"
            elif v == "rollaxis":
                if n.ndim < 1:
                    continue
                a, b = src.below(n.ndim), src.int(0, n.ndim)
                rf, nf, t = (lambda: rp.rollaxis(r, a, b)), (lambda: np.rollaxis(n, a, b)), f".rollaxis({a}, {b})"
            elif v == "method":
                g = src.choice(["transpose()", "squeeze()", "ravel()", "flatten()"] + ["swapaxes(0, -1)"] * (n.ndim > 0))
                rf, nf, t = (lambda: eval("r." + g, {"r": r})), (lambda: eval("n." + g, {"n": n})), f".{g}"
            elif v == "view":
                rf, nf, t = (lambda: rp.asarray(r)), (lambda: np.asarray(n)), ".asarray()"
            else:
                rf, nf, t = (lambda: rp.ravel(r)), (lambda: np.ravel(n)), ".ravel()"
            log.append(f"h{len(hs)}=h{i}{t}")
            src.desc[0] = "; ".join(log)
            nv = nf()
            if not isinstance(nv, np.ndarray) or nv.ndim > 6:
                log.pop()
                continue
            rv = rf()
            if nv.ndim == 0 and not isinstance(rv, rp.ndarray):
                log.pop()  # a full integer key with an Ellipsis: a scalar here, a 0-d view in NumPy
                continue
            hs.append([rv, nv])
        elif o == "copy":
            log.append(f"h{len(hs)}=h{i}.copy()")
            src.desc[0] = "; ".join(log)
            hs.append([r.copy(), n.copy()])
        elif o == "drop":
            if len(hs) == 1:
                continue
            log.append(f"del h{i} (h{len(hs) - 1} becomes h{i})")
            hs[i] = hs[-1]
            hs.pop()
            r = n = None
        else:
            k = key(src, n.shape, newaxis=False)
            rv, nv, txt = value_for(src, d, np.shape(n[k]), ("scalar", "array"))
            log.append(f"h{i}[{k!r}]={txt}")
            src.desc[0] = "; ".join(log)
            n[k] = nv
            r[k] = rv
            wrote += 1
            shared |= any(j != i and np.shares_memory(h[1], n) for j, h in enumerate(hs)) and np.size(n[k]) > 0
        for j, (x, y) in enumerate(hs):
            compare(f"h{j} after step {step}", x, y, exact=True)
    src.sig = f"hist {d}"
    src.nontrivial = shared
    src.label(f"writes={min(wrote, 6)}")


def factor(src, n):
    """A random factorisation of n as a shape (with 1s)."""
    out = []
    while n > 1:
        ds = [x for x in range(2, n + 1) if n % x == 0]
        f = src.choice(ds)
        out.append(f)
        n //= f
    for _ in range(src.weighted([(4, 0), (1, 1), (1, 2)])):
        out.insert(src.int(0, len(out)), 1)
    if not out:
        return (1,)
    return tuple(out)


FACETS = {"get": Facet(get, 30000), "set": Facet(setit, 24000), "overlap": Facet(overlap, 5000), "hist": Facet(hist, 16000)}
