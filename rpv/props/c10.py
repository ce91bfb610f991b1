"""C10: shape manipulation, joining, splitting, tiling and padding move exactly the elements NumPy moves."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show
from .c08 import factor

RULE = ("one array or a list of arrays (drawn dtype, shape up to 4-d, contents, layout) and a shape operation with drawn valid arguments; "
        "the result is compared exactly with NumPy's; non-trivial = at least one element moved and the reference accepts")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference"]

ONE = ["reshape", "reshape_m", "ravel", "ravel_m", "flatten", "transpose", "T", "swapaxes", "swapaxes_m", "moveaxis", "moveaxis_l", "rollaxis",
       "atleast_1d", "atleast_2d", "atleast_3d", "expand_dims", "squeeze", "squeeze_m", "broadcast_to", "flip", "flip_all", "flipud", "fliplr", "split",
       "array_split", "hsplit", "vsplit", "dsplit", "repeat", "repeat_m", "tile", "roll", "rot90", "pad", "delete", "matrix_transpose",
       "permute_dims", "resize", "trim_zeros", "diagonal", "diagonal_m", "tril", "triu", "insert", "append", "copy", "flat", "unstack"]
PADS = ["constant", "edge"]  # the modes rumpy implements


def one(src):
    fn = src.choice(ONE)
    d = src.choice(G.ALL)
    lo = {"fliplr": 2, "rot90": 2, "matrix_transpose": 2, "vsplit": 2, "dsplit": 3, "hsplit": 1, "split": 1, "array_split": 1, "swapaxes": 1,
          "swapaxes_m": 1, "moveaxis": 1, "moveaxis_l": 1, "rollaxis": 1, "flip": 1, "flipud": 1, "diagonal": 2, "diagonal_m": 2, "tril": 1,
          "triu": 1, "pad": 1, "delete": 1, "insert": 1, "unstack": 1}.get(fn, 0)
    hi = {"trim_zeros": 1, "diagonal": 2, "diagonal_m": 2}.get(fn, 4)
    lo = 1 if fn == "trim_zeros" else lo
    shp = G.shape(src, lo, hi)
    A = G.array(src, d, shp, src.choice(["any", "tiny"]), bcast=True)
    n, r, nd = A.n, A.r, A.n.ndim
    kw = {"exact": True}
    ax = src.below(nd) if nd else 0
    nax = ax - nd if src.bool(0.3) else ax  # negative where accepted
    t = ""
    if fn in ("reshape", "reshape_m"):
        if n.size == 0:
            raise Discard("empty")
        s = list(factor(src, n.size))
        if src.bool(0.3):
            s[src.below(len(s))] = -1
        t = s
        how = src.below(3)
        if fn == "reshape":
            rf, nf = lambda: rp.reshape(r, tuple(s) if how else s), lambda: np.reshape(n, tuple(s))
        else:
            rf, nf = lambda: r.reshape(*s) if how else r.reshape(tuple(s)), lambda: n.reshape(*s)
    elif fn in ("ravel", "atleast_1d", "atleast_2d", "atleast_3d", "squeeze", "flipud", "fliplr", "matrix_transpose", "trim_zeros"):
        rf, nf = lambda: getattr(rp, fn)(r), lambda: getattr(np, fn)(n)
    elif fn == "diagonal":
        rf, nf = lambda: rp.diagonal(r), lambda: np.diagonal(n)
    elif fn == "diagonal_m":
        rf, nf = lambda: r.diagonal(), lambda: n.diagonal()
    elif fn in ("ravel_m", "squeeze_m", "copy"):
        m = fn.split("_")[0]
        rf, nf = lambda: getattr(r, m)(), lambda: getattr(n, m)()
    elif fn == "flatten":
        rf, nf = lambda: r.flatten() if hasattr(r, "flatten") else rp.flatten(r), lambda: n.flatten()
    elif fn == "flat":
        rf, nf = lambda: np.array([x for x in r.flat], dtype=d) if n.size else np.zeros(0, d), lambda: np.array([x for x in n.flat], dtype=d)
    elif fn == "T":
        rf, nf = lambda: r.T, lambda: n.T
    elif fn in ("transpose", "permute_dims"):
        p = src.perm(nd)
        t = p
        rf, nf = lambda: getattr(rp, fn)(r, p), lambda: np.transpose(n, p)
    elif fn in ("swapaxes", "swapaxes_m"):
        b = src.below(nd)
        t = (nax, b)
        rf, nf = (lambda: rp.swapaxes(r, nax, b)) if fn == "swapaxes" else (lambda: r.swapaxes(nax, b)), lambda: np.swapaxes(n, nax, b)
    elif fn == "moveaxis":
        b = src.int(-nd, nd - 1)
        t = (nax, b)
        rf, nf = lambda: rp.moveaxis(r, nax, b), lambda: np.moveaxis(n, nax, b)
    elif fn == "moveaxis_l":
        k = src.int(1, nd)
        a, b = src.perm(nd)[:k], src.perm(nd)[:k]
        if src.bool(0.3):
            b = [x - nd for x in b]
        t = (a, b)
        rf, nf = lambda: rp.moveaxis(r, a, b), lambda: np.moveaxis(n, a, b)
    elif fn == "rollaxis":
        b = src.int(-nd, nd)
        t = (nax, b)
        rf, nf = lambda: rp.rollaxis(r, nax, b), lambda: np.rollaxis(n, nax, b)
    elif fn == "expand_dims":
        a = src.int(-nd - 1, nd)
        t = a
        rf, nf = lambda: rp.expand_dims(r, a), lambda: np.expand_dims(n, a)
    elif fn == "broadcast_to":
        s = tuple(src.choice([2, 3, 1, 0]) if x == 1 else x for x in shp)
        s = (src.choice([2, 1, 3]),) * src.below(3) + s
        t = s
        rf, nf = lambda: rp.broadcast_to(r, s), lambda: np.broadcast_to(n, s)
    elif fn == "flip":
        t = nax
        rf, nf = lambda: rp.flip(r, nax), lambda: np.flip(n, nax)
    elif fn == "flip_all":
        rf, nf = lambda: rp.flip(r), lambda: np.flip(n)
    elif fn in ("split", "array_split"):
        k = src.int(1, 5)
        t = (k, ax)
        rf, nf = lambda: getattr(rp, fn)(r, k, axis=ax), lambda: getattr(np, fn)(n, k, axis=ax)
    elif fn in ("hsplit", "vsplit", "dsplit"):
        k = src.int(1, 4)
        t = k
        rf, nf = lambda: getattr(rp, fn)(r, k), lambda: getattr(np, fn)(n, k)
    elif fn in ("repeat", "repeat_m"):
        k = src.int(0, 4)
        a = None if src.bool(0.3) or not nd else nax if fn == "repeat" else ax
        t = (k, a)
        rf, nf = (lambda: rp.repeat(r, k, axis=a)) if fn == "repeat" else (lambda: r.repeat(k, axis=a)), lambda: np.repeat(n, k, axis=a)
    elif fn == "tile":
        reps = src.int(0, 3) if src.bool(0.3) else tuple(src.int(0, 3) for _ in range(src.int(1, 4)))
        t = reps
        rf, nf = lambda: rp.tile(r, reps), lambda: np.tile(n, reps)
    elif fn == "roll":
        k = src.int(-7, 9)
        a = None if src.bool(0.3) or not nd else nax
        t = (k, a)
        rf, nf = lambda: rp.roll(r, k, axis=a), lambda: np.roll(n, k, axis=a)
    elif fn == "rot90":
        k = src.int(-3, 6)
        p = src.perm(nd)[:2]
        axes = tuple(x - nd if src.bool(0.3) else x for x in p)
        t = (k, axes)
        rf, nf = lambda: rp.rot90(r, k, axes=axes), lambda: np.rot90(n, k, axes)
    elif fn == "pad":
        m = src.choice(PADS)
        if n.size == 0:
            raise Discard("empty")
        w = src.int(0, 4) if src.bool(0.3) else tuple((src.int(0, 4), src.int(0, 4)) for _ in range(nd)) if src.bool(0.6) and nd != 2 else \
            (src.int(0, 4), src.int(0, 4))
        t = (w, m)
        kk = {}
        if m == "constant" and src.bool(0.5):
            kk["constant_values"] = src.choice([1, 3, 7]) if d != "bool" else 1
        rf, nf = lambda: rp.pad(r, w, mode=m, **kk), lambda: np.pad(n, w, mode=m, **kk)
    elif fn == "delete":
        a = None if src.bool(0.3) else nax
        m = n.size if a is None else n.shape[a]
        if m == 0:
            raise Discard("empty")
        k = src.int(-m, m - 1)
        t = (k, a)
        rf, nf = lambda: rp.delete(r, k, axis=a), lambda: np.delete(n, k, axis=a)
    elif fn == "insert":
        a = None if src.bool(0.4) else nax
        m = n.size if a is None else n.shape[a]
        k = src.int(-m, m)
        if d[0] in "cb":
            raise Discard("insert scalar kind")
        v = src.choice([1, 2, 5])
        t = (k, v, a)
        if a is not None:
            vs = list(n.shape)
            vs[a % nd] = 1
            V = G.array(src, d, tuple(vs), "small")
            t = (k, V, a)
            rf, nf = lambda: rp.insert(r, k, V.r, axis=a), lambda: np.insert(n, k, np.moveaxis(V.n, 0, a) if False else V.n[(slice(None),) * (a % nd) + (0,)], axis=a)
        else:
            rf, nf = lambda: rp.insert(r, k, v, axis=a), lambda: np.insert(n, k, v, axis=a)
    elif fn == "append":
        a = None if src.bool(0.4) or not nd else nax
        vs = list(shp)
        if a is not None:
            vs[a] = src.int(0, 3)
        V = G.array(src, d if src.bool(0.7) else src.choice(G.ALL), tuple(vs), "small")
        t = (V, a)
        rf, nf = lambda: rp.append(r, V.r, axis=a), lambda: np.append(n, V.n, axis=a)
    elif fn == "resize":
        s = tuple(src.int(0, 4) for _ in range(src.int(1, 3)))
        t = s
        rf, nf = lambda: rp.resize(r, s), lambda: np.resize(n, s)
    elif fn in ("tril", "triu"):
        k = src.int(-4, 4)
        t = k
        rf, nf = lambda: getattr(rp, fn)(r, k), lambda: getattr(np, fn)(n, k)
        if nd != 2:
            raise Discard("tril nd")
    elif fn == "unstack":
        t = ax
        rf, nf = lambda: tuple(rp.unstack(r, axis=ax)), lambda: np.unstack(n, axis=ax)
    src.sig = f"{fn} {d if fn in ('resize', 'repeat', 'pad', 'insert', 'append') else A.n.dtype.kind} {'C' if A.lay == 'C' else 'view'}"
    src.label(fn)
    src.note(f"{fn}({A!r}, {t})")
    src.nontrivial = n.size > 0
    before = n.copy()
    differential(src, fn, rf, nf, **kw)
    if not G.same_bits(np.asarray(r), before):
        raise Violation("mutated", f"{fn} modified its input")


JOIN = ["concatenate", "concat", "stack", "vstack", "hstack", "dstack", "column_stack", "broadcast_arrays", "block", "meshgrid", "row_stack"]


def join(src):
    fn = src.choice(JOIN)
    d = src.choice(G.ALL)
    k = src.int(1, 4)
    nd = src.int(1, 3)
    base = list(G.shape(src, nd, nd, maxdim=4))[:nd]
    base = [min(x, 5) for x in base]
    mixed = src.bool(0.3)
    arrs = []
    ax = src.below(nd)
    jax = {"concatenate": ax, "concat": ax, "vstack": 0, "row_stack": 0, "hstack": 0 if nd == 1 else 1, "dstack": 2, "column_stack": 1, "block": nd - 1}.get(fn)
    if fn == "column_stack" and nd > 2:
        raise Discard("column_stack nd")
    if nd == 1 and fn in ("vstack", "column_stack", "dstack", "row_stack") or nd == 2 and fn == "dstack":
        jax = None
    other = src.choice(G.ALL)  # promotion of three or more distinct dtypes is pairwise in rumpy, hence two at most
    for _ in range(k):
        s = list(base)
        if jax is not None and jax < nd:
            s[jax] = src.int(0, 4)
        if fn == "broadcast_arrays":
            s = [1 if src.bool(0.3) else x for x in s][src.below(2) if nd > 1 else 0:]
        if fn == "meshgrid":
            s = [src.int(1, 5)]
        arrs.append(G.array(src, other if mixed and src.bool() else d, tuple(s), "small", bcast=True))
    rs, ns = [a.r for a in arrs], [a.n for a in arrs]
    t = ""
    if fn in ("concatenate", "concat"):
        rf, nf, t = lambda: getattr(rp, fn)(rs, axis=ax), lambda: np.concatenate(ns, axis=ax), ax
    elif fn == "stack":
        ax = src.int(0, nd)
        rf, nf, t = lambda: rp.stack(rs, axis=ax), lambda: np.stack(ns, axis=ax), ax
    elif fn == "broadcast_arrays":
        rf, nf = lambda: tuple(rp.broadcast_arrays(rs)), lambda: tuple(np.broadcast_arrays(*ns))
    elif fn == "meshgrid":
        ij = src.choice(["xy", "ij"])
        rf, nf, t = lambda: tuple(rp.meshgrid(*rs, indexing=ij)), lambda: tuple(np.meshgrid(*ns, indexing=ij)), ij
    elif fn == "block":
        if not hasattr(rp, "block"):
            raise Discard("block")
        rf, nf = lambda: rp.block(rs), lambda: np.block(ns)
    elif fn == "row_stack":
        rf, nf = lambda: rp.row_stack(rs), lambda: np.vstack(ns)
    else:
        rf, nf = lambda: getattr(rp, fn)(rs), lambda: getattr(np, fn)(ns)
    src.sig = f"{fn} {'mixed' if mixed else d} {nd}"
    src.label(fn)
    src.note(f"{fn}([{', '.join(map(repr, arrs))}], {t})")
    src.nontrivial = sum(a.size for a in ns) > 0
    differential(src, fn, rf, nf, exact=True)


FACETS = {"one": Facet(one, 40000), "join": Facet(join, 14000)}
