"""C17: products and contractions."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show, EPS

RULE = ("a product function with operands of drawn dtypes, shapes and layouts; non-trivial = the reference accepts the operands and the result "
        "has at least one element, or it refuses them")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference; inner() follows the documented gufunc broadcasting rule (designs/deviations.md)"]


def spread(src, n, first=6):
    return src.weighted([(8, k) for k in range(1, min(n, first) + 1)] + [(1, k) for k in range(first + 1, n + 1)])


def dim(src):
    return src.weighted([(3, 1), (6, 2), (6, 3), (4, 4), (2, 5), (1, 0), (1, 7), (1, 17)])


def dtypes(src):
    a = src.choice(G.ALL)
    b = a if src.bool(0.55) else src.choice(G.ALL)
    return a, b


def mode_for(src, a, b):
    """'tiny': products and sums of products are exact; 'mod': real numbers."""
    ex = src.bool(0.5) or np.dtype(a).kind in "iub" and np.dtype(b).kind in "iub"
    if ex:
        return ("any" if np.result_type(a, b).kind in "iu" and src.bool(0.6) else "tiny"), True
    return "mod", False


def operand(src, d, shp, mode):
    k = np.dtype(d).kind
    m = mode
    if mode == "any" and k not in "iub":
        m = "tiny"
    return G.array(src, d, shp, m, bcast=True)


def tol(res, *ops, terms):
    """Allowance: eps * terms * product of magnitudes."""
    e = EPS.get(str(np.result_type(*ops)), 0.0)
    m = 1.0
    for o in ops:
        if o.size:
            m *= max(1.0, float(np.abs(o.astype("complex128")).max()))
    return 8 * e * max(terms, 1) * m


def judge(src, what, rf, nf, exact, ops, terms, **k):
    with np.errstate(all="ignore"):
        n = run(nf)
    src.nontrivial = True
    if not isinstance(n, Err):
        src.nontrivial = np.size(n) > 0
        if not exact:
            rt = np.result_type(*ops)
            if rt.kind == "f" and np.size(n) and not np.isfinite(np.asarray(n).astype("float64")).all():
                raise Discard("overflow")
            if rt == np.float16 and tol(n, *ops, terms=terms) / EPS["float16"] / 8 > 6e4:
                raise Discard("overflow")  # partial sums may leave the range
            k.update(rtol=4 * EPS.get(str(rt), 0.0), atol=tol(n, *ops, terms=terms))
        else:
            k.update(exact=True)
    with np.errstate(all="ignore"):
        return differential(src, what, rf, nf, invalid="reject", **k)


def mm_shapes(src):
    m, n, p = dim(src), dim(src), dim(src)
    a, b = (m, n), (n, p)
    k = src.choice(["22", "22", "12", "21", "11", "bb", "bb", "bb", "bad"])
    if k == "12":
        a = (n,)
    elif k == "21":
        b = (n,)
    elif k == "11":
        a, b = (n,), (n,)
    elif k == "bb":
        x, y = G.bcast_pair(src, 2, 3)
        a, b = x + a, y + b
        c = src.int(0, 5)
        if c == 0:
            b = (n,)
        elif c == 1:
            a = (n,)
    elif k == "bad":
        if src.bool(0.7):
            b = (n + src.choice([1, 2, 17]), p)[:src.int(1, 2)]
            if src.bool(0.3):
                a = (n,)
        elif src.bool(0.5):
            a, b = (2,) + a, (3,) + b
        else:
            a = ()
        if src.bool(0.2):
            a, b = b, a
    return a, b


def matmul(src):
    """matmul, @ and dot over every dtype pair, broadcasting batch and layout."""
    da, db = dtypes(src)
    mode, exact = mode_for(src, da, db)
    f = src.choice(["matmul", "matmul", "@", "dot", "dotm", "multi_dot"])
    sa, sb = mm_shapes(src)
    if f in ("dot", "dotm") and src.bool(0.2):
        if src.bool(0.5):
            sa = ()
        else:
            sb = ()
    if f == "multi_dot" and max(len(sa), len(sb)) > 2:
        f = "matmul"
    A, B = operand(src, da, sa, mode), operand(src, db, sb, mode)
    src.sig = f"{f} {da} {db} {len(sa)}{len(sb)} {'C' if A.lay == B.lay == 'C' else 'view'}"
    src.note(f"{f}({A!r}, {B!r})")
    a0, b0 = A.nbase.copy(), B.nbase.copy()
    rf = {"matmul": lambda: rp.matmul(A.r, B.r), "@": lambda: A.r @ B.r, "dot": lambda: rp.dot(A.r, B.r), "dotm": lambda: A.r.dot(B.r),
          "multi_dot": lambda: rp.linalg.multi_dot([A.r, B.r])}[f]
    nf = {"matmul": np.matmul, "@": np.matmul, "dot": npdot, "dotm": npdot, "multi_dot": np.matmul}[f]
    judge(src, f, rf, lambda: nf(A.n, B.n), exact, (A.n, B.n), sa[-1] if sa else 1)
    compare("the left operand afterwards", A.rbase, a0, exact=True)
    compare("the right operand afterwards", B.rbase, b0, exact=True)


def npdot(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return np.multiply(a, b)
    if a.ndim == 1 or b.ndim == 1 or a.ndim == b.ndim == 2:
        return np.matmul(a, b)
    return np.asarray(np.dot(a, b))


def npinner(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return np.multiply(a, b)
    return np.matmul(a[..., None, :], b[..., :, None])[..., 0, 0]


def products(src):
    """inner, outer, kron, vdot, cross, trace, diagonal."""
    f = src.choice(["inner", "outer", "kron", "vdot", "cross", "trace", "diagonal"])
    da, db = dtypes(src)
    mode, exact = mode_for(src, da, db)
    src.sig = f"{f} {da} {db}"
    if f in ("trace", "diagonal"):
        shp = G.shape(src, 2 if f == "trace" else 1, 2 if f == "trace" else 4)
        A = operand(src, da, shp, "any" if np.dtype(da).kind in "iu" and np.dtype(da).itemsize < 8 or f == "diagonal" else "tiny")
        if f == "diagonal" and shp and len(shp) > 1:
            A = G.array(src, da, shp, "any", bcast=True)
        meth = src.bool(0.5)
        src.note(f"{f}({A!r}) method={meth}")
        src.nontrivial = True
        r = differential(src, f, lambda: getattr(A.r, f)() if meth else getattr(rp, f)(A.r), lambda: getattr(np, f)(A.n), invalid="reject", exact=True)
        if f == "diagonal" and r is not None and r.size and A.rbase is not None and A.lay[:5] != "broad":
            if not np.shares_memory(np.asarray(r), np.asarray(A.r)):
                raise Violation("alias", "diagonal is not a view")
        return
    if f == "inner":
        n = dim(src)
        x, y = G.bcast_pair(src, 2, 4)
        sa, sb = x + (n,), y + (n,)
        if src.bool(0.08):
            sb = y + (n + 1,)
        elif src.bool(0.05):
            sa = ()
        nf, terms = npinner, n
    elif f == "vdot":
        sa = G.shape(src, 1, 3, maxsize=60)
        k = src.choice(["same", "flat", "bad"] if src.bool(0.3) else ["same", "flat"])
        size = int(np.prod(sa))
        sb = sa if k == "same" else (size,) if k == "flat" else (size + 1,)
        terms = size

        def nf(a, b):
            if a.size != b.size:
                raise ValueError
            return np.matmul((np.conj(a) if a.dtype.kind == 'c' else a).ravel(), b.ravel())
    elif f == "cross":
        sa = sb = (3,)
        terms = 2
        if da == db == "bool":
            raise Discard
        nf = lambda a, b: np.subtract(a[[1, 2, 0]] * b[[2, 0, 1]], a[[2, 0, 1]] * b[[1, 2, 0]])  # noqa
    elif f == "outer":
        sa, sb, nf, terms = G.shape(src, 0, 2, maxsize=20), G.shape(src, 0, 2, maxsize=20), np.outer, 1
    else:
        sa, sb = G.shape(src, 0, 3, maxsize=16), G.shape(src, 0, 3, maxsize=16)
        terms = 1

        def nf(a, b):
            nd = max(a.ndim, b.ndim)
            a, b = a.reshape((1,) * (nd - a.ndim) + a.shape), b.reshape((1,) * (nd - b.ndim) + b.shape)
            w = np.multiply(a.reshape(sum(((m, 1) for m in a.shape), ())), b.reshape(sum(((1, m) for m in b.shape), ())))
            return w.reshape(tuple(x * y for x, y in zip(a.shape, b.shape)))
    A, B = operand(src, da, sa, mode), operand(src, db, sb, mode)
    src.note(f"{f}({A!r}, {B!r})")
    g = getattr(rp, f)
    judge(src, f, lambda: g(A.r, B.r), lambda: nf(A.n, B.n), exact, (A.n, B.n), terms)


def tensordot(src):
    """tensordot over any axes."""
    da, db = dtypes(src)
    mode, exact = mode_for(src, da, db)
    na, nb = src.int(0, 4), src.int(0, 4)
    k = src.int(0, min(na, nb))
    dims = [src.choice([1, 2, 3, 2, 3, 4, 0] if src.bool(0.2) else [1, 2, 3]) for _ in range(na + nb)]
    form = src.choice(["int", "lists", "lists", "default"])
    if form == "default":
        k = 2
        if na < 2 or nb < 2:
            raise Discard
    sa, sb = dims[:na], dims[na:]
    if form in ("int", "default"):
        xa, xb = list(range(na - k, na)), list(range(k))
        axes = k
    else:
        xa, xb = src.perm(na)[:k], src.perm(nb)[:k]
        axes = ([a - na if src.bool(0.3) else a for a in xa], [b - nb if src.bool(0.3) else b for b in xb])
        if src.bool(0.3):
            axes = tuple(tuple(x) for x in axes)
    for a, b in zip(xa, xb):
        sb[b] = sa[a]
    bad = src.bool(0.07) and k > 0
    if bad:
        if form == "lists" and src.bool(0.6):
            w = src.choice(["oob", "len", "neg"])
            aa, bb = list(axes[0]), list(axes[1])
            if w == "oob":
                aa[0] = na + src.int(0, 3)
            elif w == "neg":
                bb[0] = -nb - 1 - src.int(0, 3)
            else:
                aa = aa[1:]
            axes = (aa, bb)
        else:
            sb[xb[0]] += 1
    A, B = operand(src, da, tuple(sa), mode), operand(src, db, tuple(sb), mode)
    src.sig = f"tensordot {form} {na}{nb}{k} {np.result_type(da, db)}"
    src.note(f"tensordot({A!r}, {B!r}, {axes})")
    kw = {} if form == "default" else {"axes": axes}

    def nf():
        if bad and form == "lists" and (len(axes[0]) != len(axes[1])):
            raise ValueError
        return np.asarray(np.tensordot(A.n, B.n, **kw)) if not (np.dtype(da).kind == "b" == np.dtype(db).kind) else \
            np.tensordot(A.n.astype("i8"), B.n.astype("i8"), **kw).astype(bool)
    terms = int(np.prod([sa[a] for a in xa])) if k else 1
    judge(src, "tensordot", lambda: rp.tensordot(A.r, B.r, **kw), nf, exact, (A.n, B.n), terms)


def subscripts(src, nops):
    letters = list("ijklmabxyz"[:src.int(1, 5)])
    if src.bool(0.2):
        letters = [src.choice("zyxwvut") if src.bool(0.3) else c for c in letters]
    ins = []
    for _ in range(nops):
        k = src.int(0, 3)
        s = [src.choice(letters) for _ in range(k)]
        if not src.bool(0.35):
            s = list(dict.fromkeys(s))
        ins.append("".join(s))
    used = sorted(set("".join(ins)))
    out = None
    if src.bool(0.75):
        p = src.perm(len(used))
        out = "".join(used[i] for i in p[:src.int(0, len(used))])
    return ins, out, used


def einsum(src):
    """einsum of one to four operands, repeated and summed indices, explicit and implicit output."""
    nops = src.weighted([(4, 1), (8, 2), (4, 3), (1, 4)])
    ins, out, used = subscripts(src, nops)
    size = {c: src.choice([2, 3, 2, 3, 1, 4, 0 if src.bool(0.2) else 2]) for c in used}
    d0 = src.choice(G.ALL)
    ds = [d0 if src.bool(0.6) else src.choice(G.ALL) for _ in range(nops)]
    rt = np.result_type(*ds)
    pw = np.dtype(ds[0])
    for d in ds[1:]:
        pw = np.promote_types(pw, d)
    if pw != rt:  # (promotion of three dtypes is not associative; rumpy promotes from left to right)
        raise Discard
    exact = src.bool(0.6) or rt.kind in "iub"
    mode = ("any" if rt.kind in "iu" and src.bool(0.5) else "tiny") if exact else "mod"
    shapes = [tuple(size[c] for c in s) for s in ins]
    bad = src.bool(0.06)
    spec = ",".join(ins) + ("->" + out if out is not None else "")
    if bad:
        w = src.choice(["size", "ndim", "outletter", "outrepeat", "count", "arrow"])
        if w == "size" and any(shapes):
            i = src.choice([i for i, s in enumerate(shapes) if s])
            if "".join(ins).count(ins[i][0]) < 2:
                raise Discard
            # (a size-1 dimension broadcasts in NumPy)
            shapes[i] = (max(shapes[i][0], 1) + 2,) + shapes[i][1:]
            others = [size[c] for c in ins[i][:1]]
            if others[0] <= 1:
                raise Discard
        elif w == "ndim":
            i = src.below(nops)
            shapes[i] = shapes[i] + (2,)
        elif w == "outletter":
            spec = ",".join(ins) + "->q"
        elif w == "outrepeat":
            if not used:
                raise Discard
            spec = ",".join(ins) + "->" + used[0] * 2
        elif w == "count":
            spec = spec.replace(",", "", 1) if "," in spec and out is not None and nops == 2 and all(ins) else ",".join(ins + ["i"])
        else:
            spec = ",".join(ins) + "->" + "".join(used) + "->"
    ops = [operand(src, d, s, mode) for d, s in zip(ds, shapes)]
    if src.bool(0.2):
        spec = spec.replace(",", " , ").replace("->", " -> ")
    src.sig = f"einsum {spec} {rt}" if not bad else f"einsum bad {w} {nops}"
    src.note(f"einsum({spec!r}, {', '.join(map(repr, ops))})")
    terms = int(np.prod([max(size[c], 1) for c in used])) if used else 1

    def nf():
        r = np.einsum(spec, *[o.n for o in ops])
        return np.asarray(r)
    kw = {}
    if src.bool(0.2):
        kw = {"optimize": src.bool(0.5)}
    with np.errstate(all="ignore"):
        n = run(nf)
    if rt.kind == "b" and nops == 1 and not isinstance(n, Err):
        pass
    r = judge(src, "einsum", lambda: rp.einsum(spec, *[o.r for o in ops], **kw), nf, exact, tuple(o.n for o in ops), terms)
    if r is not None and nops == 1 and len(set(ins[0])) == len(ins[0]) and r.size > 1 and isinstance(n, np.ndarray) and np.shares_memory(n, ops[0].n) != np.shares_memory(np.asarray(r), np.asarray(ops[0].r)):
        raise Violation("alias", f"einsum({spec!r}) view-ness differs from NumPy")
    if not bad and nops >= 2 and src.bool(0.3):
        path, info = rp.einsum_path(spec, *[o.r for o in ops])
        left = nops
        if path[0] != "einsum_path" or not isinstance(info, str):
            raise Violation("path", f"einsum_path gave {path}")
        for st in path[1:]:
            if len(set(st)) != len(st) or not all(0 <= i < left for i in st) or len(st) < 1:
                raise Violation("path", f"einsum_path gave {path} for {nops} operands")
            left -= len(st) - 1
        if left != 1:
            raise Violation("path", f"einsum_path {path} leaves {left} operands")


def large(src):
    """Matrix products past the blocking and threading thresholds, on views; exact integers in floating point."""
    d = src.choice(["float64", "float64", "float32", "complex128", "complex64", "int64", "int32", "uint8", "float16", "bool"])
    db = d if src.bool(0.7) else src.choice(["float64", "int32", "float32"])
    slow = np.result_type(d, db).kind in "iub" or "float16" in (d, db)
    hi = 34 if slow else 150
    m, n, p = src.int(1, hi), src.int(1, hi), src.int(1, hi)
    if src.bool(0.25):
        m = 1
    if src.bool(0.2):
        p = 1
    batch = src.choice([(), (), (2,)])
    seed = src.below(1 << 30)
    g = np.random.default_rng(seed)

    def mk(dt, shp):
        lay = src.choice(["C", "F", "neg", "step", "rev"])
        x = g.integers(0 if np.dtype(dt).kind in "ub" else -3, 2 if np.dtype(dt).kind == "b" else 4, shp)
        if np.dtype(dt).kind == "c":
            x = x + 1j * g.integers(-3, 4, shp)
        x = x.astype(dt)
        if lay == "C":
            return rp.asarray(x), x, lay
        if lay == "F":
            b = np.ascontiguousarray(x.swapaxes(-1, -2))
            return rp.swapaxes(rp.asarray(b), x.ndim - 1, x.ndim - 2), x, lay
        if lay == "neg":
            b = np.ascontiguousarray(x[..., ::-1, :])
            r = rp.asarray(b)
            return (r[::-1] if x.ndim == 2 else r[:, ::-1]), x, lay
        if lay == "rev":
            b = np.ascontiguousarray(x[..., ::-1])
            r = rp.asarray(b)
            return (r[:, ::-1] if x.ndim == 2 else r[:, :, ::-1]), x, lay
        b = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dt)
        b[..., ::2] = x
        b[..., 1::2] = 1
        r = rp.asarray(b)
        return (r[:, ::2] if x.ndim == 2 else r[:, :, ::2]), x, lay
    ra, a, la = mk(d, batch + (m, n))
    rb, b, lb = mk(db, (n, p))
    src.sig = f"large {d} {db} {la} {lb}"
    src.note(f"{d} {batch + (m, n)} {la} @ {db} {(n, p)} {lb} seed {seed}")
    src.nontrivial = True
    wide = {"f": "float64", "c": "complex128", "i": "int64", "u": "uint64", "b": "int64"}[np.result_type(d, db).kind]
    ref = np.matmul(a.astype(wide), b.astype(wide))
    if np.result_type(d, db) == np.dtype("float16"):
        ref = np.where(np.abs(ref) <= 2048, ref, np.nan)
        if np.isnan(ref).any():
            raise Discard
    compare("matmul", run2(lambda: rp.matmul(ra, rb)), ref.astype(np.result_type(d, db)), exact=True)
    if not batch and src.bool(0.4):
        compare("einsum", run2(lambda: rp.einsum("ij,jk->ki", ra, rb)), ref.T.astype(np.result_type(d, db)), exact=True)


def run2(f):
    r = run(f)
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{r}")
    return r


def algebra(src):
    """Laws: associativity with exact integers, multi_dot and matrix_power against repeated products, transposition."""
    d = src.choice(["int64", "int32", "float64", "float32", "complex128", "uint8", "int8"])
    k = src.choice(["power", "multi", "transpose", "block"])
    src.sig = f"{k} {d}"
    src.nontrivial = True
    n = src.int(1, 4)
    if k == "power":
        e = src.int(0, 6)
        A = G.array(src, d, (n, n), "tiny")
        src.note(f"matrix_power({A!r}, {e})")
        ref = np.linalg.matrix_power(A.n, e)
        compare("matrix_power", run2(lambda: rp.linalg.matrix_power(A.r, e)), ref, exact=True)
        return
    if k == "multi":
        dims = [src.int(1, 4) for _ in range(src.int(3, 6))]
        M = [G.array(src, d, (a, b), "tiny") for a, b in zip(dims, dims[1:])]
        if src.bool(0.2):
            M[0] = G.array(src, d, (dims[1],), "tiny")
        if src.bool(0.2):
            M[-1] = G.array(src, d, (dims[-2],), "tiny")
        src.note(f"multi_dot({M!r})")
        ref = M[0].n
        for x in M[1:]:
            ref = np.matmul(ref, x.n)
        compare("multi_dot", run2(lambda: rp.linalg.multi_dot([x.r for x in M])), ref, exact=True)
        return
    A = G.array(src, d, (n, src.int(1, 4)), "tiny")
    B = G.array(src, d, (A.n.shape[1], src.int(1, 4)), "tiny")
    src.note(f"{A!r} {B!r}")
    c = run2(lambda: A.r @ B.r)
    if k == "transpose":
        compare("(B^T A^T)^T", run2(lambda: (B.r.T @ A.r.T).T), np.asarray(c).copy(), exact=True)
    else:
        i = src.int(0, n)
        parts = [run2(lambda s=s: A.r[s] @ B.r) for s in (slice(None, i), slice(i, None))]
        compare("product of row blocks", rp.concatenate([x for x in parts]), np.asarray(c).copy(), exact=True)


FACETS = {
    "matmul": Facet(matmul, 12000),
    "products": Facet(products, 9000),
    "tensordot": Facet(tensordot, 5000),
    "einsum": Facet(einsum, 10000),
    "large": Facet(large, 500),
    "algebra": Facet(algebra, 2500),
}
