"""C26: large arrays obey the same rules as small ones."""
import re
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from .. import table as T
from ..cmp import run, Err, compare, TOL

RULE = ("a call from the table of expressions, applied to arrays of 1000 to 100000 elements (around the sizes where other code paths begin), "
        "in any memory layout; non-trivial = the call returns and NumPy accepts it")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference; expressions whose deviation from NumPy is documented are left out; rounding allowance grows with the size"]
SKIP_GROUPS = {"linalg", "linalg-sym", "kron", "char2", "cross", "unary-unit", "choose"}
SKIP = re.compile(r"m\.(percentile|quantile|nanpercentile|nanquantile|i0|inner|correlate|unwrap|nancumprod|nanprod|trapezoid)\(|m\.clip\(x, y|(m|x)\.(round|rint|around|fix|unique_values)\(")  # documented deviations, refusals and ties
BOOLX = re.compile(r"m\.(floor_divide|remainder|mod|fmod|divmod|float_power)\(|x (//|%) y")
QUAD = {"m.outer(x, y)", "m.kron(x, y)", "m.diag(x)", "m.diag(m.flip(x))", "m.diagflat(x)", "m.meshgrid(x, x)", "m.ix_(m.arange(2), m.arange(3))", "m.correlate(x, y)"}
EX = [(g, e) for g, e in T.EXPRS if g["name"] not in SKIP_GROUPS and not SKIP.search(e) and not ".tolist()" in e and not e.startswith("[") and not "list(" in e]


def bigshape(src, g, e):
    if g["name"] in ("product",):
        return (src.int(20, 140), src.int(20, 140))
    if g["name"] in ("vdot",) and "outer" in e or e in QUAD:
        if g["nd"][0] == 2:
            return (src.int(8, 30), src.int(8, 30))
        return (src.int(150, 400),)
    lo, hi = g["nd"]
    nd = src.weighted([(w, k) for w, k in ((5, 1), (3, 2), (1, 3)) if lo <= k <= hi] or [(1, max(lo, 1))])
    n = src.weighted([(4, 1000), (3, 4096), (4, 32768), (2, 65536), (2, 100000)])
    n += src.choice([0, 1, -1, 7, 13])
    if g["name"] in ("char", "char-shape", "time"):
        n = min(n, 4097)
    if nd == 1:
        return (n,)
    if nd == 2:
        a = src.choice([2, 3, int(n ** 0.5), 8, 33])
        return (a, n // a) if src.bool(0.5) else (n // a, a)
    a = src.choice([2, 3, 5])
    return tuple(np.array([a, 7, n // (7 * a)])[src.perm(3)].tolist())


def big(src):
    g, e = src.choice(EX)
    if g["shape"]:
        raise Discard("fixed shape")
    shp = bigshape(src, g, e)
    d, x, y, v = T.draw(src, g, shp=shp)
    if e in QUAD and y is not None and y.n.size > 500:
        raise Discard("quadratic")
    src.sig = f"{e} {d} {len(shp)}"
    src.label(g["name"])
    src.note(f"{e} with x={x!r}" + (f", y={y!r}" if y is not None else "") + f" {v}")
    if d == "bool" and BOOLX.search(e):
        raise Discard("documented")
    if "argsort" in e:
        kw = {} if "ax" not in e else {"axis": v["ax"]}
        fn = "m.argsort(x, kind='stable'" + (", axis=ax)" if kw else ")")
        if e == "x.argsort()" and x.n.ndim > 1:
            raise Discard("documented")
    else:
        fn = e
    with np.errstate(all="ignore"):
        n = run(lambda: T.call(fn, np, x.n, y.n if y is not None else None, v))
    if isinstance(n, Err):
        raise Discard("ref-refuses")
    r = run(lambda: T.call(e, rp, x.r, y.r if y is not None else None, v))
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{e}: {r}")
    src.nontrivial = True
    tol = TOL.get(d, 1e-11)
    cmp(e, r, n, tol, g["approx"], float(shp[0]) * 100)


def cmp(what, r, n, tol, approx, size):
    if isinstance(n, (tuple, list)):
        if not isinstance(r, (tuple, list)) or len(r) != len(n):
            raise Violation("arity", f"{what}: {len(n)} results expected, got {r!r:.80}")
        for i, (a, b) in enumerate(zip(r, n)):
            cmp(f"{what}[{i}]", a, b, tol, approx, size)
        return
    nn = np.asarray(n)
    if nn.dtype.kind == "O":
        return
    if nn.dtype.kind in "mM" and isinstance(r, float):
        return  # dates are returned as numbers
    ap = nn.dtype.kind in "fc" or np.asarray(r).dtype.kind in "fc"
    if "c" in (nn.dtype.kind, np.asarray(r).dtype.kind) and np.shape(r) == nn.shape:
        ra = np.asarray(r)
        k = ~np.isfinite(nn) & ~np.isfinite(ra)  # after an overflow inf and nan depend on the order of the products
        r, n, nn = ra[~k], nn[~k], nn[~k]
    m = 1.0
    if ap and nn.size:
        f = np.abs(nn[np.isfinite(nn)])
        m = float(f.max()) if f.size else 1.0
    compare(what, r, n, exact=not ap, dtype=None, rtol=tol * 10 if ap else None, atol=tol * max(m, 1.0) * (10 if not approx else 100) if ap else None)


CHAIN = ["float64", "float64", "float64", "float32", "int64", "int32", "int16", "uint8", "complex128", "uint64"]


def tree(src, names, depth):
    """An expression with temporaries: every inner node is a result nothing else refers to."""
    k = src.weighted([(2 if depth < 3 else 0, "leaf"), (5 if depth else 0, "op"), (2 if depth else 0, "scalar"), (1 if depth else 0, "unary"), (1 if depth else 0, "view")])
    if k == "leaf":
        return src.choice(names)
    if k == "op":
        return f"({tree(src, names, depth - 1)} {src.choice(['+', '-', '*', '+', '*'])} {tree(src, names, depth - 1)})"
    if k == "scalar":
        a, b = tree(src, names, depth - 1), str(src.int(1, 3))
        if src.bool(0.3):
            a, b = b, a
        return f"({a} {src.choice('+-*')} {b})"
    if k == "unary":
        return f"{src.choice(['-', 'abs', 'm.square', 'm.positive'])}({tree(src, names, depth - 1)})"
    return f"({tree(src, names, depth - 1)}){src.choice(['[::-1][::-1]', '.T.T', '.copy()', '[...]'])}"


def chain(src):
    """Nested expressions with temporaries on both sides of the size from which their memory may be used again; small integer values, so that the answer is exact."""
    n = src.weighted([(2, 3000), (3, 32760), (5, 33000), (2, 70000)])
    nd = src.weighted([(3, 1), (5, 2), (2, 3)])
    a = src.choice([2, 7, 181])
    shp = (n,) if nd == 1 else (a, -(-n // a)) if nd == 2 else (a, 3, -(-n // (3 * a)))
    if nd == 2 and src.bool():
        shp = shp[::-1]
    ds = [src.choice(CHAIN)]
    ds += [ds[0] if src.bool(0.7) else src.choice(CHAIN) for _ in range(2)]
    env = []
    for d in ds:
        s2 = shp if src.bool(0.75) else shp[1:] if nd > 1 and src.bool() else tuple(1 if src.bool() else k for k in shp)
        lay = src.weighted([(3, "C"), (3, "F"), (3, "any")])
        if lay == "any":
            env.append(G.array(src, d, s2, "small"))
        else:
            v = np.asarray(G.array(src, d, s2, "small", layout=False).n)
            r = rp.asarray(np.ascontiguousarray(v.T)).T if lay == "F" else rp.asarray(v)
            w = np.asfortranarray(v) if lay == "F" else v
            env.append(G.Arr(r, w, lay, r, w))
    e = tree(src, ["x", "y", "z"], 3)
    src.sig = f"chain {ds[0]}"
    src.note(f"{e} with " + ", ".join(f"{k}={v!r}" for k, v in zip("xyz", env)))
    before = [v.n.tobytes() for v in env]
    nn = run(lambda: eval(e, {"m": np, **dict(zip("xyz", [v.n for v in env]))}))
    if isinstance(nn, Err):
        raise Discard("ref-refuses")
    r = run(lambda: eval(e, {"m": rp, **dict(zip("xyz", [v.r for v in env]))}))
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{e}: {r}")
    src.nontrivial = "(" in e
    c = "complex128" in ds  # moduli are rounded
    compare(e, r, nn, exact=not c, rtol=1e-13 if c else None, atol=1e-10 if c else None)
    for k, v, b in zip("xyz", env, before):
        if np.asarray(v.r).tobytes() != b:
            raise Violation("operand", f"{e} changed {k}")


FACETS = {"big": Facet(big, 9000), "chain": Facet(chain, 1200)}
