"""C20: polynomials."""
from fractions import Fraction
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show, scale_atol

RULE = ("a polynomial of drawn degree, dtype and layout evaluated, differentiated, integrated, fitted or solved; non-trivial = degree at least one "
        "and a non-empty result, or a refused call")
ASSUMPTIONS = ["polyfit is judged against the exact rational least-squares solution, with the error bound of a backward-stable solver",
               "roots are judged by the coefficients of the polynomial they factor (backward error), and by value when well separated"]
E = 2.0 ** -52


def coefs(src, d=None, lo=0, hi=6, mode="small", layout=True):
    d = d or src.choice(G.ALL)
    n = src.int(lo, hi)
    return G.array(src, d, (n,), mode, layout=layout)


def val(src):
    """polyval: Horner in the promoted dtype."""
    P = coefs(src, mode=src.choice(["small", "small", "tiny", "any"]), hi=7)
    X = G.array(src, src.choice(G.ALL), G.shape(src, 1, 3, maxsize=60), src.choice(["small", "any"]), bcast=True)
    src.sig = f"{P.n.dtype} {X.n.dtype} {P.n.size} {P.lay[:4]} {X.lay[:4]}"
    src.note(f"polyval({P!r}, {X!r})")
    src.nontrivial = P.n.size > 1 and X.n.size > 0
    with np.errstate(all="ignore"):
        n = np.polyval(P.n, X.n)
    if n.dtype.kind == "c":
        # complex products may be formed with or without fused operations: bound by the sum of magnitudes
        with np.errstate(all="ignore"):
            mag = np.polyval(np.abs(P.n.astype("complex128")), np.abs(X.n.astype("complex128")))
        if not np.isfinite(mag).all() or mag.size and mag.max() > (1e30 if n.dtype == "complex64" else 1e300):
            raise Discard("overflow")
        e = 64 * (E if n.dtype == "complex128" else 2.0 ** -23)
        r = run(lambda: rp.polyval(P.r, X.r))
        if isinstance(r, Err):
            raise Violation("raises", f"polyval: {r}; expected {show(n)}")
        g = np.asarray(r)
        if g.shape != n.shape or g.dtype != n.dtype:
            raise Violation("dtype", f"polyval: got {show(r)}, expected {show(n)}")
        if not (np.abs(g - n) <= e * (mag + 1e-300)).all():
            raise Violation("value", f"polyval: got {show(r)}, expected {show(n)}")
        return
    ref = lambda: np.polyval(P.n, X.n)
    differential(src, "polyval", lambda: rp.polyval(P.r, X.r), ref, exact=n.dtype.kind not in "f", rtol=8 * max(E, np.finfo(n.dtype).eps) if n.dtype.kind == "f" else None,
                 atol=_mag(P.n, X.n, n.dtype) if n.dtype.kind == "f" else None)


def _mag(p, x, d):
    with np.errstate(all="ignore"):
        m = np.polyval(np.abs(p.astype("float64")), np.abs(x.astype("float64")))
    m = m[np.isfinite(m)]
    return float(m.max(initial=0.0)) * 16 * float(np.finfo(d).eps)


def calculus(src):
    """polyder and polyint of any order, with constants; differentiation undoes integration."""
    op = src.choice(["der", "int", "int", "undo"])
    d = src.choice(G.ALL)
    P = coefs(src, d, mode=src.choice(["small", "any"]) if d not in G.COMPLEX else "small", hi=8)
    m = src.weighted([(4, 1), (3, 2), (2, 3), (1, 0), (1, 5)])
    src.sig = f"{op} {P.n.dtype} {P.n.size} {m} {P.lay[:4]}"
    src.nontrivial = P.n.size > 1 and m > 0
    b0 = P.nbase.copy()
    f16 = P.n.dtype == "float16"
    if op == "der":
        src.note(f"polyder({P!r}, {m})")
        args = () if m == 1 and src.bool() else (m,)
        if P.n.size == 0:
            r = run(lambda: rp.polyder(P.r, m))
            if isinstance(r, Err) and r.panic:
                raise Violation("panic", f"{r}")
            return
        if P.n.size > m or P.n.dtype.kind == "f":
            differential(src, "polyder", lambda: rp.polyder(P.r, *args), lambda: np.polyder(P.n, *args), rtol=1e-14)
        else:   # everything vanishes: the result is empty
            compare("polyder", rp.polyder(P.r, *args), np.polyder(P.n, m)[:0], dtype="any")
    elif op == "int":
        if m > 1 and P.n.dtype == "float16":
            m = 1
        kn = src.choice([None, None, "one", "list"])
        K = None
        if kn == "one":
            K = G.array(src, src.choice(G.ALL), (1,), "small")
        elif kn == "list":
            K = G.array(src, src.choice(G.ALL), (max(m, 1) + src.weighted([(5, 0), (1, 1), (1, -1)]),), "small")
        src.note(f"polyint({P!r}, {m}, k={K!r})")
        src.sig += f" k={kn} {K.n.dtype if K else ''}"

        def ref():
            if K is None:
                return np.polyint(P.n, m)
            return np.polyint(P.n, m, k=K.n[0] if K.n.size == 1 else K.n)
        if m == 0 and K is not None:
            K = None
        if K is not None and K.n.dtype.kind == "c" and (not np.isfinite(P.n).all() or np.abs(P.n).max(initial=0) > 1e30):
            raise Discard("overflow")   # complex division of huge values
        if P.n.size == 0 and P.n.dtype != "float64":
            raise Discard("empty")
        # NumPy reads the constant as an array element, so it takes part in promotion
        differential(src, "polyint", lambda: rp.polyint(P.r, m, K.r) if K is not None else rp.polyint(P.r, m), ref, invalid="reject", rtol=1e-14 if not f16 else 2e-3,
                     dtype="same" if K is None or K.n.size == 1 or m == 1 else "any")
    else:
        if P.n.dtype.kind in "c" or P.n.dtype.kind == "f" and P.n.dtype != "float64" or P.n.size == 0:
            raise Discard("kind")
        src.note(f"polyder(polyint({P!r}, {m}), {m})")
        with np.errstate(all="ignore"):
            w = P.n.astype("float64")
        if not np.isfinite(w).all() or np.abs(w).max() > 1e300 or np.abs(w)[w != 0].min(initial=1.0) < 1e-290:
            raise Discard("overflow")
        r = rp.polyder(rp.polyint(P.r, m), m)
        compare("polyder(polyint(p, m), m)", r, w if m else P.n, rtol=1e-14 * (m + 1))
    compare("the operand afterwards", P.rbase, b0, exact=True)


def exact_fit(x, y, w, deg):
    n = len(x)
    rows = [[Fraction(float(x[i])) ** (deg - j) * Fraction(float(w[i])) for j in range(deg + 1)] for i in range(n)]
    rhs = [Fraction(float(y[i])) * Fraction(float(w[i])) for i in range(n)]
    k = deg + 1
    A = [[sum(r[a] * r[b] for r in rows) for b in range(k)] + [sum(r[a] * q for r, q in zip(rows, rhs))] for a in range(k)]
    for c in range(k):
        p = next((i for i in range(c, k) if A[i][c] != 0), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        for i in range(k):
            if i != c and A[i][c] != 0:
                f = A[i][c] / A[c][c]
                A[i] = [u - f * v for u, v in zip(A[i], A[c])]
    return np.array([float(A[i][k] / A[i][i]) for i in range(k)])


def fit(src):
    """polyfit: the weighted least-squares polynomial."""
    deg = src.weighted([(3, 1), (4, 2), (3, 3), (1, 4), (1, 0), (1, 5)])
    n = deg + 1 + src.weighted([(3, 0), (2, 1), (3, 3), (2, 6), (1, 12)])
    dx, dy = [src.weighted([(6, "float64"), (1, "float32"), (2, "int64"), (1, "uint8"), (1, "int16"), (1, "float16")]) for _ in range(2)]
    xs = [src.int(-8 if dx[0] != "u" else 0, 12) for _ in range(n)]
    if src.bool(0.8):
        xs = [v + i * 3 if dx[0] == "u" else v % 3 + i * 3 - n for i, v in enumerate(xs)]
        if dx[0] == "u":
            xs = list(range(1, n + 1))
        p = src.perm(n)
        xs = [xs[i] for i in p]
    scale = src.choice([1.0, 1.0, 1.0, 1e-6, 1e-3, 1e4]) if dx == "float64" else 1.0
    x = np.array(xs, dtype="float64") * scale
    X = G.array(src, dx, (n,), vals=x.astype(dx))
    Y = G.array(src, dy, (n,), src.choice(["small", "mod"]) if dy[0] == "f" else "small")
    W = None
    if src.bool(0.5):
        W = G.array(src, src.choice(["float64", "float64", "float32", "int32"]), (n,), "pos")
    src.sig = f"{dx} {dy} deg={deg} n={n - deg} w={W.n.dtype if W else None} {scale}"
    src.note(f"polyfit({X!r}, {Y!r}, {deg}, w={W!r})")
    xv, yv = X.n.astype("float64"), Y.n.astype("float64")
    wv = np.ones(n) if W is None else W.n.astype("float64")
    if len(set(xv.tolist())) < deg + 1:
        raise Discard("rank deficient")
    c = exact_fit(xv, yv, wv, deg)
    V = np.vander(xv, deg + 1) * wv[:, None]
    sc = np.sqrt((V * V).sum(0))
    kappa = np.linalg.cond(V / sc)
    if not kappa < 1e6:
        raise Discard("ill-conditioned")
    src.nontrivial = deg > 0
    r = run(lambda: rp.polyfit(X.r, Y.r, deg, W.r) if W else rp.polyfit(X.r, Y.r, deg))
    if isinstance(r, Err):
        raise Violation("raises", f"polyfit: {r}; expected {c}")
    g = np.asarray(r)
    if g.shape != c.shape or g.dtype != "float64":
        raise Violation("shape", f"polyfit: got {show(r)}, expected {show(c)}")
    res = np.sqrt((((V @ c) - yv * wv) ** 2).sum())
    rhs = np.sqrt(((yv * wv) ** 2).sum())
    tol = 64 * n * E * (kappa * (rhs + np.sqrt(((c * sc) ** 2).sum())) + kappa ** 2 * res)
    if not np.sqrt((((g - c) * sc) ** 2).sum()) <= tol + 1e-300:
        raise Violation("value", f"polyfit: got {show(r)}, the least-squares solution is {show(c)}")


def roots(src):
    """roots: as many as the degree, and they factor the polynomial."""
    kind = src.choice(["coef", "coef", "real", "complex", "zeros", "trivial"])
    d = src.weighted([(6, "float64"), (2, "int64"), (1, "float32"), (1, "int8"), (1, "uint8"), (1, "bool"), (1, "int32")])
    if kind in ("coef", "zeros", "trivial"):
        P = coefs(src, d, 1, 7 if src.bool(0.8) else 12, "small" if d[0] != "b" else "any")
        if kind == "zeros":
            z1, z2 = src.int(0, 2), src.int(0, 3)
            v = P.n.copy()
            P = G.array(src, d, (v.size + z1 + z2,), vals=np.concatenate([np.zeros(z1, d), v, np.zeros(z2, d)]))
        elif kind == "trivial":
            v = np.zeros(src.int(0, 3), d)
            if src.bool() and v.size:
                v[-1] = 1
            P = G.array(src, d, v.shape, vals=v)
        if src.bool(0.3) and d == "float64":
            P = G.array(src, d, P.n.shape, vals=P.n * src.choice([1e-8, 1e-17, 1e10, -1.0]))
        want = None
    else:
        k = src.int(1, 5)
        if kind == "real":
            p = src.perm(12)[:k]
            want = np.array([float(i - 6) for i in p]) if src.bool() else np.array([(i - 6) * 0.75 + 0.1 for i in p])
            want = want.astype("complex128")
        else:
            p = src.perm(9)[:(k + 1) // 2]
            want = np.array([complex(i - 4, 1 + (i % 3)) for i in p])
            want = np.concatenate([want, want.conj()] + ([np.array([5.5])] if k % 2 else []))
        c = np.real(np.poly(want)) * src.choice([1.0, 1.0, -2.0, 0.5])
        P = G.array(src, "float64", c.shape, vals=c)
    src.sig = f"{kind} {P.n.dtype} {P.n.size} {P.lay[:4]}"
    src.note(f"roots({P!r})")
    w = P.n.astype("float64")
    nz = np.nonzero(w)[0]
    r = run(lambda: rp.roots(P.r))
    if isinstance(r, Err):
        raise Violation("raises", f"roots: {r}")
    g = np.asarray(r)
    deg = w.size - 1 - int(nz[0]) if nz.size else 0
    src.nontrivial = deg > 0
    if g.shape != (deg,) or g.dtype not in ("float64", "complex128"):
        raise Violation("shape", f"roots: got {show(r)}, expected {deg} roots")
    if deg == 0:
        return
    if not np.isfinite(g).all():
        raise Violation("value", f"roots: not finite: {show(r)}")
    m = w[nz[0]:] / w[nz[0]]
    # coefficients of prod (x - r_i), in extended precision
    q = np.array([1.0], dtype="clongdouble")
    for z in g:
        q = np.concatenate([q, [0]]) - np.concatenate([[0], q]) * np.clongdouble(z)
    # companion eigenvalues are backward stable relative to the norm of the (scaled) companion matrix
    s = max(1.0, float(np.abs(m).max()))
    err = np.abs(q - m)
    if not (err <= 1e4 * E * deg ** 3 * s ** 2).all():
        raise Violation("value", f"roots: {show(r)} give the coefficients {show(q)}, not {show(m)}")
    if np.iscomplexobj(g):
        if g.imag.any() and not np.allclose(np.sort_complex(g), np.sort_complex(g.conj()), rtol=0, atol=1e-300):
            raise Violation("value", f"roots: complex roots do not come in conjugate pairs: {show(r)}")
    if want is not None:
        left = list(g.astype("complex128"))
        for z in want:
            i = int(np.argmin([abs(z - y) for y in left]))
            if abs(z - left.pop(i)) > 1e-7:
                raise Violation("value", f"roots: got {show(r)}, expected {show(want)}")


def refuse(src):
    """Complex, text, two-dimensional or mismatched operands raise."""
    src.nontrivial = True
    k = src.choice(["roots-c", "roots-2d", "fit-c", "fit-n", "fit-2d", "fit-w", "fit-deg", "val-2d", "der-2d", "int-2d", "int-k", "str", "neg"])
    n = src.int(3, 6)
    d = src.choice(G.COMPLEX if k.endswith("-c") else G.REALS)
    A, B = G.array(src, d, (n,), "pos"), G.array(src, "float64", (n,), "mod")
    M = G.array(src, "float64", (2, n), "mod")
    src.sig = f"{k} {d}"
    src.note(f"{k}: {A!r}, {B!r}")
    s = rp.asarray(np.array(["ab"] * n))
    W = G.array(src, "float64", (n + 1,), "pos")
    f = {"roots-c": lambda: rp.roots(A.r), "roots-2d": lambda: rp.roots(M.r), "fit-c": lambda: rp.polyfit(A.r, B.r, 1) if src.bool() else rp.polyfit(B.r, A.r, 1),
         "fit-n": lambda: rp.polyfit(A.r, W.r, 1), "fit-2d": lambda: rp.polyfit(M.r, M.r, 1), "fit-w": lambda: rp.polyfit(A.r, B.r, 1, W.r),
         "fit-deg": lambda: rp.polyfit(A.r, B.r, -1), "val-2d": lambda: rp.polyval(M.r, B.r), "der-2d": lambda: rp.polyder(M.r), "int-2d": lambda: rp.polyint(M.r),
         "int-k": lambda: rp.polyint(A.r, 3, B.r[:2]), "str": lambda: src.choice([lambda: rp.polyval(s, A.r), lambda: rp.polyder(s), lambda: rp.roots(s), lambda: rp.polyfit(A.r, s, 1), lambda: rp.polyint(s)])(),
         "neg": lambda: rp.polyder(A.r, -1) if src.bool() else rp.polyint(A.r, -1)}[k]
    r = run(f)
    if not isinstance(r, Err) or r.panic:
        raise Violation("accepts-invalid", f"{k}: gave {r!r} {show(r)}")


FACETS = {
    "val": Facet(val, 6000),
    "calculus": Facet(calculus, 6000),
    "fit": Facet(fit, 2500),
    "roots": Facet(roots, 5000),
    "refuse": Facet(refuse, 600),
}
