"""C18: linear algebra."""
import math
from fractions import Fraction
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show

RULE = ("a decomposition, solver or norm applied to a matrix of drawn size, structure, dtype and layout; non-trivial = the matrix has at least "
        "two rows and columns and the result was judged against its defining equation, or the call had to be refused")
ASSUMPTIONS = ["residual bounds are multiples of n * eps * norm, so they accept any backward-stable algorithm",
               "svd is always the thin one (the source says so)"]
REAL = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64"]
E = 2.0 ** -52
LE = rp.linalg.LinAlgError


def F(x):
    return np.asarray(x).astype("float64")


def nrm(a):
    return float(np.sqrt((np.abs(a) ** 2).sum())) if a.size else 0.0


def size(src, big=True):
    return src.weighted([(4, 2), (6, 3), (5, 4), (3, 5), (2, 1), (2, 7), (1, 8), (1, 13)] + ([(1, 17), (1, 33), (1, 64), (1, 70)] if big and src.bool(0.15) else []))


def rng(src):
    return np.random.default_rng(src.int(0, 2 ** 31 - 1))


def mat(src, m, n, real=REAL, small=True):
    """A drawn matrix: small integers (any dtype), real numbers, or scaled real numbers."""
    d = src.weighted([(6, "float64"), (2, "float32"), (2, "int64")] + [(1, x) for x in real if x not in ("float64", "float32", "int64")])
    r = rng(src)
    k = np.dtype(d).kind
    if k == "b":
        v = r.integers(0, 2, (m, n))
    elif k in "iu" or src.bool(0.3):
        v = r.integers(-6 if k in "if" else 0, 7, (m, n)).astype("float64")
    else:
        v = r.standard_normal((m, n))
        if src.bool(0.25) and d != "float16":
            v = v * 10.0 ** src.choice([-12, -5, 5, 12])
        if src.bool(0.2) and d != "float16":
            v = v * 10.0 ** r.integers(-4, 5, (m, 1))
    return d, v


def put(src, d, v):
    v = np.array(v, dtype=d, order="C")
    return G.array(src, d, v.shape, vals=v)


def start(src, name, *arrs):
    src.sig = f"{name} {' '.join(str(a.n.dtype) for a in arrs)} {'C' if all(a.lay == 'C' for a in arrs) else 'view'} {min(max(arrs[0].n.shape + (0,)), 9)}"
    src.note(f"{name}({', '.join(map(repr, arrs))})")
    src.nontrivial = min(arrs[0].n.shape + (9,)) >= 2
    return [a.nbase.copy() for a in arrs]


def untouched(arrs, before):
    for a, b in zip(arrs, before):
        compare("the operand afterwards", a.rbase, b, exact=True)


def call(what, f):
    r = run(f)
    if isinstance(r, Err):
        raise Violation("error", f"{what}: raised {r}")
    return r


def is_arr(what, r, shape, dtype="float64"):
    a = np.asarray(r)
    if a.shape != tuple(shape) or a.dtype != dtype:
        raise Violation("shape", f"{what}: {a.dtype}{a.shape}, expected {dtype}{tuple(shape)}")
    return a


def small(what, resid, bound):
    v = nrm(resid)
    if not v <= bound:
        raise Violation("residual", f"{what}: residual {v:.3g} exceeds {bound:.3g}")


def must_refuse(what, f, exc=LE):
    r = run(f)
    if not isinstance(r, Err):
        raise Violation("accepted", f"{what}: accepted, gave {show(r)[:200]}")
    if r.panic or exc is not None and not isinstance(r.e, exc):
        raise Violation("error-type", f"{what}: raised {r}, expected {exc.__name__ if exc else "an exception"}")


def singular(src, n):
    """A matrix whose elimination meets an exact zero pivot: a zero row or column, or rank one with exact multipliers."""
    r = rng(src)
    v = r.integers(-5, 6, (n, n)).astype("float64")
    k = src.choice(["row", "col", "rank1", "zero"])
    i = src.below(n)
    if k == "row":
        v[i] = 0
    elif k == "col":
        v[:, i] = 0
    elif k == "rank1" and n > 1:
        v = np.outer(2.0 ** r.integers(0, 4, n), r.integers(1, 6, n))
    else:
        v[:] = 0
    return v


def solve(src):
    """solve and inv: residual of A x = b, A inv(A) = I; singular and mismatched operands are refused."""
    n = size(src)
    f = src.choice(["solve", "solve", "inv"])
    d, v = mat(src, n, n)
    sing = src.bool(0.15)
    if sing:
        v = singular(src, n)
        if np.dtype(d).kind in "bu":
            d = "int16"
    A = put(src, d, v)
    a = F(A.n)
    cond = np.linalg.cond(a) if n and np.isfinite(a).all() and a.any() else np.inf
    if not sing and not cond < 1e10:
        raise Discard("ill-conditioned")
    if f == "inv":
        b0 = start(src, f, A)
        if sing:
            src.nontrivial = True
            must_refuse("inv of a singular matrix", lambda: rp.linalg.inv(A.r))
            return
        x = is_arr(f, call(f, lambda: rp.linalg.inv(A.r)), (n, n))
        small("A inv(A) - I", a @ x - np.eye(n), 64 * n * E * nrm(a) * nrm(x))
        small("inv(A) A - I", x @ a - np.eye(n), 64 * n * E * nrm(a) * nrm(x) * max(1, cond) ** 0.5)
        untouched([A], b0)
        return
    m = src.weighted([(4, None), (2, 1), (2, 2), (2, 3), (1, 0), (1, 9)])
    bs = (n,) if m is None else (n, m)
    bad = src.bool(0.07)
    if bad:
        bs = src.choice([(n + 1,), (n + 1, 2), (n, 1, 1), ()])
    db, vb = mat(src, int(np.prod(bs[:1])) if bs else 1, int(np.prod(bs[1:])) if bs else 1)
    B = put(src, db, vb.reshape(bs))
    b0 = start(src, f, A, B)
    if bad or sing:
        src.nontrivial = True
        if bad and n == 1 and bs == (1, 1, 1):
            raise Discard
        must_refuse("solve of a singular matrix" if sing and not bad else "solve with mismatched shapes", lambda: rp.linalg.solve(A.r, B.r))
        return
    x = is_arr(f, call(f, lambda: rp.linalg.solve(A.r, B.r)), bs)
    b = F(B.n)
    small("A x - b", a @ x - b, 64 * max(n, 1) * E * (nrm(a) * nrm(x) + nrm(b)))
    untouched([A, B], b0)


def exact_det(v):
    m = [[Fraction(int(x)) for x in row] for row in v]
    n = len(m)
    det = Fraction(1)
    for c in range(n):
        p = next((i for i in range(c, n) if m[i][c]), None)
        if p is None:
            return Fraction(0)
        if p != c:
            m[p], m[c] = m[c], m[p]
            det = -det
        det *= m[c][c]
        for i in range(c + 1, n):
            q = m[i][c] / m[c][c]
            if q:
                m[i] = [x - q * y for x, y in zip(m[i], m[c])]
    return det


def det(src):
    """det and slogdet against the exact rational determinant of an integer matrix, and against each other."""
    n = src.weighted([(1, 0), (2, 1), (4, 2), (6, 3), (5, 4), (3, 5), (2, 6), (1, 9), (1, 12)])
    d = src.choice([x for x in REAL])
    r = rng(src)
    lo, hi = (0, 2) if d == "bool" else (0, 9) if np.dtype(d).kind == "u" else (-8, 9)
    v = r.integers(lo, hi, (n, n)).astype("float64")
    k = src.int(0, 5)
    if k == 0 and n:
        v[:, src.below(n)] = 0
    elif k == 1:
        v = np.triu(v) if src.bool() else np.tril(v)
    elif k == 2:
        p = r.permutation(n)
        v = np.eye(n)[p] * (r.integers(1, 2 if d == "bool" else 5, n)[:, None] if n else 1)
    if src.bool(0.2) and d == "float64":
        v = v * 2.0 ** src.choice([-40, 30])
        sc = Fraction(2) ** (-40 if np.abs(v).max(initial=0) < 1 else 30)
    else:
        sc = Fraction(1)
    A = put(src, d, v)
    b0 = start(src, "det", A)
    src.nontrivial = n >= 2
    ex = exact_det((F(A.n) / float(sc)).tolist()) * sc ** n
    r1 = call("det", lambda: rp.linalg.det(A.r))
    sg, la = call("slogdet", lambda: rp.linalg.slogdet(A.r))
    bound = 64 * max(n, 1) * E * float(np.prod(np.maximum(np.sqrt((F(A.n) ** 2).sum(1)), 1e-300))) if n else 0.0
    bound *= 2 ** min(n, 6)
    if not abs(r1 - float(ex)) <= bound:
        raise Violation("det", f"det = {r1!r}, exactly {float(ex)!r} (allowance {bound:.3g})")
    if abs(float(ex)) > 4 * bound or n == 0:
        s = 1.0 if ex > 0 else -1.0
        l = float(np.log(abs(float(ex))))
        if sg != s or not abs(la - l) <= 4 * bound / abs(float(ex)) + 1e-13 * (1 + abs(l)):
            raise Violation("slogdet", f"slogdet = ({sg}, {la}), exactly ({s}, {l})")
    if n and (not F(A.n).any(0).all()) and not (sg == 0.0 and la == -np.inf and r1 == 0):
        raise Violation("slogdet", f"zero column: det = {r1!r}, slogdet = ({sg}, {la}), expected 0 and (0, -inf)")
    untouched([A], b0)


def scaled(src):
    """slogdet (and det) of a matrix whose rows and columns are scaled by powers of two: exact up to the scale, however far from 1 it is."""
    n = src.int(1, 6)
    r = rng(src)
    v = r.integers(-8, 9, (n, n)).astype("float64") + np.diag(r.choice([-40.0, 40.0, 33.0], n))  # dominated by the diagonal: every pivot is far from 0
    # scaling the columns changes neither the choice of pivots nor the multipliers of the elimination
    rs = np.full(n, src.choice([0, 0, 100, -100]))
    cs = r.integers(-880, 881, n) // src.choice([1, 1, 3, 20])
    a = np.ldexp(v, rs[:, None] + cs[None, :])
    p = r.permutation(n)
    A = put(src, "float64", a[p])
    b0 = start(src, f"slogdet scaled by 2**{(rs + cs).tolist()}", A)
    src.nontrivial = n >= 2
    sg, la = call("slogdet", lambda: rp.linalg.slogdet(A.r))
    ex = exact_det(v[p].tolist())
    s = 1.0 if ex > 0 else -1.0
    l = float(np.log(abs(float(ex)))) + float(int(rs.sum()) + int(cs.sum())) * math.log(2.0)
    if sg != s or not abs(la - l) <= 1e-10 * (1 + abs(l)):
        raise Violation("slogdet", f"slogdet = ({sg}, {la}), exactly ({s}, {l})")
    untouched([A], b0)


def orth(what, q, n):
    small(f"{what} orthonormal", q.T @ q - np.eye(q.shape[1]), 64 * max(n, 1) * E * max(q.shape[1], 1))


def qrsvd(src):
    """qr, svd, svdvals: factors orthonormal, triangular or sorted, and multiplying back to the matrix."""
    f = src.choice(["qr", "svd", "svdvals"])
    m = size(src)
    n = m if src.bool(0.4) else size(src)
    d, v = mat(src, m, n)
    if src.bool(0.15):
        v = np.outer(v[:, 0], np.ones(n)) if src.bool() else v * 0
    A = put(src, d, v)
    a = F(A.n)
    if not np.isfinite(a).all():
        raise Discard
    b0 = start(src, f, A)
    k = min(m, n)
    tol = 64 * max(m, n) * E * nrm(a)
    if f == "svd" and not thin_ok(a):
        raise Discard("known finding svd-rank-deficient")
    if f == "qr" and k > 12 and not thin_ok(a):
        raise Discard("known finding qr-rank-deficient")
    if f == "qr":
        q, r = call(f, lambda: rp.linalg.qr(A.r))
        q, r = is_arr("q", q, (m, k)), is_arr("r", r, (k, n))
        orth("q", q, m)
        if np.tril(r, -1).any():
            raise Violation("triangular", "r is not upper triangular")
        small("q r - A", q @ r - a, tol)
    elif f == "svd":
        args = {} if src.bool() else {"full_matrices": False}
        u, s, vt = call(f, lambda: rp.linalg.svd(A.r, **args))
        u, s, vt = is_arr("u", u, (m, k)), is_arr("s", s, (k,)), is_arr("vt", vt, (k, n))
        orth("u", u, m)
        orth("vt", vt.T, n)
        if (s < 0).any() or (np.diff(s) > 0).any():
            raise Violation("order", f"singular values not descending and non-negative: {s}")
        small("u s vt - A", (u * s) @ vt - a, tol)
    else:
        s = is_arr("svdvals", call(f, lambda: rp.linalg.svdvals(A.r)), (k,))
        small("svdvals", s - np.linalg.svd(a, compute_uv=False), tol)
    untouched([A], b0)


def separated(a):
    """Eigenvalues apart and eigenvectors well conditioned (faer's eigendecomposition breaks down on degenerate spectra)."""
    w, v = np.linalg.eig(a)
    if len(w) > 1:
        gap = np.abs(w[:, None] - w[None, :]) + np.eye(len(w)) * 1e300
        if not gap.min() > 1e-4 * np.abs(w).max():
            return False
    return np.linalg.cond(v) < 1e6


def thin_ok(a):
    """Full rank, or small: faer's SVD loses singular vectors of larger rank-deficient matrices (known finding svd-rank-deficient)."""
    if min(a.shape) <= 4:
        return True
    s = np.linalg.svd(a, compute_uv=False)
    return s[-1] > 1e-9 * s[0]


def eigen(src):
    """eigh, eigvalsh (lower triangle only), eig, eigvals: residuals, order, sums."""
    f = src.choice(["eigh", "eigvalsh", "eig", "eigvals"])
    n = size(src)
    d, v = mat(src, n, n)
    st = src.choice(["gen", "gen", "sym", "diag", "rot", "tri", "rep"])
    if st == "sym":
        v = np.tril(v) + np.tril(v, -1).T
    elif st == "diag":
        v = np.diag(np.diag(v))
    elif st == "tri":
        v = np.triu(v)
    elif st == "rep":
        v = np.full((n, n), v[0, 0])
    elif st == "rot" and n >= 2 and np.dtype(d).kind in "if":
        v = np.zeros((n, n))
        v[0, 1], v[1, 0] = -2, 2
    A = put(src, d, v)
    a = F(A.n)
    if not np.isfinite(a).all():
        raise Discard
    b0 = start(src, f"{f} {st}", A)
    tol = 64 * n * E * nrm(a)
    if f in ("eigh", "eigvalsh"):
        sy = np.tril(a) + np.tril(a, -1).T
        tol = 64 * n * E * nrm(sy)
        if f == "eigvalsh":
            w = is_arr("w", call(f, lambda: rp.linalg.eigvalsh(A.r)), (n,))
        else:
            w, u = call(f, lambda: rp.linalg.eigh(A.r))
            w, u = is_arr("w", w, (n,)), is_arr("v", u, (n, n))
            orth("v", u, n)
            small("A v - v w", sy @ u - u * w, tol)
        if (np.diff(w) < 0).any():
            raise Violation("order", f"eigenvalues not ascending: {w}")
        small("eigenvalues", w - np.linalg.eigvalsh(sy), tol)
    else:
        if not separated(a):
            raise Discard("degenerate eigenvalues: known finding eig-degenerate")
        if f == "eig":
            w, u = call(f, lambda: rp.linalg.eig(A.r))
            w, u = is_arr("w", w, (n,), "complex128"), is_arr("v", u, (n, n), "complex128")
            cn = np.sqrt((np.abs(u) ** 2).sum(0))
            if not (cn > 1e-3).all():
                raise Violation("zero-vector", f"eigenvector of norm {cn.min()}")
            small("A v - v w", a @ u - u * w, tol * max(1.0, float(cn.max())) * 4)
        else:
            w = is_arr("w", call(f, lambda: rp.linalg.eigvals(A.r)), (n,), "complex128")
            # every eigenvalue is an exact eigenvalue of a matrix near A: A - w I is nearly singular
            for z in w[:12]:
                s = np.linalg.svd(a.astype("complex128") - z * np.eye(n), compute_uv=False)
                if n and not s[-1] <= tol * 4:
                    raise Violation("eigenvalue", f"{z} is not an eigenvalue: smallest singular value of A - zI is {s[-1]:.3g}")
        small("sum of eigenvalues - trace", np.atleast_1d(w.sum() - np.trace(a)), 4 * tol)
        if st == "sym":
            small("eigenvalues", np.sort(w.real) - np.linalg.eigvalsh(a), 4 * tol)
            small("imaginary parts", w.imag, 4 * tol)
        small("sum of squares of eigenvalues - trace(A A)", np.atleast_1d((w ** 2).sum() - np.trace(a @ a)), 16 * tol * (nrm(a) + 1e-300))
    untouched([A], b0)


def cholesky(src):
    """cholesky: lower triangular, positive diagonal, L L^T = A; a matrix that is not positive definite is refused."""
    n = size(src)
    d, v = mat(src, n, n)
    bad = src.bool(0.25)
    if np.dtype(d).kind in "iuf" and np.dtype(d).itemsize > 1 or d == "int8" and n < 4:
        b = np.clip(v, -2, 2) if np.dtype(d).kind in "iu" or d == "float16" else v
        a = b @ b.T + np.eye(n) * max(1e-6 * nrm(b) ** 2, 1 if np.dtype(d).kind in "iu" else 0)
    else:
        a = np.eye(n)
    if not a.size or not (np.linalg.eigvalsh(a.astype(d).astype("float64"))[0] > 1e-9 * nrm(a)):
        raise Discard
    if bad and np.dtype(d).kind in "if":
        i = src.below(n)
        a[i, i] = -a[i, i] if src.bool() else 0
    else:
        bad = False
    if src.bool(0.3):
        a = np.tril(a) + np.triu(np.roll(a, 1), 1)   # only the lower triangle counts
    A = put(src, d, a)
    a = F(A.n)
    if not np.isfinite(a).all():
        raise Discard
    b0 = start(src, "cholesky", A)
    if bad:
        src.nontrivial = True
        must_refuse("cholesky of a matrix that is not positive definite", lambda: rp.linalg.cholesky(A.r))
        return
    L = is_arr("L", call("cholesky", lambda: rp.linalg.cholesky(A.r)), (n, n))
    if np.triu(L, 1).any() or not (np.diag(L) > 0).all():
        raise Violation("triangular", "L is not lower triangular with a positive diagonal")
    sy = np.tril(a) + np.tril(a, -1).T
    small("L L^T - A", L @ L.T - sy, 64 * n * E * nrm(sy))
    untouched([A], b0)


def rank_mat(src):
    """A matrix of known rank: an integer product with well separated singular values."""
    m = src.weighted([(3, 2), (4, 3), (4, 4), (3, 5), (2, 7), (1, 1), (1, 20)])
    n = src.weighted([(3, 2), (4, 3), (4, 4), (3, 5), (2, 7), (1, 1), (1, 20)])
    k = min(m, n)
    rk = k if src.bool(0.5) else src.int(0, k)
    r = rng(src)
    u, v = r.integers(-2, 3, (m, rk)), r.integers(-2, 3, (rk, n))
    a = (u @ v).astype("float64")
    s = np.linalg.svd(a, compute_uv=False)
    if rk and not s[rk - 1] > 1e-3 * s[0]:
        raise Discard("rank")
    d = src.choice(["float64", "float64", "float64", "int64", "int32", "float32", "int16"])
    if d[0] == "f" and src.bool(0.3):
        a = a * 2.0 ** src.choice([-20, 20, -60])
    return d, a, rk, m, n


def rank(src):
    """matrix_rank, pinv (Moore-Penrose conditions), lstsq (normal equations, minimum norm), cond."""
    f = src.choice(["matrix_rank", "pinv", "lstsq", "lstsq", "cond"])
    d, a, rk, m, n = rank_mat(src)
    A = put(src, d, a)
    a = F(A.n)
    na = nrm(a)
    s = np.linalg.svd(a, compute_uv=False)
    if f in ("pinv", "lstsq") and not thin_ok(a):
        raise Discard("known finding svd-rank-deficient")
    if f == "matrix_rank":
        b0 = start(src, f, A)
        got = call(f, lambda: rp.linalg.matrix_rank(A.r))
        if got != rk:
            raise Violation("rank", f"rank {got}, expected {rk}")
        t = float(s[0] * src.choice([0.0, 0.5, 0.999, 1.001, 2.0])) if s.size else 0.0
        exp = int((s > t).sum())
        if t and min(abs(s - t)) > 1e-9 * t:
            got = call(f, lambda: rp.linalg.matrix_rank(A.r, tol=t))
            if got != exp:
                raise Violation("rank", f"rank with tol={t}: {got}, expected {exp}")
    elif f == "pinv":
        b0 = start(src, f, A)
        p = is_arr(f, call(f, lambda: rp.linalg.pinv(A.r)), (n, m))
        k = 1e5 * E
        npv = nrm(p)
        small("A P A - A", a @ p @ a - a, k * (na * npv * na))
        small("P A P - P", p @ a @ p - p, k * (npv * na * npv))
        small("A P symmetric", a @ p - (a @ p).T, k * na * npv)
        small("P A symmetric", p @ a - (p @ a).T, k * na * npv)
        if rk >= 2 and s[rk - 1] < 0.9 * s[0] and src.bool(0.4):
            # a cutoff between two singular values drops the smaller ones
            i = src.int(1, rk - 1)
            if s[i] < 0.99 * s[i - 1]:
                rc = float((s[i] + s[i - 1]) / 2 / s[0])
                q = is_arr("pinv(rcond)", call(f, lambda: rp.linalg.pinv(A.r, rcond=rc)), (n, m))
                u, sv, vt = np.linalg.svd(a, full_matrices=False)
                ref = (vt[:i].T / sv[:i]) @ u[:, :i].T
                small("pinv(rcond)", q - ref, 1e7 * E * nrm(ref))
    elif f == "cond":
        b0 = start(src, f, A)
        p = src.choice([None, "2", "-2"])
        got = call(f, lambda: rp.linalg.cond(A.r) if p is None else rp.linalg.cond(A.r, p))
        if rk == 0:
            raise Discard
        if rk < min(m, n):
            ok = got > 1e14 if p != "-2" else got < 1e-14
            if not ok:
                raise Violation("cond", f"cond of a rank-deficient matrix (p={p}) = {got}")
        else:
            ref = s[0] / s[-1] if p != "-2" else s[-1] / s[0]
            if not abs(got - ref) <= 1e6 * E * ref:
                raise Violation("cond", f"cond(p={p}) = {got}, expected {ref}")
    else:
        mb = src.weighted([(4, None), (3, 1), (3, 2), (1, 5), (1, 0)])
        db, vb = mat(src, m, mb or 1)
        vb = vb.reshape((m,)) if mb is None else vb[:, :mb]
        B = put(src, db, vb)
        b = F(B.n)
        b0 = start(src, f, A, B)
        x, res, rr, sv = call(f, lambda: rp.linalg.lstsq(A.r, B.r))
        x = is_arr("x", x, (n,) if mb is None else (n, mb))
        sv = is_arr("s", sv, (min(m, n),))
        if rr != rk:
            raise Violation("rank", f"lstsq rank {rr}, expected {rk}")
        small("singular values", sv - s, 64 * max(m, n) * E * na)
        k = 1e5 * E
        small("A^T (A x - b)", a.T @ (a @ x - b), k * na * (na * nrm(x) + nrm(b)))
        ref = np.linalg.pinv(a, rcond=1e-10) @ b
        small("x minimum norm", x - ref, 1e8 * E * (nrm(ref) + (nrm(b) / s[rk - 1] if rk else 0)))
        if m > n and rk == n:
            rs = is_arr("residuals", res, (mb or 1,) if mb != 0 else (0,))
            exp = ((a @ x - b) ** 2).sum(0)
            small("residuals", rs - np.atleast_1d(exp), 1e5 * E * (na * nrm(x) + nrm(b)) ** 2)
        else:
            is_arr("residuals", res, (0,))
        untouched([B], b0[1:])
    untouched([A], b0[:1])


def norms(src):
    """norm, vector_norm, matrix_norm against NumPy over every numeric dtype."""
    d = src.choice(G.ALL)
    f = src.choice(["norm", "norm", "vector_norm", "matrix_norm"])
    nd = {"matrix_norm": 2}.get(f) or src.weighted([(4, 1), (4, 2), (1, 3)])
    shp = G.shape(src, nd, nd, zero=0.03, maxdim=6)
    k = np.dtype(d).kind
    A = G.array(src, d, shp, "any" if k in "iub" else "mod", bcast=True)
    b0 = start(src, f, A)
    src.nontrivial = A.n.size > 1
    wide = A.n.astype("complex128" if k == "c" else "float64")
    if A.n.size == 0:
        raise Discard
    if f == "vector_norm" or nd == 1:
        o = src.choice([None, 1.0, 2.0, np.inf, -np.inf, 0.0, 3.0, 0.5, -1.0, 2.5])
        if f == "norm":
            arg = {None: None, np.inf: "inf", -np.inf: "-inf"}.get(o, None if o is None else (str(int(o)) if o == int(o) else str(o)) if o is not None and np.isfinite(o) else None)
            r = call(f, lambda: rp.linalg.norm(A.r, arg) if arg is not None else rp.linalg.norm(A.r))
        else:
            r = call(f, lambda: rp.linalg.vector_norm(A.r, o) if o is not None else rp.linalg.vector_norm(A.r))
        with np.errstate(all="ignore"):
            ref = np.linalg.norm(wide.ravel(), o)
        src.note(f"ord={o}")
    elif nd == 2:
        o = src.choice([None, "fro", "nuc", "1", "2", "inf", "-1", "-2", "-inf"])
        if o in ("nuc", "2", "-2") and k == "c":
            must_refuse("2-norm of a complex matrix", lambda: getattr(rp.linalg, f)(A.r, o), TypeError)
            return
        r = call(f, lambda: getattr(rp.linalg, f)(A.r, o) if o is not None else getattr(rp.linalg, f)(A.r))
        no = {"inf": np.inf, "-inf": -np.inf, "1": 1, "2": 2, "-1": -1, "-2": -2}.get(o, o)
        ref = np.linalg.norm(wide, no)
        src.note(f"ord={o}")
        if o == "-2" or o == "nuc":
            top = np.linalg.norm(wide, 2)
            tol = 1e3 * E * top * 8
            if not abs(r - ref) <= tol:
                raise Violation("norm", f"norm(ord={o}) = {r!r}, expected {ref!r}")
            return
    else:
        r = call(f, lambda: rp.linalg.norm(A.r))
        ref = np.linalg.norm(wide.ravel())
        if src.bool(0.3):
            must_refuse("a matrix norm of a 3-D array", lambda: rp.linalg.norm(A.r, src.choice(["1", "inf", "fro"])), None)
    e = {"float32": 2.0 ** -23, "complex64": 2.0 ** -23}.get(d, E)
    if not isinstance(r, float):
        raise Violation("type", f"norm is {type(r).__name__}")
    if not (r == ref or abs(r - ref) <= 32 * (A.n.size + 4) * e * abs(ref)):
        raise Violation("norm", f"{f} = {r!r}, expected {ref!r}")
    untouched([A], b0)


def power(src):
    """matrix_power, multi_dot: repeated products (exact on integers), negative powers through the inverse."""
    if src.bool(0.6):
        n = src.weighted([(3, 2), (3, 3), (2, 4), (1, 1), (1, 0)])
        p = src.weighted([(2, 0), (2, 1), (4, 2), (4, 3), (3, 4), (3, 5), (2, 7), (2, 10), (2, -1), (2, -2), (1, -3)])
        d = src.choice(["int64", "int32", "float64", "float32", "complex128", "uint8", "int8"])
        if n == 0:
            raise Discard
        v = rng(src).integers(0 if d[0] == "u" else -2, 3, (n, n))
        if d[0] == "c":
            v = v + 1j * rng(src).integers(-1, 2, (n, n))
        A = put(src, d, v)
        b0 = start(src, f"matrix_power {p}", A)
        if p < 0:
            if d[0] == "c":
                must_refuse("matrix_power of a complex matrix to a negative power", lambda: rp.linalg.matrix_power(A.r, p), None)
                return
            a = F(A.n)
            if not np.linalg.cond(a) < 1e6:
                raise Discard
            x = is_arr("matrix_power", call("matrix_power", lambda: rp.linalg.matrix_power(A.r, p)), (n, n))
            ref = np.linalg.matrix_power(np.linalg.inv(a), -p)
            small("matrix_power", x - ref, 1e9 * E * max(nrm(ref), nrm(np.linalg.inv(a)) ** -p))
        else:
            differential(src, "matrix_power", lambda: rp.linalg.matrix_power(A.r, p), lambda: mpow(A.n, p), exact=True)
        untouched([A], b0)
        return
    k = src.int(2, 5)
    dims = [src.int(1, 5) for _ in range(k + 1)]
    ops = []
    for i in range(k):
        d = src.choice(["float64", "int64", "int32", "float32", "complex128"])
        sh = (dims[i], dims[i + 1])
        if i == 0 and src.bool(0.2):
            sh = (dims[1],)
        if i == k - 1 and src.bool(0.2):
            sh = (dims[i],)
        ops.append(G.array(src, d, sh, "tiny", bcast=True))
    if src.bool(0.08) and ops[-1].n.ndim == 2:
        ops.append(G.array(src, "float64", (dims[-1] + 1, 2), "tiny"))
    b0 = start(src, "multi_dot", *ops)

    def ref():
        out = ops[0].n
        for o in ops[1:]:
            out = np.matmul(out, o.n)
        return out
    differential(src, "multi_dot", lambda: rp.linalg.multi_dot([o.r for o in ops]), ref, invalid="reject", rtol=1e-5, atol=1e-3)
    untouched(ops, b0)


def mpow(a, p):
    out = np.eye(len(a), dtype=a.dtype)
    for _ in range(p):
        out = np.matmul(out, a)
    return out


def tensor(src):
    """tensorsolve and tensorinv through their defining contraction."""
    r = rng(src)
    shp = src.choice([(2, 3), (4,), (2, 2), (6,), (3, 2), (2, 1, 2)])
    t = src.choice([x for x in [(2, 3), (4,), (2, 2), (6,), (3, 2), (2, 1, 2), (1, 4), (1, 6)] if np.prod(x) == np.prod(shp)])
    n = int(np.prod(shp))
    v = r.standard_normal((n, n)) + np.eye(n) * 3
    if np.linalg.cond(v) > 1e6:
        raise Discard
    d = src.choice(["float64", "float64", "float32"])
    v = v.astype(d)
    if src.bool(0.5):
        A = put(src, d, v.reshape(shp + t))
        b0 = start(src, f"tensorinv {len(shp)} {len(t)}", A)
        src.nontrivial = True
        x = call("tensorinv", lambda: rp.linalg.tensorinv(A.r, len(shp)) if len(shp) * 2 != len(shp + t) or src.bool() else rp.linalg.tensorinv(A.r))
        x = is_arr("tensorinv", x, t + shp)
        small("tensorinv", x.reshape(n, n) @ F(v) - np.eye(n), 1e8 * E)
        untouched([A], b0)
        return
    full = v.reshape(shp + t)
    axes = None
    if src.bool(0.4):
        # put the solution axes at the front; axes= moves them to the end
        k = len(t)
        full = np.moveaxis(full, list(range(len(shp), len(shp) + k)), list(range(k)))
        axes = list(range(k))
    A = put(src, d, full)
    B = put(src, src.choice(["float64", "int64", "float32"]), r.integers(-5, 6, shp))
    b0 = start(src, f"tensorsolve {axes is not None}", A, B)
    src.nontrivial = True
    if src.bool(0.08):
        bad = src.choice([[len(shp + t)], [0, 0], [99]])
        must_refuse("tensorsolve with bad axes", lambda: rp.linalg.tensorsolve(A.r, B.r, axes=bad), None)
        return
    x = call("tensorsolve", lambda: rp.linalg.tensorsolve(A.r, B.r) if axes is None else rp.linalg.tensorsolve(A.r, B.r, axes=axes))
    x = is_arr("tensorsolve", x, t)
    b = F(B.n).ravel()
    small("tensorsolve", F(v) @ x.ravel() - b, 64 * n * E * (nrm(F(v)) * nrm(x) + nrm(b)) * 4)
    untouched([A, B], b0)


SQUARE = ["inv", "det", "slogdet", "cholesky", "eigh", "eigvalsh", "eig", "eigvals"]
TWO = SQUARE + ["qr", "svd", "svdvals", "matrix_rank", "pinv", "cond"]


def refuse(src):
    """Wrong rank, non-square, complex or non-finite operands raise; LinAlgError is a ValueError."""
    k = src.choice(["ndim", "square", "complex", "nonfinite", "cplxpair"])
    src.nontrivial = True
    if not issubclass(LE, ValueError):
        raise Violation("type", "LinAlgError is not a ValueError")
    if k == "ndim":
        f = src.choice(TWO)
        A = G.array(src, "float64", G.shape(src, 0, 1) if src.bool(0.6) else G.shape(src, 3, 4, zero=0), "mod")
        exc = ValueError
    elif k == "square":
        f = src.choice(SQUARE)
        m = src.int(1, 5)
        A = G.array(src, src.choice(REAL), (m, m + src.int(1, 4)) if src.bool() else (m + 1, m), "tiny")
        exc = ValueError
    elif k in ("complex", "cplxpair"):
        f = src.choice(TWO)
        n = src.int(1, 5)
        A = G.array(src, src.choice(["complex64", "complex128"]), (n, n), "tiny")
        exc = TypeError
    else:
        f = src.choice([x for x in TWO if x not in ("inv", "det", "slogdet", "qr")])
        n = src.int(1, 9)
        v = rng(src).standard_normal((n, n))
        # on the diagonal, so that the lower triangle contains it
        i = src.below(n)
        v[i, i if f in ("cholesky", "eigh", "eigvalsh") else src.below(n)] = src.choice([np.nan, np.inf, -np.inf])
        if f == "cholesky" and v[i, i] == np.inf:
            raise Discard
        A = put(src, src.choice(["float64", "float32"]), v)
        exc = LE
    b0 = start(src, f"{f} {k}", A)
    src.nontrivial = True
    if k == "cplxpair":
        B = G.array(src, "float64", (A.n.shape[0],), "tiny")
        g = src.choice(["solve", "lstsq"])
        a, b = (A.r, B.r) if src.bool() else (rp.eye(A.n.shape[0]), A.r)
        must_refuse(f"{g} of complex operands", lambda: getattr(rp.linalg, g)(a, b), TypeError)
    else:
        must_refuse(f"{f} ({k})", lambda: getattr(rp.linalg, f)(A.r), exc)
    untouched([A], b0)


FACETS = {
    "solve": Facet(solve, 2500),
    "scaled": Facet(scaled, 600), "det": Facet(det, 2500),
    "qrsvd": Facet(qrsvd, 2500),
    "eigen": Facet(eigen, 2500),
    "cholesky": Facet(cholesky, 1500),
    "rank": Facet(rank, 2500),
    "norms": Facet(norms, 3500),
    "power": Facet(power, 2000),
    "tensor": Facet(tensor, 1000),
    "refuse": Facet(refuse, 1200),
}
