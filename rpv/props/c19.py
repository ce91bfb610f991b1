"""C19: Fourier transforms."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show

RULE = ("a transform of an array of drawn length (primes, powers of two and long ones included), dtype, layout, axes and output length; "
        "non-trivial = at least two points, or a refused call")
ASSUMPTIONS = ["NumPy 2.3.5 (pocketfft), run on float64/complex128 input, is the reference; rumpy's results are always complex128/float64",
               "empty 1-D input (which rumpy maps to an empty result) is not judged"]
E = 2.0 ** -52
rf_ = rp.fft


def dim(src):
    return src.weighted([(2, 1), (3, 2), (4, 3), (4, 4), (4, 5), (2, 6), (3, 7), (2, 8), (1, 9), (1, 11), (1, 16)])


def longdim(src):
    return src.choice([1, 2, 3, 12, 15, 17, 31, 32, 36, 37, 49, 61, 64, 97, 100, 101, 127, 128, 144, 150, 211, 243, 256, 289, 338, 509, 512, 1000, 1009, 1024, 1031, 2048, 4099])


def wide(n):
    return n.astype("complex128" if n.dtype.kind == "c" else "float64")


def data(src, shp, real=False):
    d = src.weighted([(4, "float64"), (3, "complex128")] + [(1, x) for x in G.ALL if x not in ("float64", "complex128")])
    if real and np.dtype(d).kind == "c":
        d = "float64"
    k = np.dtype(d).kind
    mode = "any" if k in "b" else "tiny" if src.bool(0.25) or k in "iu" and np.dtype(d).itemsize == 8 and src.bool() else "any" if k in "iu" else "mod"
    return G.array(src, d, shp, mode, bcast=True)


def close(src, what, rf, nf, a, dtype):
    n = run(nf)
    if isinstance(n, Err):
        r = run(rf)
        if not isinstance(r, Err):
            raise Violation("accepts-invalid", f"{what}: reference raises {n}, rumpy returned {show(r)}")
        if r.panic:
            raise Violation("panic", f"{what}: {r}")
        src.nontrivial = True
        return None
    r = run(rf)
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{what}: rumpy raised {r}; expected {show(n)}")
    g = np.asarray(r)
    if g.shape != n.shape or g.dtype != dtype:
        raise Violation("shape", f"{what}: {g.dtype}{g.shape}, expected {dtype}{n.shape}")
    if n.size:
        tot = float(np.abs(wide(a)).max(initial=0.0)) if a.size else 0.0
        # error of a transform is bounded relative to the l2 norms
        scale = float(np.sqrt((np.abs(n) ** 2).mean())) + float(np.sqrt((np.abs(n) ** 2).sum())) / max(1.0, np.sqrt(n.size))
        tol = 64 * E * (np.log2(max(2, n.size, a.size)) + 4) * max(scale, 1e-300)
        err = np.abs(g - n)
        if not (err.max() <= tol * np.sqrt(n.size) and np.sqrt((err ** 2).mean()) <= tol):
            i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape)
            raise Violation("value", f"{what}: at {list(map(int, i))} got {g[i]!r}, expected {n[i]!r}; got {show(r)}, expected {show(n)}")
    return r


def one(src):
    """fft, ifft, rfft, irfft, hfft, ihfft of one axis, any length."""
    f = src.choice(["fft", "fft", "ifft", "rfft", "irfft", "hfft", "ihfft"])
    n = dim(src) if src.bool(0.7) else longdim(src)
    real = f in ("rfft", "ihfft")
    if src.bool(0.04):
        A = G.array(src, src.choice(G.ALL), G.shape(src, 2, 3, maxsize=30) if src.bool(0.7) else (), "tiny")
        src.sig = f"{f} ndim"
        src.note(f"{f}({A!r})")
        src.nontrivial = True
        if not isinstance(run(lambda: getattr(rp.fft, f)(A.r)), Err):
            raise Violation("accepts-invalid", f"{f} accepted a {A.n.ndim}-d array")
        return
    if f == "hfft" and n == 1 and src.bool(0.9):
        n = 2
    A = data(src, (n,), real)
    kw = {}
    if f == "hfft" and src.bool(0.7):
        kw["n"] = src.int(1, 2 * n + 3)
    src.sig = f"{f} {A.n.dtype} {'C' if A.lay == 'C' else 'view'} {min(n, 40)} {kw.get('n', 0) % 2}"
    src.note(f"{f}({A!r}, {kw})")
    src.nontrivial = n >= 2
    b0 = A.nbase.copy()
    w = wide(A.n)
    if f == "hfft" and n == 1 and not kw:
        run(lambda: rp.fft.hfft(A.r))   # zero output points: not judged
        return
    close(src, f, lambda: getattr(rp.fft, f)(A.r, **kw), lambda: getattr(np.fft, f)(w, **kw), A.n, "float64" if f in ("irfft", "hfft") else "complex128")
    compare("the operand afterwards", A.rbase, b0, exact=True)


def nd(src):
    """fftn, ifftn, rfftn, irfftn and the 2-d forms over drawn axes and output shapes."""
    f = src.choice(["fftn", "ifftn", "rfftn", "irfftn", "irfftn", "fft2", "ifft2", "rfft2", "irfft2"])
    two = f.endswith("2")
    k = 2 if two else src.weighted([(1, 1), (4, 2), (3, 3)])
    shp = tuple(0 if src.bool(0.02) else dim(src) for _ in range(k))
    if two and src.bool(0.05):
        shp = shp[:1] if src.bool() else shp + (2,)
    if np.prod(shp) > 700:
        raise Discard("large")
    A = data(src, shp, f in ("rfftn", "rfft2"))
    kw, nk = {}, {}
    bad = False
    if not two and src.bool(0.5):
        ax = src.perm(k)[:src.int(1, k)]
        if src.bool(0.05):
            ax = ax + [k + src.int(0, 2)]
            bad = True
        kw["axes"] = nk["axes"] = list(ax)
    if f in ("irfftn", "irfft2") and src.bool(0.5):
        m = len(kw["axes"]) if "axes" in kw else k if two else src.int(1, k)
        s = [dim(src) for _ in range(m)]
        if src.bool(0.06):
            s = s + [2]
            bad = "axes" in kw or len(s) > k
        kw["s"] = list(s)
        nk["s"] = list(s)
        if "axes" not in kw and not two:
            nk["axes"] = list(range(k - len(s), k)) if not bad else None
    src.sig = f"{f} {k}d {A.n.dtype} {'C' if A.lay == 'C' else 'view'} axes={kw.get('axes')} s={'s' in kw}"
    src.note(f"{f}({A!r}, {kw})")
    src.nontrivial = A.n.size >= 2
    b0 = A.nbase.copy()
    w = wide(A.n)

    def ref():
        if two and k != w.ndim or bad:
            raise ValueError
        return getattr(np.fft, f)(w, **nk)
    if 0 in shp:
        r = run(lambda: getattr(rp.fft, f)(A.r, **kw))
        if isinstance(r, Err) and r.panic:
            raise Violation("panic", f"{f}: {r}")
        return
    close(src, f, lambda: getattr(rp.fft, f)(A.r, **kw), ref, A.n, "float64" if f[:2] == "ir" else "complex128")
    compare("the operand afterwards", A.rbase, b0, exact=True)


def shift(src):
    """fftshift, ifftshift move elements exactly; fftfreq, rfftfreq give NumPy's numbers."""
    f = src.choice(["fftshift", "ifftshift", "fftfreq", "rfftfreq", "inverse"])
    if f.endswith("freq"):
        n, d = src.int(1, 40), src.choice([1.0, 0.5, 0.1, 2.0, 3.7, -1.0, 1e-9])
        src.sig = f"{f} {n}"
        src.note(f"{f}({n}, d={d})")
        src.nontrivial = n > 1
        differential(src, f, lambda: getattr(rp.fft, f)(n, d=d), lambda: getattr(np.fft, f)(n, d=d), exact=True)
        return
    shp = tuple(dim(src) for _ in range(src.int(1, 2)))
    A = G.array(src, src.choice(G.ALL), shp, "any", bcast=True)
    src.sig = f"{f} {A.n.dtype} {len(shp)} {[s % 2 for s in shp]} {A.lay[:4]}"
    src.note(f"{f}({A!r})")
    src.nontrivial = A.n.size > 1
    if f == "inverse":
        compare("ifftshift(fftshift(x))", rp.fft.ifftshift(rp.fft.fftshift(A.r)), A.n, exact=True)
    else:
        differential(src, f, lambda: getattr(rp.fft, f)(A.r), lambda: getattr(np.fft, f)(A.n), exact=True)


def algebra(src):
    """Inverse pairs, Parseval, linearity, the convolution theorem, the definition on small lengths."""
    n = dim(src) if src.bool(0.6) else longdim(src)
    src.nontrivial = n >= 2
    A, B = G.array(src, "complex128", (n,), "mod"), G.array(src, "float64", (n,), "mod")
    k = src.choice(["roundtrip", "rroundtrip", "nroundtrip", "parseval", "conv", "def", "n-consistent"])
    src.sig = f"{k} {n}"
    src.note(f"{k}: {A!r}, {B!r}")
    a, b = A.n, B.n
    t = 256 * E * (np.log2(n + 2) + 4)

    def near(what, x, y, scale):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or not (np.sqrt((np.abs(x - y) ** 2).sum()) <= t * (scale + 1e-300)):
            raise Violation("algebra", f"{what}: got {show(x)}, expected {show(y)}")
    na, nb = np.sqrt((np.abs(a) ** 2).sum()), np.sqrt((b ** 2).sum())
    if k == "roundtrip":
        near("ifft(fft(x))", rp.fft.ifft(rp.fft.fft(A.r)), a, na)
        near("fft(ifft(x))", rp.fft.fft(rp.fft.ifft(A.r)), a, na)
    elif k == "rroundtrip":
        if n % 2:
            r = rp.fft.irfftn(rp.fft.rfftn(B.r), s=[n])
            near("irfftn(rfftn(x), s)", r, b, nb)
        else:
            near("irfft(rfft(x))", rp.fft.irfft(rp.fft.rfft(B.r)), b, nb)
        near("hfft(ihfft(x), n)", rp.fft.hfft(rp.fft.ihfft(B.r), n), b, nb)
    elif k == "nroundtrip":
        m = src.int(1, 6)
        if n > 64:
            raise Discard
        X = G.array(src, "float64", (n, m), "mod")
        x = X.n
        near("ifftn(fftn(x))", rp.fft.ifftn(rp.fft.fftn(X.r)), x, np.sqrt((x ** 2).sum()))
        near("irfftn(rfftn(x), s)", rp.fft.irfftn(rp.fft.rfftn(X.r), s=[n, m]), x, np.sqrt((x ** 2).sum()))
        near("irfft2(rfft2(x), s)", rp.fft.irfft2(rp.fft.rfft2(X.r), s=[n, m]), x, np.sqrt((x ** 2).sum()))
    elif k == "parseval":
        f = np.asarray(rp.fft.fft(A.r))
        if not abs((np.abs(f) ** 2).sum() / n - na ** 2) <= t * (na ** 2 + 1e-300) * np.sqrt(n):
            raise Violation("algebra", "Parseval's identity fails")
    elif k == "conv":
        fa, fb = np.asarray(rp.fft.fft(A.r)), np.asarray(rp.fft.fft(B.r))
        if n > 300:
            raise Discard
        c = np.array([(a * b[(i - np.arange(n)) % n]).sum() for i in range(n)])
        near("convolution theorem", rp.fft.ifft(rp.asarray(fa * fb)), c, na * nb * np.sqrt(n))
    elif k == "def":
        if n > 130:
            raise Discard
        j = np.arange(n)
        W = np.exp(-2j * np.pi * ((j[:, None] * j[None, :]) % n) / n)
        near("fft by definition", rp.fft.fft(A.r), W @ a, na * np.sqrt(n) * np.sqrt(n))
    else:
        near("fftn of 1-d = fft", rp.fft.fftn(A.r), rp.fft.fft(A.r), na * np.sqrt(n))
        near("rfft = first half of fft", rp.fft.rfft(B.r), np.asarray(rp.fft.fft(B.r))[:n // 2 + 1], nb * np.sqrt(n))
        X = G.array(src, "complex128", (src.int(1, 5), n), "mod")
        full = np.asarray(rp.fft.fftn(X.r, axes=[1]))
        for i in range(X.n.shape[0]):
            near("row of fftn(axes=[1]) = fft of the row", full[i], rp.fft.fft(rp.asarray(X.n[i].copy())), np.sqrt((np.abs(X.n[i]) ** 2).sum() * n))


def refuse(src):
    """Complex input of a real transform and non-numbers raise."""
    src.nontrivial = True
    n = src.int(1, 9)
    if src.bool(0.6):
        f = src.choice(["rfft", "rfftn", "ihfft", "rfft2"])
        A = G.array(src, src.choice(["complex64", "complex128"]), (n, 3) if f == "rfft2" else (n,), "mod")
        src.sig, A_r = f"{f} {A.n.dtype} {n}", A.r
    else:
        f = src.choice(["fft", "ifft", "fftn", "rfft", "irfft", "hfft", "ihfft", "rfftn", "irfftn"])
        v = np.array(src.choice([["ab"] * n, ["2020-01-01"] * n]))
        if v[0] != "ab":
            v = v.astype("M8[D]")
        src.sig, A_r = f"{f} {v.dtype.kind} {n}", rp.asarray(v)
    src.note(src.sig)
    r = run(lambda: getattr(rp.fft, f)(A_r))
    if not isinstance(r, Err) or r.panic:
        raise Violation("accepts-invalid", f"{f}: gave {r!r}")


FACETS = {
    "one": Facet(one, 9000),
    "nd": Facet(nd, 9000),
    "shift": Facet(shift, 3000),
    "algebra": Facet(algebra, 4000),
    "refuse": Facet(refuse, 400),
}
