"""C16: random numbers."""
import math
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import compare, run, Err, show

RULE = ("a generator state, a history of draws, or a distribution with drawn parameters; non-trivial = at least one number is drawn or at least "
        "two elements are rearranged")
ASSUMPTIONS = ["NumPy's PCG64DXSM and distributions are the reference; the distribution tests reject at a probability of about 1e-10 per test "
               "and are deterministic for a given seed"]


def size(src, lo=0):
    return G.shape(src, lo, 3, maxsize=60)


def state(src):
    k = src.choice(["seed", "seed", "raw", "edge"])
    if k == "seed":
        s = np.random.PCG64DXSM(src.below(1 << 32)).state["state"]
        return s["state"], s["inc"]

    def big():
        return sum(src.below(1 << 32) << (32 * i) for i in range(4))
    if k == "raw":
        return big(), big() | 1
    return src.choice([0, 1, 5, (1 << 64) - 1, 1 << 64, (1 << 128) - 1, 1 << 127, (1 << 64) + 1]), src.choice([1, 3, (1 << 128) - 1, (1 << 64) + 1])


def numpy_gen(st):
    bg = np.random.PCG64DXSM(0)
    s = bg.state
    s["state"] = {"state": st[0], "inc": st[1]}
    bg.state = s
    return np.random.Generator(bg), bg


def exact(src):
    """from_numpy_state: the same raw stream, random() and uniform() bit for bit, over a history of draws."""
    st = state(src)
    g, bg = numpy_gen(st)
    r = rp.random.Generator.from_numpy_state(*st)
    src.note(f"state {st}")
    src.sig = "exact"
    for _ in range(src.int(1, 8)):
        k = src.choice(["raw", "random", "randoms", "uniform", "uniforms", "perm0"])
        src.note(k)
        src.nontrivial = True
        if k == "raw":
            a, b = r.random_raw(), int(bg.random_raw())
            if a != b:
                raise Violation("raw", f"random_raw {a}, expected {b}")
        elif k == "random":
            compare("random()", r.random(), g.random(), exact=True)
        elif k == "randoms":
            s = size(src)
            compare(f"random({s})", r.random(size=s), g.random(s), exact=True)
        elif k.startswith("uniform"):
            lo = src.choice([0.0, -1.0, 5.0, -1e10, 1e-300, 3.5])
            hi = lo + src.choice([1.0, 0.0, 2.5, 1e10, 1e-3])
            if k == "uniform":
                compare("uniform", r.uniform(lo, hi), g.uniform(lo, hi), exact=True)
            else:
                s = size(src)
                compare(f"uniform({lo}, {hi}, {s})", r.uniform(lo, hi, size=s), g.uniform(lo, hi, s), exact=True)
        else:
            r.permutation(1)


# name, parameter generator, NumPy's call, support check
def _pos(src):
    return src.choice([0.3, 0.5, 1.0, 1.5, 2.0, 3.7, 10.0, 50.0])


def _loc(src):
    return src.choice([0.0, 1.0, -2.5, 100.0])


def _p(src):
    return src.choice([0.5, 0.1, 0.3, 0.9, 0.7, 0.01])


D = {
    "random": (lambda s: (), lambda g, n: g.random(n), (0, 1)),
    "uniform": (lambda s: (_loc(s),) + (s.choice([101.0, 200.0]),), lambda g, n, a, b: g.uniform(a, b, n), None),
    "normal": (lambda s: (_loc(s), _pos(s)), lambda g, n, a, b: g.normal(a, b, n), None),
    "standard_normal": (lambda s: (), lambda g, n: g.standard_normal(n), None),
    "exponential": (lambda s: (_pos(s),), lambda g, n, a: g.exponential(a, n), (0, math.inf)),
    "standard_exponential": (lambda s: (), lambda g, n: g.standard_exponential(n), (0, math.inf)),
    "integers": (lambda s: (s.choice([0, -5, 100]), s.choice([101, 105, 1000])), lambda g, n, a, b: g.integers(a, b, n), "int"),
    "beta": (lambda s: (_pos(s), _pos(s)), lambda g, n, a, b: g.beta(a, b, n), (0, 1)),
    "gamma": (lambda s: (_pos(s), _pos(s)), lambda g, n, a, b: g.gamma(a, b, n), (0, math.inf)),
    "standard_gamma": (lambda s: (_pos(s),), lambda g, n, a: g.standard_gamma(a, n), (0, math.inf)),
    "poisson": (lambda s: (s.choice([0.0, 0.1, 1.0, 5.0, 11.9, 12.1, 40.0, 1000.0]),), lambda g, n, a: g.poisson(a, n), "int"),
    "binomial": (lambda s: (s.choice([0, 1, 2, 10, 50, 1000]), s.choice([0.0, 1.0, 0.5, 0.1, 0.9, 0.3])), lambda g, n, a, b: g.binomial(a, b, n), "int"),
    "chisquare": (lambda s: (_pos(s),), lambda g, n, a: g.chisquare(a, n), (0, math.inf)),
    "lognormal": (lambda s: (s.choice([0.0, 1.0, -1.0]), s.choice([0.25, 0.5, 1.0])), lambda g, n, a, b: g.lognormal(a, b, n), (0, math.inf)),
    "laplace": (lambda s: (_loc(s), _pos(s)), lambda g, n, a, b: g.laplace(a, b, n), None),
    "logistic": (lambda s: (_loc(s), _pos(s)), lambda g, n, a, b: g.logistic(a, b, n), None),
    "rayleigh": (lambda s: (_pos(s),), lambda g, n, a: g.rayleigh(a, n), (0, math.inf)),
    "weibull": (lambda s: (_pos(s),), lambda g, n, a: g.weibull(a, n), (0, math.inf)),
    # rumpy counts the failures before the first success, as its documentation and tests say
    "geometric": (lambda s: (s.choice([0.5, 0.1, 0.3, 0.9, 0.7, 1.0, 0.02]),), lambda g, n, a: g.geometric(a, n) - 1, "int"),
    "negative_binomial": (lambda s: (s.choice([1.0, 2.0, 10.0, 0.5, 3.5]), s.choice([0.5, 0.1, 0.9, 0.3, 1.0])), lambda g, n, a, b: g.negative_binomial(a, b, n), "int"),
    "hypergeometric": (lambda s: (s.choice([1, 5, 10, 100]), s.choice([1, 5, 20, 100]), s.choice([0, 1, 2])), lambda g, n, a, b, c: g.hypergeometric(a, b, c, n), "int"),
    "zipf": (lambda s: (s.choice([1.5, 2.0, 3.0, 5.0]),), lambda g, n, a: g.zipf(a, n), "int"),
    "triangular": (lambda s: (0.0, s.choice([0.0, 0.3, 1.0]), s.choice([1.0, 5.0])), lambda g, n, a, b, c: g.triangular(a, b, c, n), (0, 5)),
    "vonmises": (lambda s: (s.choice([0.0, 1.0, -2.0, 3.0]), s.choice([0.0, 0.5, 1.0, 4.0, 20.0])), lambda g, n, a, b: g.vonmises(a, b, n), (-math.pi - 1e-9, math.pi + 1e-9)),
    "pareto": (lambda s: (_pos(s),), lambda g, n, a: g.pareto(a, n), (0, math.inf)),
    "wald": (lambda s: (_pos(s), _pos(s)), lambda g, n, a, b: g.wald(a, b, n), (0, math.inf)),
    "standard_t": (lambda s: (_pos(s),), lambda g, n, a: g.standard_t(a, n), None),
    "standard_cauchy": (lambda s: (), lambda g, n: g.standard_cauchy(n), None),
}
NAMES = sorted(D)
_ref = {}


def ks(a, b):
    """Two-sample Kolmogorov-Smirnov distance."""
    a, b = np.sort(a), np.sort(b)
    x = np.concatenate([a, b])
    return np.abs(np.searchsorted(a, x, side="right") / a.size - np.searchsorted(b, x, side="right") / b.size).max()


def distribution(src):
    """The drawn numbers follow the named distribution (against NumPy's samples), in shape, dtype and support."""
    name = src.choice(NAMES)
    pf, nf, sup = D[name]
    par = pf(src)
    if name == "hypergeometric":
        par = par[:2] + (src.int(0, par[0] + par[1]),)
    if name == "uniform" and par[0] > par[1]:
        raise Discard
    seed = src.below(1 << 32)
    N = src.choice([6000, 12000])
    src.sig = f"dist {name}"
    src.note(f"default_rng({seed}).{name}{par} x {N}")
    src.nontrivial = True
    g = rp.random.default_rng(seed) if src.bool(0.7) else rp.random.Generator.from_numpy_state(*state_of(seed))
    f = getattr(g, name)
    r = run(lambda: f(*par, size=(N // 4, 4)))
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{name}{par}: {r}")
    x = np.asarray(r)
    want = np.dtype("int64") if sup == "int" else np.dtype("float64")
    if x.shape != (N // 4, 4) or x.dtype != want:
        raise Violation("shape", f"{name}: {x.dtype} {x.shape}")
    x = x.ravel()
    if x.dtype.kind == "f" and np.isnan(x).any():
        raise Violation("support", f"{name}{par}: NaN")
    if isinstance(sup, tuple) and ((x < sup[0]) | (x > sup[1])).any():
        raise Violation("support", f"{name}{par}: values outside {sup}: {x[(x < sup[0]) | (x > sup[1])][:5]}")
    key = (name, par)
    if key not in _ref:
        if len(_ref) > 200:
            _ref.clear()
        _ref[key] = nf(np.random.default_rng(12345), 60000, *par)
    y = _ref[key]
    d = ks(x, y)
    # P(D > c) ~ 2 exp(-2 c^2 nm/(n+m)); 1e-10
    c = math.sqrt(math.log(2e10) / 2 * (1 / N + 1 / y.size))
    if d > c:
        raise Violation("distribution", f"{name}{par}: Kolmogorov-Smirnov distance {d:.4f} > {c:.4f} from NumPy's distribution "
                        f"(quartiles {np.percentile(x, [25, 50, 75])} against {np.percentile(y, [25, 50, 75])})")
    # successive draws must not depend on each other: lag-1 rank correlation
    if x.size > 100 and np.unique(x).size > 2:
        q = np.argsort(np.argsort(x, kind="stable"), kind="stable") if sup != "int" else (x > np.median(x))
        q = q.astype("float64") - np.mean(q)
        if q.any():
            rho = (q[1:] * q[:-1]).sum() / (q * q).sum()
            if abs(rho) > 6.5 / math.sqrt(N):
                raise Violation("independence", f"{name}{par}: lag-1 correlation {rho:.3f}")


def state_of(seed):
    s = np.random.PCG64DXSM(seed).state["state"]
    return s["state"], s["inc"]


def vector(src):
    """multinomial, dirichlet, multivariate_normal: sums, shapes, means and covariances."""
    k = src.choice(["multinomial", "dirichlet", "multivariate_normal"])
    seed = src.below(1 << 32)
    g = rp.random.default_rng(seed)
    N = 4000
    src.sig = k
    src.nontrivial = True
    d = src.int(1, 4)
    z = 6.8
    if k == "multinomial":
        w = [src.choice([1.0, 2.0, 0.5, 0.0, 7.0]) for _ in range(d)]
        t = sum(w) or 1.0
        p = [x / t for x in w] if sum(w) else [1.0] + [0.0] * (d - 1)
        n = src.choice([0, 1, 10, 100])
        src.note(f"multinomial({n}, {p}) seed {seed}")
        r = run(lambda: g.multinomial(n, p, size=N))
        if isinstance(r, Err):
            raise Violation("panic" if r.panic else "raises", f"multinomial: {r}")
        x = np.asarray(r)
        if x.shape != (N, d) or x.dtype != np.dtype("int64") or (x < 0).any() or (x.sum(1) != n).any():
            raise Violation("sum", f"multinomial: {show(x[:3])} {x.shape} {x.dtype}")
        p = np.array(p)
        if (x[:, p == 0] != 0).any():
            raise Violation("support", "a category of probability 0 was drawn")
        m = x.mean(0)
        if (np.abs(m - n * p) > z * np.sqrt(n * p * (1 - p) / N) + 1e-9).any():
            raise Violation("mean", f"multinomial means {m}, expected {n * p}")
    elif k == "dirichlet":
        a = np.array([src.choice([0.5, 1.0, 2.0, 5.0, 20.0]) for _ in range(d)])
        src.note(f"dirichlet({a.tolist()}) seed {seed}")
        x = np.asarray(g.dirichlet(a.tolist(), size=N))
        if x.shape != (N, d) or (x < 0).any() or (np.abs(x.sum(1) - 1) > 1e-9).any():
            raise Violation("sum", f"dirichlet: {show(x[:3])} {x.shape}")
        a0 = a.sum()
        m, v = a / a0, a * (a0 - a) / (a0 * a0 * (a0 + 1))
        if (np.abs(x.mean(0) - m) > z * np.sqrt(v / N) + 1e-9).any():
            raise Violation("mean", f"dirichlet means {x.mean(0)}, expected {m}")
        if (np.abs(x.var(0) - v) > 0.35 * v + 1e-9).any():
            raise Violation("var", f"dirichlet variances {x.var(0)}, expected {v}")
    else:
        L = np.array([[src.choice([1.0, 0.5, -1.0, 2.0, 0.0]) if j <= i else 0.0 for j in range(d)] for i in range(d)])
        mean = [src.choice([0.0, 1.0, -5.0]) for _ in range(d)]
        cov = L @ L.T
        src.note(f"multivariate_normal({mean}, {cov.tolist()}) seed {seed}")
        x = np.asarray(g.multivariate_normal(mean, cov.tolist(), size=N))
        if x.shape != (N, d) or not np.isfinite(x).all():
            raise Violation("value", f"multivariate_normal: {show(x[:3])} {x.shape}")
        sd = np.sqrt(np.diag(cov))
        if (np.abs(x.mean(0) - mean) > z * sd / math.sqrt(N) + 1e-6).any():
            raise Violation("mean", f"means {x.mean(0)}, expected {mean}")
        c = np.cov(x, rowvar=False, bias=True).reshape(d, d)
        if (np.abs(c - cov) > z * np.outer(sd, sd) * math.sqrt(2 / N) + 1e-5).any():
            raise Violation("cov", f"covariance {c.tolist()}, expected {cov.tolist()}")


def history(src):
    """The same seed and the same calls give the same numbers; other seeds do not; draws do not depend on how they are split."""
    seed = src.below(1 << 40)
    a, b, c = rp.random.default_rng(seed), rp.random.Generator(seed=seed), rp.random.default_rng(seed + 1 + src.below(1000))
    src.sig = "history"
    src.note(f"seed {seed}")
    src.nontrivial = True
    diff = 0
    for _ in range(src.int(1, 6)):
        name = src.choice(NAMES)
        par = D[name][0](src)
        if name == "hypergeometric":
            par = par[:2] + (min(par[2], par[0] + par[1]),)
        if name == "uniform":
            par = (0.0, 1.0)
        s = size(src)
        src.note(f"{name}{par} {s}")
        x, y = getattr(a, name)(*par, size=s), getattr(b, name)(*par, size=s)
        compare(f"{name} with the same seed", y, np.asarray(x).copy(), exact=True)
        if tuple(x.shape) != s:
            raise Violation("shape", f"{name} size={s} gave {x.shape}")
        w = getattr(c, name)(*par, size=s)
        if name in ("random", "normal", "standard_normal", "exponential") and np.asarray(x).size > 3:
            diff = 1
            if (np.asarray(w) == np.asarray(x)).all():
                raise Violation("seed", f"{name}: another seed gave the same numbers")
        s1 = getattr(a, name)(*par)
        s2 = getattr(b, name)(*par)
        if s1 != s2 or isinstance(s1, bool) or not isinstance(s1, (int, float)):
            raise Violation("scalar", f"{name}: {s1!r} / {s2!r} with the same seed")
    # splitting
    k = src.choice(["random", "uniform", "standard_normal", "standard_exponential", "normal"])
    n = src.int(1, 12)
    whole = np.asarray(getattr(a, k)(size=n))
    parts = []
    while len(parts) < n:
        if src.bool(0.5):
            parts.append(getattr(b, k)())
        else:
            parts += np.asarray(getattr(b, k)(size=(src.int(1, n - len(parts)),))).tolist()
    if parts != whole.tolist():
        raise Violation("split", f"{k}: {n} draws {whole.tolist()[:6]} differ from the same draws in several calls {parts[:6]}")


def integers(src):
    """integers stays in [low, high), reaches every value, keeps 64 bits, and is uniform (by position and by remainder) over ranges of every size."""
    lo = src.choice([0, -1, 5, -(2**63), 2**62, -(2**40), 2**53])
    w = src.choice([1, 2, 3, 7, 100, 2**33, 2**60, 2**63 - 1, 3 * 2**61, 5 * 2**60, 2**63 + 2**62, 2**64 - 1, 3 * 2**30, 6 * 10**18])
    if src.bool(0.3):
        w = src.int(1, 255) << src.choice([0, 8, 24, 40, 54, 55, 56])
    hi = min(lo + w, 2**63 - 1)
    g = rp.random.default_rng(src.below(1 << 32))
    n = src.weighted([(1, 1), (2, 5), (4, 400), (3, 6000)])
    src.sig = "integers"
    src.note(f"integers({lo}, {hi}, {n})")
    src.nontrivial = True
    r = run(lambda: g.integers(lo, hi, size=(n,)))
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"integers: {r}")
    x = np.asarray(r)
    if x.dtype != np.dtype("int64") or x.shape != (n,):
        raise Violation("dtype", f"{x.dtype} {x.shape}")
    v = [int(i) for i in x] + [g.integers(lo, hi)]
    if min(v) < lo or max(v) >= hi:
        raise Violation("range", f"integers({lo}, {hi}) gave {min(v)}..{max(v)}")
    if n == 6000 and hi - lo > 1:
        for what, k, f in [(f"remainders by {k}", k, lambda i, k=k: (i - lo) % k) for k in (2, 3, 5, 7, 16)] + [("eighths of the range", 8, lambda i: (i - lo) * 8 // (hi - lo))]:
            if hi - lo < k:
                continue
            # how many integers of the range are in each class
            cl = [f(lo + i) for i in range(hi - lo)] if hi - lo <= 4096 else None
            if cl is None and what != "eighths of the range" and (hi - lo) < 10**6:
                continue
            p = [cl.count(j) / len(cl) if cl else 1 / k for j in range(k)]
            c = [0] * k
            for i in v:
                c[f(i)] += 1
            x2 = sum((a - len(v) * b) ** 2 / (len(v) * b) for a, b in zip(c, p) if b)
            if x2 > 130:  # at most 15 degrees of freedom: once in 1e19
                raise Violation("uniform", f"integers({lo}, {hi}) x {n}: {what} occur {c} times")
    if n == 400:
        if hi - lo <= 7 and len(set(v)) != hi - lo:
            raise Violation("coverage", f"integers({lo}, {hi}) x 400 gave only {sorted(set(v))}")
        if hi - lo >= 2**33 and (len(set(v)) < 395 or len({i & 7 for i in v}) != 8):
            raise Violation("coverage", f"integers({lo}, {hi}) x 400 lacks low bits")
    if lo == 0 and src.bool(0.3) and not (0 <= g.integers(hi) < hi):
        raise Violation("range", "integers(high)")


def rearrange(src):
    """shuffle, permutation and choice move whole rows, each exactly as often as asked, for every dtype and layout."""
    k = src.choice(["shuffle", "permutation", "permutation_int", "choice", "choice_int", "choice_noreplace"])
    d = src.choice(G.ALL)
    seed = src.below(1 << 32)
    g, g2 = rp.random.default_rng(seed), rp.random.default_rng(seed)
    src.sig = f"{k} {d}"
    if k == "permutation_int":
        n = src.int(0, 30)
        src.note(f"permutation({n})")
        src.nontrivial = n > 1
        x = np.asarray(g.permutation(n))
        if x.dtype != np.dtype("int64") or sorted(x.tolist()) != list(range(n)):
            raise Violation("value", f"permutation({n}) gave {show(x)}")
        return
    if k == "choice_int":
        n = src.int(1, 20)
        rep = src.bool(0.5)
        m = src.int(0, 25)
        src.note(f"choice({n}, {m}, {rep})")
        src.nontrivial = m > 0
        x = run(lambda: g.choice(n, size=m, replace=rep))
        if not rep and m > n:
            if not isinstance(x, Err) or x.panic:
                raise Violation("accepts-invalid", f"choice({n}, {m}, replace=False): {x}")
            return
        if isinstance(x, Err):
            raise Violation("raises", f"choice: {x}")
        x = np.asarray(x)
        if x.shape != (m,) or x.dtype != np.dtype("int64") or m and (x.min() < 0 or x.max() >= n) or not rep and len(set(x.tolist())) != m:
            raise Violation("value", f"choice({n}, {m}, {rep}) gave {show(x)}")
        return
    shp = G.shape(src, 1, 3)
    A = G.array(src, d, shp)
    n = A.n.copy()
    src.note(f"{k} {A!r} seed {seed}")
    src.nontrivial = n.shape[0] > 1

    def rows(a):
        a = np.asarray(a)
        return sorted(np.ascontiguousarray(a[i]).tobytes() for i in range(a.shape[0]))
    if k == "shuffle":
        whole = np.asarray(A.rbase).copy() if A.rbase is not None else None
        e = run(lambda: g.shuffle(A.r))
        if isinstance(e, Err):
            raise Violation("panic" if e.panic else "raises", f"shuffle: {e}")
        m = np.asarray(A.r)
        if m.shape != n.shape or rows(m) != rows(n):
            raise Violation("value", f"shuffle turned {show(n)} into {show(m)}")
        p = np.asarray(g2.permutation(rp.array(n)))
        compare("permutation(copy) with the same seed", p, m.copy(), exact=True)
        if whole is not None and A.rbase is not A.r:
            # nothing outside the view moved
            after = np.asarray(A.rbase).copy()
            nb = A.nbase.copy()
            mark = np.zeros(nb.shape, bool)
            v = np.asarray(A.r)
            base = np.asarray(A.rbase)
            off = (v.__array_interface__["data"][0] - base.__array_interface__["data"][0])
            idx = np.arange(nb.size).reshape(nb.shape)
            iv = np.ndarray(v.shape, "i8", buffer=np.ascontiguousarray(idx), offset=off // nb.itemsize * 8,
                            strides=[s // nb.itemsize * 8 for s in v.strides])
            mark.ravel()[iv.ravel()] = True
            a, b = whole[~mark], after[~mark]
            if a.tobytes() != b.tobytes():
                raise Violation("outside", f"shuffle of a view changed elements outside it: {show(whole)} -> {show(after)}")
        return
    if k == "permutation":
        x = np.asarray(g.permutation(A.r))
        if x.dtype != n.dtype or x.shape != n.shape or rows(x) != rows(n):
            raise Violation("value", f"permutation of {show(n)} gave {show(x)}")
        compare("the argument of permutation", A.r, n, exact=True)
        return
    if n.shape[0] == 0:
        e = run(lambda: g.choice(A.r, size=2))
        if not isinstance(e, Err) or e.panic:
            raise Violation("accepts-invalid", f"choice from nothing: {e}")
        return
    rep = k == "choice"
    m = src.int(0, 12) if rep else src.int(0, n.shape[0])
    x = run(lambda: g.choice(A.r, size=(m,), replace=rep))
    if isinstance(x, Err):
        raise Violation("panic" if x.panic else "raises", f"choice: {x}")
    x = np.asarray(x)
    if x.shape != (m,) + n.shape[1:] or x.dtype != n.dtype:
        raise Violation("shape", f"choice({m}) from {n.dtype} {n.shape} gave {x.dtype} {x.shape}")
    pool = rows(n)
    for r_ in rows(x):
        if r_ not in pool:
            raise Violation("value", f"choice from {show(n)} gave {show(x)}")
        if not rep:
            pool.remove(r_)


def uniformity(src):
    """Every permutation, position and element is equally likely."""
    k = src.choice(["permutation", "shuffle", "choice", "choice_noreplace"])
    seed = src.below(1 << 32)
    g = rp.random.default_rng(seed)
    n = src.int(2, 4)
    N = 1500
    src.sig = f"uniform {k}"
    src.note(f"{k} of {n} seed {seed}")
    src.nontrivial = True
    counts = {}
    for _ in range(N):
        if k == "permutation":
            x = tuple(g.permutation(n).tolist())
        elif k == "shuffle":
            a = rp.arange(n)
            g.shuffle(a)
            x = tuple(a.tolist())
        elif k == "choice":
            x = tuple(g.choice(n, size=2).tolist())
        else:
            x = tuple(g.choice(n, size=2, replace=False).tolist())
        counts[x] = counts.get(x, 0) + 1
    cells = {"permutation": math.factorial(n), "shuffle": math.factorial(n), "choice": n * n, "choice_noreplace": n * (n - 1)}[k]
    e = N / cells
    if len(counts) != cells:
        raise Violation("coverage", f"{k}({n}): {len(counts)} of {cells} outcomes in {N} draws")
    bad = {x: c for x, c in counts.items() if abs(c - e) > 6.5 * math.sqrt(e)}
    if bad:
        raise Violation("uniformity", f"{k}({n}): outcomes {bad} of {N}, expected about {e:.0f} each")


BAD = [("normal", (0.0, -1.0)), ("exponential", (-1.0,)), ("beta", (0.0, 1.0)), ("beta", (-1.0, 2.0)), ("gamma", (-1.0, 1.0)), ("gamma", (1.0, -1.0)),
       ("poisson", (-1.0,)), ("binomial", (5, 1.5)), ("binomial", (5, -0.1)), ("binomial", (5, math.nan)), ("chisquare", (-1.0,)), ("chisquare", (0.0,)),
       ("lognormal", (0.0, -1.0)), ("laplace", (0.0, -1.0)), ("logistic", (0.0, -1.0)), ("rayleigh", (-1.0,)), ("weibull", (-1.0,)),
       ("geometric", (1.5,)), ("geometric", (-0.5,)), ("negative_binomial", (-1.0, 0.5)), ("negative_binomial", (1.0, 0.0)), ("negative_binomial", (1.0, 1.5)),
       ("hypergeometric", (2, 3, 10)), ("zipf", (1.0,)), ("zipf", (0.5,)), ("triangular", (1.0, 0.0, 2.0)), ("triangular", (0.0, 3.0, 2.0)),
       ("triangular", (2.0, 1.0, 0.0)), ("vonmises", (0.0, -1.0)), ("pareto", (-1.0,)), ("pareto", (0.0,)), ("wald", (-1.0, 1.0)), ("wald", (1.0, -1.0)),
       ("standard_t", (-1.0,)), ("standard_t", (0.0,)), ("standard_gamma", (-1.0,)), ("integers", (5, 5)), ("integers", (5, 2)), ("integers", (0,)),
       ("uniform", (2.0, 1.0)), ("uniform", (-1.7e308, 1.7e308)), ("multinomial", (5, [0.9, 0.9, 0.1])), ("multinomial", (5, [-0.1, 1.1])),
       ("multinomial", (5, [math.nan, 0.5])), ("dirichlet", ([1.0, -1.0],)), ("dirichlet", ([0.0, 0.0],)),
       ("multivariate_normal", ([0.0, 0.0], [[1.0]])), ("multivariate_normal", ([0.0], [[1.0, 0.0]])), ("choice", (0,)), ("normal", (0.0, math.nan)),
       ("poisson", (math.nan,)), ("exponential", (math.nan,)), ("integers", (-1,))]


def invalid(src):
    """Invalid parameters raise (ValueError, OverflowError or TypeError) and leave the generator usable and its stream unchanged."""
    name, par = src.choice(BAD)
    sz = src.choice([None, (3,), 2])
    if name in ("multinomial", "dirichlet", "multivariate_normal"):
        sz = src.choice([None, 2])
    seed = src.below(1 << 32)
    g, h = rp.random.default_rng(seed), rp.random.default_rng(seed)
    src.sig = f"invalid {name}"
    src.note(f"{name}{par} size={sz}")
    src.nontrivial = True
    k = {} if sz is None else {"size": sz}
    r = run(lambda: getattr(g, name)(*par, **k))
    if not isinstance(r, Err):
        raise Violation("accepts-invalid", f"{name}{par} gave {show(r)}")
    if r.panic or not isinstance(r.e, (ValueError, OverflowError, TypeError)):
        raise Violation("panic", f"{name}{par}: {r}")
    s = run(lambda: (g.random(), h.random()))
    if isinstance(s, Err) or s[0] != s[1]:
        raise Violation("state", f"after the refused {name}{par}: {s}")


FACETS = {"exact": Facet(exact, 6000), "distribution": Facet(distribution, 500), "vector": Facet(vector, 150), "history": Facet(history, 1500),
          "integers": Facet(integers, 1500), "rearrange": Facet(rearrange, 12000), "uniformity": Facet(uniformity, 80), "invalid": Facet(invalid, 1200)}
