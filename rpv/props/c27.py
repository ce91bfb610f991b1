"""C27: what an operation cannot compute it refuses; it never crashes and never makes up an answer."""
import re
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from .. import table as T
from ..cmp import run, Err, compare, show, TOL, to_np

RULE = ("a call from the table of expressions with operands of any dtype, size (zero included) or layout, or with axes, shapes and indices outside the "
        "valid range; non-trivial = the call is refused, or it answers and NumPy accepts it")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference for every call that is answered; refusing (any exception but a panic) is always accepted in this property",
               "results returned as Python floats for dates and durations, the order among equal elements, and documented deviations are not judged"]
DT = ["complex128", "complex64", "bool", "float16", "U3", "M8[D]", "m8[s]", "int8", "uint64", "float32", "float64", "int64"]
MODE = {"U3": "text", "M8[D]": "time", "m8[s]": "time"}
UNSTABLE = "argsort|argpartition|unique_values|unique_inverse|partition"  # the order among equal elements is free
DOCUMENTED = "i0|inner|correlate|unwrap|convolve|nanprod|linalg.cond"
EXPRS = [(g, e) for g, e in T.EXPRS if not re.match(rf"(m|x)\.({UNSTABLE}|{DOCUMENTED})\(", e)]
TIES = re.compile(r"(m|x)\.(round|rint|around|fix)\(")
BOOLX = re.compile(r"m\.(floor_divide|remainder|mod|fmod|divmod|trapezoid|float_power)\(|x (//|%) y")  # NumPy computes these of bool in int8
ORDC = re.compile(r"m\.(less|greater)|x (<|>)|m\.(maximum|minimum|fmax|fmin)\(|(m|x)\.clip\(")  # rumpy orders complex numbers by modulus


BOOLOK = re.compile(r"(subtract|negative|positive|sign|round|ptp|gradient|cross|ediff1d|percentile|quantile|gcd|lcm)\(|x - ")  # bool as 0 and 1, where NumPy refuses
OWN = re.compile(r"nonzero\(|(skew|kurtosis|moment)\(|m\.(det|inv|solve|norm)\(|hfft|m\.power")  # not in NumPy, or documented


def nothing(r):
    """No element was computed."""
    return all(nothing(a) for a in r) if isinstance(r, (tuple, list)) else not np.asarray(r).size if not isinstance(r, rp.ndarray) else not r.size


def loose(what, r, n, tol, d):
    if isinstance(n, (tuple, list)):
        if not isinstance(r, (tuple, list)) or len(r) != len(n):
            raise Violation("arity", f"{what}: got {show(r)}, expected {show(n)}")
        for i, (a, b) in enumerate(zip(r, n)):
            loose(f"{what}[{i}]", a, b, tol, d)
        return
    nn = np.asarray(n)
    if nn.dtype.kind == "O":
        return
    if isinstance(r, rp.ndarray):
        r = np.array(np.asarray(r))
    elif isinstance(r, (float, complex)) and nn.dtype.kind in "mM":
        return
    rn = np.asarray(r)
    if rn.dtype.kind == "O" or rn.size != nn.size:
        raise Violation("shape", f"{what}: got {show(r)}, expected {show(n)}")
    rn = rn.reshape(nn.shape)
    if rn.dtype.kind in "fciub" and nn.dtype.kind in "fciub":
        if rn.dtype.kind == "b":
            rn = rn.astype("u1")
        if nn.dtype.kind == "b":
            nn = nn.astype("u1")
        ap = nn.dtype.kind in "fc" or rn.dtype.kind in "fc"
        for a in (rn, nn):  # the coarser of the two formats decides how close they must be
            if a.dtype.kind in "fc":
                tol = max(tol, {2: 4e-3, 4: 1e-5, 8: 1e-5 if a.dtype.kind == "c" else 0}.get(a.dtype.itemsize, 0))
        m = 1.0
        if ap and nn.size:
            f = np.abs(nn[np.isfinite(nn)])
            m = float(f.max()) if f.size else 1.0
            if nn.dtype == np.float16 or rn.dtype == np.float16 or d in ("float16", "complex64", "float32"):
                k = np.isfinite(nn) == np.isfinite(rn)  # overflow at the edge of the narrower format
                if not np.all(k):
                    rn, nn = rn[k], nn[k]
        if "c" in (rn.dtype.kind, nn.dtype.kind):
            k = ~np.isfinite(nn) & ~np.isfinite(rn)  # after an overflow inf and nan depend on the order of the products
            rn, nn = rn[~k], nn[~k]
        compare(what, rn, nn, exact=not ap, dtype=None, rtol=tol * 50 if ap else None, atol=tol * 200 * max(m, 1.0) if ap else None)
        return
    if rn.dtype.kind != nn.dtype.kind:
        raise Violation("kind", f"{what}: got {show(r)}, expected {show(n)}")
    compare(what, rn, nn, exact=True, dtype=None)


def judge(src, e, x, y, v, tol, d):
    src.note(f"{e} with x={x!r}" + (f", y={y!r}" if y is not None else "") + f" {v}")
    r = run(lambda: T.call(e, rp, x.r, y.r if y is not None else None, v))
    if isinstance(r, Err):
        if r.panic:
            raise Violation("panic", f"{e}: {r}")
        src.label("refused")
        src.nontrivial = True
        return
    with np.errstate(all="ignore"):
        n = run(lambda: T.call(e, np, x.n, y.n if y is not None else None, v))
    if isinstance(n, Err):
        if "AttributeError" in str(n) or OWN.search(e) or d == "uint64" and "choose" in e or d == "bool" and BOOLOK.search(e) or d == "float16" and "linalg" in e or not x.n.size and nothing(r):
            raise Discard("ref-refuses")
        raise Violation("answers", f"{e}: got {show(r)}, NumPy raises {n}")
    if d in ("uint64", "int64") and re.search("linalg|histogram2d", e):
        raise Discard("ill-conditioned")
    src.nontrivial = True
    loose(e, r, n, tol, d)


def dtype(src):
    g, e = src.choice(EXPRS)
    d = src.choice(DT)
    if d == "bool" and BOOLX.search(e) or d.startswith("c") and ORDC.search(e):
        raise Discard("documented")
    if d == "m8[s]" and "sign(" in e:
        raise Discard("documented")  # NumPy gives NaT the sign -1
    mode = MODE.get(d, g["mode"] if g["mode"] not in ("text", "time", "nanmod") else "small")
    if TIES.search(e):
        mode = "small" if mode in MODE.values() else "int" if False else mode
    h = dict(g, dtypes=[d], mode=mode, minsize=0 if src.bool(0.1) else 1)
    if not g["shape"]:
        h["nd"] = (0, 3) if src.bool(0.3) else g["nd"]
    try:
        d, x, y, v = T.draw(src, h, small=True, layout=src.bool(0.2))
    except (IndexError, KeyError):
        raise Discard("shape")
    if TIES.search(e) and d[0] in "fc" and x.n.size:
        z = x.n.real
        if d[0] == "c" or np.any(np.abs(z * 10 % 1) == 0.5) or np.any(np.abs(z % 1) == 0.5):
            raise Discard("ties")
    src.sig = f"{e} {d} {len(x.n.shape)} {x.n.size == 0}"
    src.label(g["name"])
    judge(src, e, x, y, v, max(TOL.get(d, 1e-11), 1e-11), d)


# calls whose integer arguments may be anything: a, b, c are drawn beyond every valid range
LIMIT = [e.strip() for e in """
m.sum(x, axis=a)|m.prod(x, axis=a)|m.mean(x, axis=a)|m.max(x, axis=a)|m.min(x, axis=a)|m.var(x, axis=a)|m.std(x, axis=a)|m.argmax(x, axis=a)|m.argmin(x, axis=a)
m.sum(x, axis=(a, b))|m.max(x, axis=(a, b))|m.mean(x, axis=(a, b))|m.any(x, axis=(a, b))
m.any(x, axis=a)|m.all(x, axis=a)|m.median(x, axis=a)|m.ptp(x, axis=a)|m.average(x, axis=a)|m.nansum(x, axis=a)|m.nanmean(x, axis=a)|m.nanmax(x, axis=a)|m.nanmedian(x, axis=a)
m.nanargmax(x, axis=a)|m.nanvar(x, axis=a)|m.percentile(x, b * 20, axis=a)|m.quantile(x, b / 4, axis=a)|m.nanpercentile(x, b * 30, axis=a)
m.cumsum(x, axis=a)|m.cumprod(x, axis=a)|m.nancumsum(x, axis=a)|m.diff(x, axis=a)|m.diff(x, b, axis=a)|m.gradient(x, axis=a)|m.trapezoid(x, axis=a)|m.unwrap(x, axis=a)
m.sort(x, axis=a)|x.sum(a)|x.max(a)|x.mean(a)|x.var(a)|x.cumsum(a)|x.argmax(a)|x.argmin(a)|x.any(a)|x.all(a)|x.prod(a)|x.min(a)|x.std(a)
m.flip(x, axis=a)|m.roll(x, b)|m.roll(x, b, axis=a)|m.repeat(x, b)|m.repeat(x, b, axis=a)|m.expand_dims(x, a)|m.squeeze(x, axis=a)|x.squeeze(a)|m.swapaxes(x, a, b)|x.swapaxes(a, b)
m.moveaxis(x, a, b)|m.rollaxis(x, a)|m.rollaxis(x, a, b)|m.transpose(x, (a, b))|m.transpose(x, (a, b, c))|x.transpose(a, b)|x.transpose((a, b))|x.transpose(a, b, c)|m.rot90(x, a)|m.rot90(x, a, (b, c))
m.concatenate([x, x], axis=a)|m.stack([x, x], axis=a)|m.concatenate([x, y], axis=a)|m.stack([x, y], axis=a)|m.append(x, x, axis=a)|m.append(x, y, axis=a)|m.delete(x, b)|m.delete(x, b, axis=a)
m.insert(x, b, 7)|m.insert(x, b, 7, axis=a)|m.take(x, m.asarray(np.array([b, c])))|m.take(x, m.asarray(np.array([b, c])), axis=a)|m.compress([True, False, True], x, axis=a)
m.split(x, b)|m.split(x, b, axis=a)|m.array_split(x, b)|m.array_split(x, b, axis=a)|m.split(x, [b, c], axis=a)|m.hsplit(x, b)|m.vsplit(x, b)|m.dsplit(x, b)|m.unstack(x, axis=a)
m.reshape(x, (a, b))|x.reshape(a, b)|x.reshape((a, b, c))|x.reshape(a)|m.reshape(x, a)|m.resize(x, (abs(a), abs(b)))|m.resize(x, (a, b))|m.broadcast_to(x, (a, b))|m.broadcast_to(x, (abs(a), abs(b)))|m.broadcast_to(x, (abs(a), abs(b), abs(c)))
m.tile(x, b)|m.tile(x, (a, b))|m.pad(x, b)|m.pad(x, (b, c))|m.pad(x, (b, c), mode='edge')|m.diag(x, b)|m.diagonal(x, b)|m.trace(x)|m.tril(x, b)|m.triu(x, b)|m.diagflat(x, b)|m.trim_zeros(x)
x[a]|x[a, b]|x[a, b, c]|x[a:b]|x[a:b:c]|x[..., a]|x[a, ...]|x[None, a]|x[:, a]|x[a:, b]|x[::c]|x[:, ::c]|x[..., a:b, c]|x[a, None, b]|x[..., ...]
m.zeros((a, b))|m.ones(a)|m.full((a, b), 3)|m.empty(a).shape|m.eye(a)|m.eye(a, b)|m.eye(a, b, c)|m.identity(a)|m.tri(a, b, c)|m.arange(a, b, c)|m.arange(a)|m.linspace(a, b, c)|m.logspace(a, b, c)|m.vander(x, a)|m.indices((a, b))
m.cross(x, y)|m.dot(x, y)|m.matmul(x, y)|m.vdot(x, y)|m.tensordot(x, y, axes=a)|m.tensordot(x, y, axes=([a], [b]))|m.outer(x, y)|m.kron(x, y)|x @ y
m.einsum('ij,jk->ik', x, y)|m.einsum('i,i->', x, y)|m.einsum('ij->ji', x)|m.einsum('ii->i', x)|m.einsum('ij,j->i', x, y)|m.linalg.multi_dot([x, y])
m.linalg.inv(x)|m.linalg.det(x)|m.linalg.solve(x, y)|m.linalg.eigvals(x).shape|m.linalg.matrix_power(x, a)|m.linalg.cholesky(x)|m.linalg.norm(x, axis=a)|m.linalg.qr(x)[1].shape
m.fft.fft(x, n=a)|m.fft.fft(x, axis=a)|m.fft.ifft(x, n=a, axis=b)|m.fft.rfft(x, n=a)|m.fft.irfft(x, n=a)|m.fft.fft2(x, axes=(a, b))|m.fft.fftn(x, axes=(a, b))|m.fft.fftshift(x, axes=a)|m.fft.fftfreq(a)|m.fft.rfftfreq(a)
m.convolve(x, y)|m.convolve(x, y, 'same')|m.correlate(x, y, 'valid').shape|m.interp(x, m.sort(y), y)|m.histogram(x, a)|m.histogram_bin_edges(x, b)|m.bincount(m.asarray(np.array([abs(a), abs(b)])), minlength=c)
m.searchsorted(m.sort(x.ravel()), y)|m.lexsort((x, y))|m.unravel_index(m.asarray(np.array([a])), (2, 3))|m.unravel_index(b, (a, 3))|m.ravel_multi_index((m.asarray(np.array([a])), m.asarray(np.array([b]))), (2, 3))
m.tril_indices(a, b)|m.triu_indices(a, b, c)|m.diag_indices(a, b)|m.hanning(a)|m.hamming(a)|m.blackman(a)|m.bartlett(a)|m.vander(x)|m.polyfit(x, y, a).shape|m.polyder(x, a)|m.polyint(x, a)|m.polyval(x, y)|m.roots(x).shape|m.poly(x)
m.add(x, y)|m.maximum(x, y)|m.where(x > 1, x, y)|x + y|x * y|x == y|x < y|m.logical_and(x, y)|m.isclose(x, y)|m.hypot(x, y)|m.copysign(x, y)|m.ldexp(x, b)|m.clip(x, a, b)|m.allclose(x, y)|m.array_equal(x, y)
m.hstack([x, y])|m.vstack([x, y])|m.dstack([x, y])|m.column_stack([x, y])|m.block([[x, y]])|m.meshgrid(x, y)|m.broadcast_arrays(x, y)|m.cov(x)|m.corrcoef(x)|m.ediff1d(x)|m.extract(x > 0, y)|m.take_along_axis(x, m.asarray(np.array([[b], [c]])), axis=a)
m.flatnonzero(x)|m.argwhere(x)|m.nonzero(x)|m.count_nonzero(x)|m.unique(x)|m.union1d(x, y)|m.intersect1d(x, y)|m.setdiff1d(x, y)|m.isin(x, y)|m.packbits(m.asarray(np.array([a > 0, b > 0])), axis=c)|m.nan_to_num(x)|m.choose(m.asarray(np.array([a, b])), [x, y])
m.piecewise(x, [x > 0], [a, b])|m.select([x > 0], [y])|m.ix_(x, y)|m.fliplr(x)|m.flipud(x)|m.atleast_3d(x)|m.squeeze(x)|x.flatten()|x.ravel()|x.item()|x.tolist()|x.view('int32')|x.astype('int8')|x.T|m.linalg.pinv(x).shape|m.linalg.slogdet(x)
m.apply_over_axes(m.sum, x, a)|m.cumulative_sum(x, axis=a)|m.cumulative_prod(x, axis=a)|m.argpartition(x, b, axis=a).shape|m.argsort(x, axis=a).shape|m.linalg.eigh(x)[0].shape|m.linalg.lstsq(x, y)[0].shape|m.linalg.tensorsolve(x, y)
""".replace("\n", "|").split("|") if e.strip()]
ORDERED = re.compile(r"x (>|<)|maximum|clip")  # rumpy orders complex numbers by modulus
NOBOOL = re.compile(r"m\.(cross|ediff1d|gradient|trapezoid|clip|convolve|power|diff|percentile|quantile|nanpercentile|unwrap|copysign|ptp|einsum)\(")  # NumPy refuses some of these for bool
EMPTYQ = re.compile(r"m\.(average|fft\.fftn)\(")  # NumPy stumbles over empty arrays here
NO0D = re.compile(r"m\.(nonzero|roots|poly|argwhere|flatnonzero)\(")


def limits(src):
    e = src.choice(LIMIT)
    d = src.weighted([(5, "float64"), (2, "int64"), (1, "float32"), (1, "bool"), (1, "complex128")])
    shp = tuple(src.int(0, 4) if src.bool(0.9) else 0 for _ in range(src.weighted([(2, 1), (4, 2), (2, 3), (1, 0)])))
    shy = shp if src.bool(0.5) else tuple(src.int(0, 4) for _ in range(src.int(0, 3)))
    x = G.array(src, d, shp, "small", src.bool(0.3))
    y = G.array(src, d, shy, "small", src.bool(0.3))
    if d == "bool" and NOBOOL.search(e) or d[0] == "c" and ORDERED.search(e) or not shp and NO0D.match(e) or (0 in shp or 0 in shy) and EMPTYQ.match(e):
        raise Discard("documented")
    a, b, c = (src.choice([0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 7]) for _ in range(3))
    src.sig = f"{e} {d} {shp} {shy} {a} {b} {c}"
    src.note(f"{e} with x={x!r}, y={y!r}, a={a}, b={b}, c={c}")
    src.label(e.split("(")[0])
    code = compile(e, "limit", "eval")
    env = dict(np=np, a=a, b=b, c=c, abs=abs, sum=sum)
    with np.errstate(all="ignore"):
        n = run(lambda: eval(code, dict(env, m=np, x=x.n, y=y.n)))
    r = run(lambda: eval(code, dict(env, m=rp, x=x.r, y=y.r)))
    if isinstance(r, Err):
        src.label("refused")
        if r.panic:
            raise Violation("panic", f"{e}: {r}")
        src.nontrivial = True
        return
    src.nontrivial = True
    if isinstance(n, Err):
        raise Violation("answers", f"{e}: got {show(r)}, NumPy raises {n}")
    loose(e, r, n, max(TOL.get(d, 1e-11), 1e-11), d)


# calls that are told in words what to do: w is a valid word, one for something else, or a damaged one
WORDS = {
    "m.pad(x, 1, mode=w)": ["constant", "edge", "reflect", "symmetric", "wrap", "linear_ramp", "maximum", "mean", "median", "minimum"],
    "m.convolve(x, y, w)": ["full", "same", "valid"], "m.convolve(x, y, mode=w)": ["full", "same", "valid"], "m.correlate(x, y, w)": ["valid"],
    "m.searchsorted(m.sort(x), y, w)": ["left", "right"], "m.searchsorted(m.sort(x), y, side=w)": ["left", "right"],
    "m.sort(x, kind=w)": ["quicksort", "stable", "mergesort", "heapsort"],
    "m.linalg.norm(x, w)": ["fro", "nuc"], "m.linalg.norm(x, ord=w)": ["fro", "nuc"], "m.linalg.qr(x, w)[1].shape": ["reduced", "complete", "r"],
    "m.fft.fft(x, norm=w)": ["ortho", "backward", "forward"], "m.fft.ifft(x, norm=w)": ["ortho", "backward", "forward"],
    "m.take(x, m.asarray(np.array([5, -1])), mode=w)": ["raise", "wrap", "clip"], "m.choose(m.asarray(np.array([3, 0, 1])), [y, y], mode=w)": ["raise", "wrap", "clip"],
    "m.ravel_multi_index((m.asarray(np.array([3])),), (2,), mode=w)": ["raise", "wrap", "clip"],
    "m.trim_zeros(x.ravel(), w)": ["f", "b", "fb"], "m.meshgrid(x, y, indexing=w)": ["xy", "ij"], "m.reshape(x, (-1,), order=w)": ["C", "F", "A"], "x.ravel(order=w)": ["C", "F", "A", "K"],
    "x.flatten(w)": ["C", "F", "A", "K"], "x.astype(w)": ["float64", "int32", "bool", "f4", "i8", "U3", "float16", "complex64", "<f8", ">f8", "d", "?", "int", "uint", "datetime64[s]", "object", "void", "S2"],
    "m.zeros((2,), dtype=w)": ["float64", "int32", "bool", "f4", "i8", "float16", "complex64", "<i4", "b", "u1", "longdouble"],
    "m.sum(x, dtype=w)": ["float64", "float32", "int64", "complex128"], "m.percentile(x, 50, method=w)": ["linear", "lower", "higher", "midpoint", "nearest", "hazen", "weibull"],
    "m.quantile(x, 0.3, method=w)": ["linear", "lower", "higher", "nearest"], "m.histogram_bin_edges(x, w)": ["auto", "fd", "sturges", "sqrt", "doane"],
    "m.nanpercentile(x, 50, method=w)": ["linear", "lower", "higher", "midpoint"], "m.unravel_index(3, (2, 3), order=w)": ["C", "F"], "m.packbits(m.asarray(np.array([1, 0, 1], dtype='uint8')), bitorder=w)": ["big", "little"],
}
WORDY = sorted(WORDS)


def damaged(src, w):
    for _ in range(src.weighted([(6, 0), (3, 1), (1, 2)])):
        k = src.int(0, len(w))
        w = src.choice([w[:k] + src.choice("aijkCFx ,.->[]0123") + w[k:], w[:k] + w[k + 1:], w[k:], w[:k], w.upper(), w + w, w.capitalize(), w + " "])
    return w


def subscripts(src):
    k = src.int(1, 3)
    t = ",".join("".join(src.choice("ijkl") for _ in range(src.int(0, 3))) for _ in range(k))
    if src.bool(0.7):
        t += "->" + "".join(src.choice("ijklm") for _ in range(src.int(0, 3)))
    return t, k


def words(src):
    """Calls with a word or a text of subscripts among the arguments: understood as NumPy understands it, or refused."""
    d = src.weighted([(5, "float64"), (2, "int64"), (1, "float32")])
    if src.bool(0.35):
        w, k = subscripts(src)
        ins = w.split("->")[0].split(",")
        dims = {c: src.int(1, 3) for c in "ijklm"}
        xs = [G.array(src, d, tuple(dims[c] for c in t) if src.bool(0.85) else G.shape(src, 0, 3, 3), "small") for t in ins]
        if src.bool(0.15):
            xs = xs[:-1] or xs
        if src.bool(0.15):
            xs.append(xs[0])
        w = damaged(src, w) if src.bool(0.4) else w
        e, call_ = "einsum", lambda m, v: m.einsum(w, *v)
        src.note(f"einsum({w!r}, {', '.join(map(repr, xs))})")
        n, r = (lambda: call_(np, [a.n for a in xs])), (lambda: call_(rp, [a.r for a in xs]))
    else:
        e = src.choice(WORDY)
        w = damaged(src, src.choice(WORDS[e]) if src.bool(0.9) else src.choice(WORDS[src.choice(WORDY)]))
        nd = 2 if "linalg" in e else 1 if re.search("convolve|correlate|search|trim|meshgrid|choose", e) else src.int(1, 3)
        shp = tuple(src.int(1, 4) for _ in range(nd))
        if nd == 2 and "linalg" in e and src.bool():
            shp = (shp[0], shp[0])
        x, y = G.array(src, d, shp, "small"), G.array(src, d, (3,), "small")
        if d == "float32" and "fft" in e:
            raise Discard("documented")
        src.note(f"{e} with w={w!r}, x={x!r}, y={y!r}")
        n, r = (lambda: eval(e, dict(m=np, np=np, x=x.n, y=y.n, w=w))), (lambda: eval(e, dict(m=rp, np=np, x=x.r, y=y.r, w=w)))
    src.sig = f"{e} {w}"
    src.label(e)
    src.nontrivial = True
    with np.errstate(all="ignore"):
        n = run(n)
    r = run(r)
    if isinstance(r, Err):
        src.label("refused")
        if r.panic:
            raise Violation("panic", f"{e}: {r}")
        return
    if isinstance(n, Err):
        raise Violation("answers", f"{e} with {w!r}: got {show(r)}, NumPy raises {n}")
    loose(e, r, n, max(TOL.get(d, 1e-11), 1e-11), d)


FACETS = {"dtype": Facet(dtype, 55000), "limits": Facet(limits, 55000), "words": Facet(words, 12000)}
