"""Calls over the whole public interface, as expressions in m (the module), x, y (arrays), k, j (small integers), ax (an axis).

A group is (spec, expressions); spec: dtypes of x, number of dimensions (lo, hi), pool of values,
how y is drawn, and whether equal contents in another layout may round differently (approx)."""
import numpy as np
from . import gen as G
from .engine import Discard

F = ["float64", "float32"]
R = ["float64", "int64", "float32", "int32", "int16", "uint8", "int8", "uint16", "uint32", "uint64"]
RB = R + ["bool"]
I = ["int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64"]
N = R + ["complex128", "complex64"]
NB = N + ["bool"]
C = ["complex128", "complex64"]
X = NB + ["float16"]

GROUPS = []


def group(name, dtypes, nd, mode, text, y=None, approx=False, shape=None, ydt=None, minsize=0):
    exprs = [e.strip() for e in text.strip().splitlines() if e.strip()]
    GROUPS.append(dict(name=name, dtypes=dtypes, nd=nd, mode=mode, y=y, approx=approx, shape=shape, exprs=exprs, ydt=ydt, minsize=minsize))


# -- element by element
group("unary", R + C, (0, 4), "small", "\n".join(f"m.{f}(x)" for f in (
    "absolute abs negative positive square conj conjugate real imag sign isfinite isinf isnan iscomplex isreal "
    "ndim shape size copy").split()))
group("unary-real", RB, (0, 4), "small", "\n".join(f"m.{f}(x)" for f in (
    "ceil floor trunc rint fix round fabs signbit isposinf isneginf logical_not nan_to_num").split()))
group("unary-float", F + ["float16"], (0, 4), "pos", "\n".join(f"m.{f}(x)" for f in (
    "sqrt cbrt exp exp2 expm1 log log2 log10 log1p sin cos tan arctan sinh cosh tanh arcsinh deg2rad rad2deg degrees "
    "radians reciprocal sinc spacing modf frexp i0 angle").split()), approx=True)
group("unary-complex", C, (0, 4), "pos", "\n".join(f"m.{f}(x)" for f in (
    "sqrt exp log log2 log10 log1p expm1 sin cos tan arctan sinh cosh tanh arcsinh reciprocal angle").split()), approx=True)
group("unary-unit", F, (0, 4), "unit", "\n".join(f"m.{f}(x)" for f in "arcsin arccos arctanh acos asin atan atanh".split()), approx=True)
group("unary-int", I + ["bool"], (0, 4), "any", "m.invert(x)\nm.bitwise_not(x)\n~x")
group("binary", R + C, (0, 3), "nz", "\n".join(f"m.{f}(x, y)" for f in (
    "add subtract multiply divide true_divide power equal not_equal").split()) +
    "\nx + y\nx - y\nx * y\nx / y\nx == y\nx != y\nx + k\nk - x\nx * k\nm.where(x == y, x, y)\nm.isclose(x, y)", y="bc", approx=True)
group("binary-real", RB, (0, 3), "pos", "\n".join(f"m.{f}(x, y)" for f in (
    "maximum minimum fmax fmin floor_divide mod remainder fmod divmod less less_equal greater greater_equal hypot arctan2 copysign "
    "heaviside logaddexp logaddexp2 nextafter float_power").split()) +
    "\nx < y\nx >= y\nx < k\nx // y\nx % y\nm.clip(x, 1, 3)\nm.clip(x, y, y + 2)\nx.clip(1, 3)\nm.round(x, 1)\nx.round(1)", y="bc", approx=True)
group("binary-int", I, (0, 3), "small", "\n".join(f"m.{f}(x, y)" for f in (
    "gcd lcm bitwise_and bitwise_or bitwise_xor").split()) + "\nx & y\nx | y\nx ^ y\nm.left_shift(x, y % 5)\nm.right_shift(x, y % 5)\nx << k\nx >> k", y="bc")
group("logical", RB, (0, 3), "tiny", "m.logical_and(x, y)\nm.logical_or(x, y)\nm.logical_xor(x, y)", y="bc")

# -- reductions and scans
group("reduce", R + C, (1, 4), "small", """
m.sum(x)\nm.sum(x, axis=ax)\nm.prod(x, axis=ax)\nm.mean(x)\nm.mean(x, axis=ax)\nx.sum()\nx.sum(axis=ax)\nx.prod()
x.mean(axis=ax)\nm.cumsum(x)\nm.cumsum(x, axis=ax)\nm.cumprod(x, axis=ax)\nx.cumsum(axis=ax)\nm.diff(x)\nm.diff(x, axis=ax)\nm.trapezoid(x)\nm.count_nonzero(x)
m.any(x)\nm.any(x, axis=ax)\nm.all(x)\nm.all(x, axis=ax)\nx.any(axis=ax)\nx.all()""", approx=True, minsize=1)
group("reduce-real", R, (1, 4), "small", """
m.max(x)\nm.max(x, axis=ax)\nm.min(x, axis=ax)\nx.max()\nx.min(axis=ax)\nm.amax(x, axis=ax)\nm.argmax(x)\nm.argmax(x, axis=ax)\nm.argmin(x, axis=ax)\nx.argmax()\nx.argmin(axis=ax)
m.ptp(x)\nm.ptp(x, axis=ax)\nm.var(x)\nm.var(x, axis=ax)\nm.std(x)\nm.std(x, axis=ax)\nx.var()\nx.std(axis=ax)\nm.median(x)\nm.median(x, axis=ax)\nm.percentile(x, 30)\nm.percentile(x, 30, axis=ax)
m.quantile(x, 0.4)\nm.quantile(x, [0.1, 0.9])\nm.average(x)\nm.average(x, axis=ax)\nx.skew()\nx.kurtosis()\nx.moment(2)\nm.gradient(x.ravel())""", approx=True, minsize=2)
group("reduce-nan", F, (1, 3), "nanmod", "\n".join(f"m.{f}(x)\nm.{f}(x, axis=ax)" for f in (
    "nansum nanprod nanmax nanmin nanmean nanvar nanstd nanmedian nanargmax nanargmin nancumsum nancumprod").split()) +
    "\nm.nanpercentile(x, 40)\nm.nanquantile(x, 0.4)", approx=True, minsize=2)

# -- sorting and searching
group("sort", R, (1, 3), "small", """
m.sort(x)\nm.sort(x, axis=ax)\nm.argsort(x)\nm.argsort(x, axis=ax)\nx.argsort()\nm.unique(x)\nm.unique_values(x)\nm.unique_counts(x)
m.unique_inverse(x)\nm.flatnonzero(x)\nm.nonzero(x)\nx.nonzero()\nm.argwhere(x)\nm.trim_zeros(x.ravel())\nm.bincount(abs(x).astype('int64').ravel() % 40)\nm.histogram(x, 4)\nm.histogram_bin_edges(x, 4)
m.digitize(x.ravel(), m.array([0.0, 2.0, 5.0]))""", minsize=1)
group("sort-part", R, (1, 1), "small", "m.partition(x, 0)[0]\nm.partition(x, x.size - 1)[-1]\nm.argpartition(x, 0).shape", minsize=1)
group("sets", ["float64", "int64", "int32", "uint8", "float32"], (1, 2), "small", """
m.union1d(x, y)\nm.intersect1d(x, y)\nm.setdiff1d(x, y)\nm.setxor1d(x, y)\nm.isin(x, y)\nm.in1d(x.ravel(), y)\nm.searchsorted(m.sort(y.ravel()), x.ravel())
m.searchsorted(m.sort(y.ravel()), x.ravel(), side='right')\nm.array_equal(x, y)\nm.allclose(x, y)""", y="1d", minsize=1)

# -- shapes
group("shape", X, (1, 4), "any", """
m.reshape(x, (-1,))\nx.reshape(-1)\nx.reshape(x.shape[::-1])\nm.ravel(x)\nx.ravel()\nx.flatten()\nm.transpose(x)\nx.T\nx.transpose()\nm.permute_dims(x, list(range(x.ndim))[::-1])\nm.expand_dims(x, 0)\nm.expand_dims(x, -1)
m.squeeze(x)\nx.squeeze()\nm.atleast_1d(x)\nm.atleast_2d(x)\nm.atleast_3d(x)\nm.flip(x)\nm.flip(x, ax)\nm.roll(x, k)\nm.roll(x, k, axis=ax)\nm.repeat(x, 2)\nm.repeat(x, 2, axis=ax)\nx.repeat(3)\nm.tile(x, 2)
m.tile(x, (2, 1))\nm.concatenate([x, x])\nm.concatenate([x, x], axis=ax)\nm.concat([x, x])\nm.stack([x, x])\nm.stack([x, x], axis=ax)\nm.vstack([x, x])\nm.hstack([x, x])\nm.dstack([x, x])\nm.append(x, x)
m.append(x, x, axis=ax)\nm.array_split(x, 2)\nm.array_split(x, 3, axis=ax)\nm.split(x, 1)\nm.swapaxes(x, 0, ax)\nx.swapaxes(0, -1)\nm.moveaxis(x, 0, ax)\nm.rollaxis(x, ax)\nm.resize(x, (3, 4))\nm.delete(x, 0, axis=ax)
m.delete(x, 0)\nm.broadcast_to(x, (2,) + x.shape)\nm.unstack(x)\nm.copy(x)\nx.copy()\nm.array(x)\nm.asarray(x)\nm.ascontiguousarray(x)\nm.asfortranarray(x)\nm.require(x)\nm.insert(x, 0, 1)\nm.insert(x, 1, 0, axis=ax)
m.zeros_like(x)\nm.ones_like(x)\nm.full_like(x, k)\nx.tolist()\nx.tobytes()\nm.unwrap(x.real.ravel())""", minsize=1)
group("shape-pad", R, (1, 3), "small", "m.pad(x, 1)\nm.pad(x, (1, 2), mode='edge')\nm.ediff1d(x)\nm.pad(x, 2, mode='constant', constant_values=k)", minsize=1)
group("shape2", X, (2, 2), "any", """
m.fliplr(x)\nm.flipud(x)\nm.rot90(x)\nm.rot90(x, k)\nm.tril(x)\nm.triu(x)\nm.tril(x, -1)\nm.triu(x, k)\nm.diag(x)\nm.diagonal(x)\nx.diagonal()\nm.matrix_transpose(x)\nm.column_stack([x, x])
m.row_stack([x, x])\nm.hsplit(x, 1)\nm.vsplit(x, 1)\nm.dsplit(m.atleast_3d(x), 1)\nm.block([[x, x], [x, x]])""", minsize=1)
group("shape1", X, (1, 1), "any", "m.diag(x)\nm.diag(m.flip(x))\nm.diagflat(x)\nm.column_stack([x, x])\nm.meshgrid(x, x)\nm.ix_(m.arange(2), m.arange(3))", minsize=1)
group("trace", N, (2, 2), "small", "m.trace(x)\nx.trace()", approx=True, minsize=1)

# -- indexing and selection
group("index", X, (1, 4), "any", """
x[0]\nx[-1]\nx[1:]\nx[::2]\nx[::-1]\nx[..., 0]\nx[None]\nx[..., None]\nx[:, None]\nx[m.array([0, -1])]\nm.take(x, m.array([0, 0, 0]), axis=ax)\nm.take(x, m.array([0, 0]))\nx.take(m.array([0]))\nx[x == x]\nm.compress([True], x, axis=ax)
m.extract(x.ravel() == x.ravel(), x.ravel())\nm.take_along_axis(x, m.zeros(x.shape, dtype='int64'), axis=ax)\nm.select([x == x], [x], 0)\nlist(x.flat)\n[v for v in x][0]\nx.real\nx.imag""", minsize=1)
group("choose", ["int64"], (1, 2), "nonneg", "m.choose(x % 2, [x, x + 1])\nm.unravel_index(x.ravel() % 12, (3, 4))\nm.packbits((x % 2).astype('uint8'))\nm.unpackbits((x % 256).astype('uint8'))\nm.ravel_multi_index([x.ravel() % 3, x.ravel() % 4], (3, 4))", minsize=1)
group("astype", X, (0, 4), "small", "x.astype('float64')\nx.astype('complex128')\nx.astype('bool')\nm.result_type(x, x)\nm.asarray(x, dtype='complex64')\nm.array(x, dtype='complex128')\nm.iscomplexobj(x)\nm.isrealobj(x)\nm.real_if_close(x)")

# -- products
group("product", R + C, (2, 2), "small", """
m.dot(x, y)\nm.matmul(x, y)\nx @ y\nx.dot(y)\nm.inner(x, y.T)\nm.tensordot(x, y, 1)\nm.einsum('ij,jk->ik', x, y)\nm.einsum('ij,jk->ki', x, y)\nm.einsum('ij->j', x)\nm.einsum('ij->ji', x)\nm.linalg.multi_dot([x, y])
m.outer(x, y)\nm.kron(x, y)""", y="mat", approx=True, minsize=1)
group("vdot", R + C, (1, 2), "small", "m.vdot(x, y)\nm.outer(x, y)\nm.dot(x.ravel(), y.ravel())\nm.inner(x.ravel(), y.ravel())\nm.tensordot(x, y, x.ndim)", y="same", approx=True, minsize=1)
group("cross", ["float64", "int64", "float32"], (1, 1), "small", "m.cross(x, y)", y="same", approx=True, shape=lambda src: (3,))

# -- linear algebra, on well-conditioned matrices
group("linalg", F, (2, 2), "unit", """
m.linalg.det(x + e)\nm.linalg.inv(x + e)\nm.linalg.solve(x + e, y)\nm.linalg.slogdet(x + e)\nm.linalg.matrix_power(x, 3)\nm.linalg.norm(x)\nm.linalg.cond(x + e)\nm.linalg.pinv(x + e)\nm.linalg.matrix_rank(x + e)
m.linalg.svdvals(x + e)\nm.det(x + e)\nm.inv(x + e)\nm.solve(x + e, y)\nm.linalg.lstsq(x + e, y)[0]\nm.linalg.norm(x, 'fro')""", y="same", approx=True, shape=lambda src: (src.int(1, 4),) * 2)
group("linalg-sym", F, (2, 2), "unit", "m.linalg.eigvalsh(x @ x.T)\nm.linalg.eigh(x @ x.T)[0]\nm.linalg.cholesky(x @ x.T + e)\nm.linalg.norm(x, 'nuc')", approx=True,
      shape=lambda src: (src.int(1, 4),) * 2)
group("norm", F + C, (1, 2), "unit", "m.linalg.norm(x.ravel())\nm.linalg.vector_norm(x)\nm.norm(x)", approx=True, minsize=1)

# -- transforms, polynomials, statistics
group("fft", F + C + ["int64"], (1, 1), "small", "m.fft.fft(x)\nm.fft.ifft(x)\nm.fft.hfft(x)\nm.fft.irfft(x)\nm.fft.fftshift(x)\nm.fft.ifftshift(x)", approx=True, minsize=2)
group("fftn", F + C + ["int64"], (1, 3), "small", "m.fft.fftn(x)\nm.fft.ifftn(x)\nm.fft.fftn(x, axes=[ax])", approx=True, minsize=2)
group("rfft", F + ["int64"], (1, 1), "small", "m.fft.rfft(x)\nm.fft.ihfft(x)", approx=True, minsize=2)
group("rfftn", F + ["int64"], (1, 3), "small", "m.fft.rfftn(x)", approx=True, minsize=2)
group("fft2", F + C, (2, 2), "small", "m.fft.fft2(x)\nm.fft.ifft2(x)\nm.fft.fftshift(x)\nm.fft.ifftshift(x)", approx=True, minsize=2)
group("poly", F, (1, 1), "small", "m.polyval(x, y)\nm.polyder(x)\nm.polyint(x)\nm.convolve(x, y)\nm.correlate(x, y)\nm.interp(y, m.arange(x.size), x)\nm.convolve(x, y, 'same')", y="1d", approx=True, minsize=2)
group("cov", F, (2, 2), "mod", "m.cov(x)\nm.histogram2d(x.ravel(), x.ravel(), 3)", approx=True, shape=lambda src: (src.int(2, 4), src.int(3, 6)))

# -- text
TXT = ["U5", "U3", "U12"]
group("char", TXT, (1, 3), "text", "\n".join(f"m.char.{f}(x)" for f in (
    "upper lower title capitalize swapcase strip lstrip rstrip isalpha isdigit isspace isupper islower istitle isalnum str_len").split()) +
    "\nm.char.center(x, 9)\nm.char.ljust(x, 7)\nm.char.rjust(x, 8)\nm.char.zfill(x, 6)\nm.char.multiply(x, 2)\nm.char.expandtabs(x)", minsize=1)
group("char2", TXT, (1, 2), "text", "\n".join(f"m.char.{f}(x, y)" for f in "add equal not_equal less less_equal greater greater_equal".split()), y="same", minsize=1)
group("char-shape", TXT, (1, 3), "text", "x.T\nx[::-1]\nm.sort(x.ravel())\nm.ravel(x)\nm.flip(x)\nm.concatenate([x, x])\nm.unique(x)\nx == x\nx.copy()\nm.reshape(x, (-1,))\nx.tolist()", minsize=1)

# -- dates
group("time", ["M8[s]", "M8[D]", "m8[s]", "m8[ms]"], (1, 3), "time", """
x - x\nx.T\nx[::-1]\nm.sort(x)\nm.isnat(x)\nx == x\nm.ravel(x)\nm.concatenate([x, x])\nm.diff(x)\nm.max(x)\nm.flip(x)\nx.copy()\nm.reshape(x, (-1,))\nm.unique(x)\nx <= x\nm.argsort(x)""", minsize=1)

EXPRS = [(g, e) for g in GROUPS for e in g["exprs"]]


def text_pool(dtype):
    vs = ["", "a", "Ab", "1", " x ", "aB c", "12a", "ABC", "-3", "zz", "b\t"]
    return [v.encode() for v in vs] if dtype[0] == "S" else vs + ["é", "日本"]


def vals(src, dtype, shp, mode):
    n = int(np.prod(shp))
    if mode == "text":
        p = text_pool(dtype)
    elif mode == "time":
        p = [np.datetime64(v, "D") for v in (0, 1, -1, 5000, 11016, 20000, -700, "NaT")] if dtype[0] == "M" else [np.timedelta64(v, "ms") for v in (0, 1000, -5000, 7, 99000, "NaT")]
        p = list(np.array(p).astype(dtype))
    else:
        return None
    return np.array([p[src.below(len(p))] for _ in range(n)], dtype=dtype).reshape(shp)


def draw(src, g, maxsize=260, layout=True, shp=None, small=False):
    """x, y (or None) and the scalar variables of a call of group g."""
    d = src.choice(g["dtypes"])
    if shp is None:
        shp = g["shape"](src) if g["shape"] else G.shape(src, g["nd"][0], g["nd"][1], maxdim=4 if small else 5, zero=0.03 if not g["minsize"] else 0, maxsize=60 if small else maxsize)
    shp = tuple(shp)
    if g["minsize"] and int(np.prod(shp)) < g["minsize"]:
        raise Discard("small")
    x = G.array(src, d, shp, g["mode"] if g["mode"] not in ("text", "time") else "any", layout=layout, vals=vals(src, d, shp, g["mode"]))
    y = None
    yk = g["y"]
    if yk:
        if yk == "same" or (yk == "bc" and src.bool(0.5)):
            ys = shp
        elif yk == "bc":
            ys = tuple(1 if src.bool(0.4) else k for k in shp)[src.below(len(shp) + 1):]
        elif yk == "mat":
            ys = (shp[1], src.int(1, 5))
        else:
            ys = (src.int(1, 9),)
        y = G.array(src, d, ys, g["mode"] if g["mode"] not in ("text", "time") else "any", layout=layout, vals=vals(src, d, ys, g["mode"]))
    nd = len(shp)
    v = {"k": src.int(1, 3), "ax": src.below(max(nd, 1)), "j": src.int(0, 2)}
    if g["name"].startswith("linalg"):
        v["eye"] = True
    return d, x, y, v


_code = {}


def call(expr, m, x, y, v):
    c = _code.get(expr)
    if c is None:
        c = _code[expr] = compile(expr, "<call>", "eval")
    env = {"m": m, "x": x, "y": y, "k": v["k"], "ax": v["ax"], "j": v["j"]}
    if v.get("eye"):  # makes a matrix of entries in [-1, 1] well conditioned
        env["e"] = m.eye(x.shape[0]) * 6
    return eval(c, env)


def deep(r, f):
    """Apply f to every array in a result."""
    if isinstance(r, (tuple, list)):
        return [deep(v, f) for v in r]
    return f(r)
