"""Oracles' comparison helpers."""
import numpy as np
import rumpy as rp
from .engine import Violation, Discard


def show(x):
    if isinstance(x, rp.ndarray):
        try:
            return f"rp.array({np.array2string(np.asarray(x), threshold=60, separator=',').replace(chr(10), '')}, {x.dtype}, {x.shape})"
        except BaseException as e:  # noqa
            return f"<rp.ndarray {type(e).__name__}>"
    if isinstance(x, np.ndarray):
        return f"np.array({np.array2string(x, threshold=60, separator=',').replace(chr(10), '')}, {x.dtype}, {x.shape})"
    if isinstance(x, (tuple, list)):
        return "(" + ", ".join(show(e) for e in x) + ")"
    return repr(x)[:300]


def to_np(x):
    if isinstance(x, rp.ndarray):
        return np.array(np.asarray(x))
    return np.asarray(x)


# default relative tolerances by result precision (value-approximate operations only)
TOL = {"float64": 1e-11, "float32": 2e-5, "float16": 1e-2, "complex128": 1e-11, "complex64": 4e-5}


EPS = {"float64": 2.3e-16, "float32": 1.2e-7, "float16": 1e-3, "complex128": 4.5e-16, "complex64": 2.4e-7}


def scale_atol(*arrs, power=1, extra=16.0, eps=None):
    """A rounding allowance for sums/products over arrs: eps * (number of terms) * (largest magnitude)**power."""
    e, m, n = 0.0, 1.0, 1
    for a in arrs:
        e = max(e, EPS.get(str(a.dtype), 2.3e-16))
        n = max(n, a.size)
        if a.size:
            with np.errstate(all="ignore"):
                v = np.abs(a.astype("complex128" if a.dtype.kind == "c" else "float64"))
            v = v[np.isfinite(v)]
            if v.size:
                m = max(m, float(v.max()))
    return extra * (eps or e) * n * m ** power


def prod_rtol(a):
    """Relative rounding allowance of a product over a (None where products are exact)."""
    n = str(a.dtype)
    return max(TOL[n], 8 * EPS[n] * a.size) if n in TOL else None


def eq_exact(a, b):
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        nan = np.isnan(a) & np.isnan(b) if a.dtype.kind in "f" and b.dtype.kind in "f" else False
        return (a == b) | nan
    if a.dtype.kind == "c" or b.dtype.kind == "c":
        if a.dtype.kind == "c" and b.dtype.kind == "c":
            return eq_exact(a.real, b.real) & eq_exact(a.imag, b.imag)
    if a.dtype.kind in "mM":
        return (a == b) | (np.isnat(a) & np.isnat(b))
    return a == b


def eq_close(a, b, rtol, atol):
    if a.dtype.kind == "c" or b.dtype.kind == "c":
        a = a.astype("complex128")
        b = b.astype("complex128")
        both = ~(np.isfinite(a) & np.isfinite(b))
        with np.errstate(all="ignore"):
            ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
        sp = eq_close(a.real, b.real, rtol, atol) & eq_close(a.imag, b.imag, rtol, atol)
        return np.where(both, sp, ok | sp)
    a = a.astype("float64") if a.dtype.kind != "f" or a.dtype.itemsize < 8 else a
    b = b.astype("float64") if b.dtype.kind != "f" or b.dtype.itemsize < 8 else b
    with np.errstate(all="ignore"):
        ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
        ok &= np.isfinite(a) & np.isfinite(b)
    return ok | (a == b) | (np.isnan(a) & np.isnan(b))


def compare(what, r, n, *, exact=False, rtol=None, atol=None, dtype="same", scalar_ok=True, signzero=False):
    """r: rumpy's answer, n: the reference answer.  Raises Violation on disagreement."""
    if isinstance(n, (tuple, list)):
        if not isinstance(r, (tuple, list)) or len(r) != len(n):
            raise Violation("arity", f"{what}: got {show(r)}, expected {show(n)}")
        for i, (a, b) in enumerate(zip(r, n)):
            compare(f"{what}[{i}]", a, b, exact=exact, rtol=rtol, atol=atol, dtype=dtype, scalar_ok=scalar_ok)
        return
    nn = np.asarray(n)
    is_arr = isinstance(r, rp.ndarray)
    if r is None:
        raise Violation("type", f"{what}: got {show(r)}, expected {show(n)}")
    rn = to_np(r)
    if rn.dtype.kind == "O":
        raise Violation("type", f"{what}: got {show(r)}, expected {show(n)}")
    if rn.shape != nn.shape:
        raise Violation("shape", f"{what}: got shape {rn.shape}, expected {nn.shape}; got {show(r)}, expected {show(n)}")
    if is_arr:
        if dtype == "same" and rn.dtype != nn.dtype:
            raise Violation("dtype", f"{what}: got dtype {rn.dtype}, expected {nn.dtype}")
        if dtype == "kind" and rn.dtype.kind != nn.dtype.kind:
            raise Violation("dtype", f"{what}: got dtype {rn.dtype}, expected {nn.dtype}")
        if tuple(r.shape) != rn.shape or r.size != rn.size or r.ndim != rn.ndim:
            raise Violation("meta", f"{what}: inconsistent shape metadata")
    if nn.size == 0:
        return
    if exact:
        ok = eq_exact(rn, nn)
    elif nn.dtype.kind in "fc" or rn.dtype.kind in "fc":
        if rtol is None:
            names = [str(d) for d in (rn.dtype, nn.dtype) if str(d) in TOL]
            if not is_arr and len(names) == 2:
                names = [str(nn.dtype)]
            rtol_ = max(TOL[x] for x in names)
        else:
            rtol_ = rtol
        ok = eq_close(rn, nn, rtol_, 0.0 if atol is None else atol)
    else:
        ok = eq_exact(rn, nn)
    if signzero and rn.dtype.kind == "f":
        ok = ok & ((rn != 0) | (np.signbit(rn) == np.signbit(nn)))
    if not np.all(ok):
        bad = np.argwhere(~np.atleast_1d(ok))
        i = tuple(bad[0]) if rn.ndim else ()
        raise Violation("value", f"{what}: {len(bad)} of {nn.size} elements differ, first at {list(map(int, i))}: "
                        f"got {rn[i]!r}, expected {nn[i]!r}; got {show(r)}, expected {show(n)}")


class Err:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"{type(self.e).__name__}({str(self.e)[:120]})"

    @property
    def panic(self):
        return type(self.e).__name__ == "PanicException"


def run(f, *a, **k):
    try:
        return f(*a, **k)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        e.__traceback__ = None
        return Err(e)


def differential(src, what, rf, nf, *, invalid="any", **cmpkw):
    """Run both sides; both must succeed and agree, or both must refuse.
    invalid: 'any'   - when the reference refuses, rumpy may do anything but panic/crash is not judged
             'reject'- when the reference refuses, rumpy must raise a (non-panic) exception
    Returns the rumpy result or None."""
    n = run(nf)
    if isinstance(n, Err):
        src.label("ref-refuses")
        if invalid == "reject":
            r = run(rf)
            if not isinstance(r, Err):
                raise Violation("accepts-invalid", f"{what}: reference raises {n}, rumpy returned {show(r)}")
            src.nontrivial = True
            return None
        raise Discard("ref-refuses")
    r = run(rf)
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{what}: rumpy raised {r}; expected {show(n)}")
    compare(what, r, n, **cmpkw)
    return r
