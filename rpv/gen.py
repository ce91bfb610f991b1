"""Generators: dtypes, shapes, values, memory layouts.  All choices go through Src."""
import random
import numpy as np
import rumpy as rp
from .engine import Discard

FLOATS = ["float64", "float32", "float16"]
F3264 = ["float64", "float32"]
SINTS = ["int64", "int32", "int16", "int8"]
UINTS = ["uint8", "uint16", "uint32", "uint64"]
INTS = SINTS + UINTS
COMPLEX = ["complex128", "complex64"]
BOOL = ["bool"]
REALS = FLOATS + INTS
REALB = REALS + BOOL
NUMERIC = FLOATS + INTS + COMPLEX
ALL = NUMERIC + BOOL

_pools = {}


def pool(dtype, mode):
    key = (dtype, mode)
    p = _pools.get(key)
    if p is None:
        p = _pools[key] = _make_pool(dtype, mode)
    return p


def _make_pool(dtype, mode):
    if dtype[0] in "US":
        return [x if dtype[0] == "U" else x.encode() for x in ("", "junk", "\x7f~", "z" * 12)]
    if dtype[0] in "Mm":
        return list(np.array([0, 77, -123456, 5], dtype="i8").astype(dtype))
    if mode == "nz":  # small and non-zero
        return [v for v in pool(dtype, "small") if v != 0]
    return _make_pool1(dtype, mode)


def _make_pool1(dtype, mode):
    """A fixed list of values of this dtype; index 0 is the simplest."""
    rnd = random.Random(f"pool-{dtype}-{mode}")
    dt = np.dtype(dtype)
    k = dt.kind
    if k == "b":
        return [False, True]
    if k in "iu":
        info = np.iinfo(dt)
        lo, hi = int(info.min), int(info.max)
        small = [0, 1, 2, 3, -1, 5, 7, -2, -3, 4, 10, 6, -7, 9, 8, 12, 100, -100, 50, 64, 33]
        if mode in ("small", "finite_small"):
            vs = [0, 1, 2, 3, -1, 5, 7, -2, -3, 4, 6, -4, 9, -5, 8, 10]
        elif mode == "tiny":
            vs = [0, 1, 2, -1, 3, -2]
        elif mode == "pos":
            vs = [1, 2, 3, 5, 7, 4, 10, 6, 9, 8, 12, 100, 50, 33]
        elif mode == "nonneg":
            vs = [0, 1, 2, 3, 5, 7, 4, 10, 6, 9, 8, 12, 100, 50, 33]
        elif mode == "f53":  # any value a float64 represents exactly
            lim = 1 << 53
            vs = small + [lo, hi, lo + 1, hi - 1, lo // 2, hi // 2]
            vs += [rnd.randint(max(lo, -lim), min(hi, lim)) for _ in range(40)]
            vs += [rnd.randint(max(lo, -1000), min(hi, 1000)) for _ in range(60)]
            vs = [v for v in vs if abs(v) <= lim]
        elif mode == "mid":  # moderately sized, sums of a few hundred stay exact in f64
            m = min(hi, 1 << 40)
            vs = small + [rnd.randint(max(lo, -m), m) for _ in range(40)]
            vs += [rnd.randint(max(lo, -1000), min(hi, 1000)) for _ in range(60)]
            vs += [v for v in (lo, hi) if abs(v) <= m]
        else:  # any
            vs = small + [lo, hi, lo + 1, hi - 1, lo // 2, hi // 2, lo // 2 - 1, hi // 2 + 1]
            vs += [rnd.randint(lo, hi) for _ in range(60)]
            vs += [rnd.randint(max(lo, -1000), min(hi, 1000)) for _ in range(40)]
        return [v for v in vs if lo <= v <= hi]
    if k == "f":
        fi = np.finfo(dt)
        simple = [0.0, 1.0, 2.0, -1.0, 0.5, 3.0, -2.0, 1.5, -0.5, 0.25, 10.0, -3.0, 4.0, 7.0, -7.5, 2.75, 100.0]
        specials = [float("nan"), float("inf"), float("-inf"), -0.0]
        rs = [rnd.uniform(-10, 10) for _ in range(40)] + [rnd.gauss(0, 1) for _ in range(20)]
        big = [float(fi.max), -float(fi.max), float(fi.tiny), -float(fi.tiny), float(fi.eps), 1 + float(fi.eps),
               float(fi.smallest_subnormal), 1e4, -1e4]
        big += [rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-4, 4) for _ in range(30)]
        if dtype != "float16":
            big += [rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-30, 30) for _ in range(20)]
        if mode == "any":
            vs = simple + specials + rs + big
        elif mode == "anyquarter":  # specials frequent
            vs = simple + specials * 6 + rs
        elif mode == "finite":
            vs = simple + [-0.0] + rs + big
        elif mode == "mod":  # moderate finite
            vs = simple + [-0.0] + rs + [rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-3, 3) for _ in range(20)]
        elif mode == "modnan":
            vs = simple + [-0.0] + rs + [float("nan")] * 12 + [float("inf"), float("-inf")]
        elif mode == "nanmod":
            vs = simple + rs + [float("nan")] * 14
        elif mode == "nantiny":
            vs = [1.0, 2.0, -1.0, 0.5, 1.5, float("nan"), -0.75, float("nan"), 1.0, -2.0, 0.9, float("nan")]
        elif mode in ("mid", "f53"):
            vs = simple + rs
        elif mode in ("small", "finite_small"):
            vs = simple[:16]
        elif mode == "tiny":
            vs = [0.0, 1.0, 2.0, -1.0, 0.5, 3.0]
        elif mode == "pos":
            vs = [1.0, 2.0, 0.5, 3.0, 1.5, 0.25, 10.0, 4.0, 7.0, 100.0] + [abs(x) + 0.01 for x in rs]
        elif mode == "nonneg":
            vs = [0.0, 1.0, 2.0, 0.5, 3.0, 1.5, 0.25, 10.0, 4.0, 7.0, 100.0] + [abs(x) for x in rs]
        elif mode == "unit":
            vs = [0.0, 0.5, -0.5, 1.0, -1.0, 0.25, -0.75, 0.125] + [rnd.uniform(-1, 1) for _ in range(40)]
        elif mode == "halfless":  # no exact .5 ties at any small decimal count
            vs = [float(x) for x in (0, 1, 2, -1, 3, -4, 10, -17)] + \
                 [rnd.uniform(-10, 10) for _ in range(50)] + [1234.56789, -0.001234, 0.0499, 99.97]
        else:
            raise KeyError(mode)
        return [float(np.asarray(v).astype(dt)) for v in vs]
    if k == "c":
        fd = "float64" if dtype == "complex128" else "float32"
        rmode = {"any": "any", "finite": "mod"}.get(mode, mode)
        a = pool(fd, rmode)
        vs = [complex(x, 0.0) for x in a[:6]]
        vs += [complex(rnd.choice(a), rnd.choice(a)) for _ in range(80)]
        if mode not in ("pos", "nonneg"):
            vs += [complex(0.0, x) for x in a[:4]]
        return vs
    raise KeyError(dtype)


def values(src, dtype, n, mode):
    p = pool(dtype, mode)
    b = src.below
    m = len(p)
    if n <= 400:
        vs = [p[b(m)] for _ in range(n)]
        return np.array(vs, dtype=dtype) if n else np.zeros(0, dtype=dtype)
    # long arrays: draw a short period and a stride (still a pure function of the choices)
    per = [p[b(m)] for _ in range(61)]
    return np.resize(np.array(per, dtype=dtype), n)


def shape(src, lo=0, hi=4, maxdim=5, zero=0.06, maxsize=260):
    nd = src.weighted([(w, k) for w, k in ((30, 1), (30, 2), (18, 3), (6, 0), (6, 4)) if lo <= k <= hi] or [(1, lo)])
    if nd == 1 and src.bool(0.3):
        return (src.choice([6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 33, 40, 64, 65, 100, 130, 200, 257]),)
    out = []
    size = 1
    for _ in range(nd):
        if zero and src.bool(zero):
            d = 0
        else:
            d = src.weighted([(6, 2), (6, 3), (3, 1), (4, 4), (2, 5), (1, 6), (1, 8), (1, 9)])
            if d > maxdim:
                d = maxdim
        if size * max(d, 1) > maxsize:
            d = 1
        size *= max(d, 1)
        out.append(d)
    return tuple(out)


class Arr:
    """A rumpy array and the numpy array with the same contents."""
    __slots__ = ("r", "n", "lay", "rbase", "nbase")

    def __init__(self, r, n, lay, rbase=None, nbase=None):
        self.r, self.n, self.lay, self.rbase, self.nbase = r, n, lay, rbase, nbase

    def __repr__(self):
        s = np.array2string(self.n, threshold=60, separator=",", floatmode="unique").replace("\n", "")
        return f"A({s}, {self.n.dtype}, shape={self.n.shape}, {self.lay})"


def same_bits(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind in "fc":
        return bool(np.array_equal(np.ascontiguousarray(a).view(np.uint8), np.ascontiguousarray(b).view(np.uint8))) \
            or bool(((a == b) | ((a != a) & (b != b))).all())
    if a.dtype.kind in "mM":
        a, b = a.astype("i8"), b.astype("i8")
    return bool((a == b).all())


def imported(n):
    """numpy -> rumpy (contiguous)."""
    r = rp.asarray(n)
    return r


def check_layout(r, n):
    m = np.asarray(r)
    if m.shape != n.shape or m.dtype != n.dtype or not same_bits(m, n):
        raise Discard("layout")


def array(src, dtype, shp, mode="any", layout=True, bcast=False, vals=None):
    """An array with drawn contents and layout; a layout rumpy cannot build (a matter for the
    indexing property) discards the case."""
    try:
        return _array(src, dtype, shp, mode, layout, bcast, vals)
    except (Discard, KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except KeyError:
        raise
    except BaseException:
        raise Discard("layout") from None


def _array(src, dtype, shp, mode="any", layout=True, bcast=False, vals=None):
    """An array of the given dtype/shape with drawn contents and a drawn memory layout."""
    shp = tuple(shp)
    nd = len(shp)
    size = 1
    for d in shp:
        size *= d
    kind = "C"
    if layout and nd >= 1 and size > 0:
        kind = src.weighted([(40, "C"), (12, "F"), (14, "step"), (14, "perm"), (14, "mix"), (6 if bcast else 0, "bcast")])
    if kind in ("F", "perm") and nd < 2:
        kind = "step"
    if kind == "bcast":
        keep = [src.bool(0.5) for _ in shp]
        small = tuple(d if k else 1 for d, k in zip(shp, keep))
        sz = int(np.prod(small))
        nb = values(src, dtype, sz, mode).reshape(small)
        rb = imported(nb)
        n = np.broadcast_to(nb, shp)
        r = rp.broadcast_to(rb, shp)
        check_layout(r, n)
        return Arr(r, n, f"broadcast_to({small})", rb, nb)
    v = vals if vals is not None else values(src, dtype, size, mode).reshape(shp)
    if kind == "C":
        n = np.ascontiguousarray(v).reshape(shp)
        r = imported(n)
        return Arr(r, n, "C", r, n)
    # composite: base (axes permuted, padded), then transpose, then slice
    if kind == "F":
        axes = tuple(range(nd))[::-1]
    elif kind == "step" or nd < 2:
        axes = tuple(range(nd))
    else:
        axes = tuple(src.perm(nd))
    sl = []
    big = []
    for d in shp:
        if kind in ("F", "perm"):
            step, lead, tail = 1, 0, 0
        else:
            step = src.weighted([(4, 1), (4, 2), (3, -1), (2, -2), (1, 3)])
            lead = src.weighted([(4, 0), (2, 1), (1, 2)])
            tail = src.weighted([(4, 0), (2, 1), (1, 2)])
        span = (d - 1) * abs(step) + 1
        m = lead + span + tail
        if step > 0:
            stop = lead + span
            s = slice(lead, stop if stop < m or src.bool(0.3) else None, step)
        else:
            start = lead + span - 1
            stop = lead - 1
            s = slice(start, stop if stop >= 0 else None, step)
        sl.append(s)
        big.append(m)
    # view = base.transpose(axes)[sl]  -> base.shape[axes[i]] = big[i]
    bshape = [0] * nd
    for i, a in enumerate(axes):
        bshape[a] = big[i]
    poison = pool(dtype, mode)
    bsz = int(np.prod(bshape))
    nb = np.resize(np.array(poison[::-1], dtype=dtype), bsz).reshape(bshape)
    nv = nb.transpose(axes)[tuple(sl)] if nd else nb
    nv[...] = v
    rb = imported(nb)
    rv = rb
    if axes != tuple(range(nd)):
        if axes == tuple(range(nd))[::-1] and src.bool(0.5):
            rv = rv.T
        else:
            rv = rp.transpose(rv, list(axes))
    if kind not in ("F", "perm"):
        rv = rv[tuple(sl)] if nd > 1 or src.bool(0.5) else rv[sl[0]]
    check_layout(rv, nv)
    return Arr(rv, nv, f"{kind}{axes if axes != tuple(range(nd)) else ''}{[(s.start, s.stop, s.step) for s in sl] if kind not in ('F', 'perm') else ''}", rb, nb)


def bcast_pair(src, hi=3, maxdim=4, zero=0.04):
    """Two broadcast-compatible shapes."""
    out = shape(src, 0, hi, maxdim, zero)
    k = src.weighted([(40, "same"), (60, "var")])
    if k == "same":
        return out, out

    def sub():
        s = tuple(1 if src.bool(0.25) else d for d in out)
        cut = src.weighted([(6, 0), (2, 1), (1, 2), (1, 3)])
        return s[min(cut, len(s)):]
    a, b = sub(), sub()
    if src.bool(0.5):
        a = out
    return a, b
