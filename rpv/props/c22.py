"""C22: dates, durations and business days."""
import datetime as pydt
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show

RULE = ("an operation on datetime64 or timedelta64 arrays of drawn units, values (before and after 1970, period ends, NaT), shapes and layouts; "
        "non-trivial = at least one element that is not NaT")
ASSUMPTIONS = ["NumPy's datetime64 is the reference wherever its 64-bit conversion does not overflow; results whose conversion would overflow are not judged",
               "a malformed date may give NaT (documented) or raise; NumPy raises",
               "full reductions return the underlying integer as a Python float (the test suite fixes that), so they are judged by axis reductions and on values a float holds"]
U = ["Y", "M", "W", "D", "h", "m", "s", "ms", "us", "ns"]
FIX = {"W": 7 * 86400 * 10**9, "D": 86400 * 10**9, "h": 3600 * 10**9, "m": 60 * 10**9, "s": 10**9, "ms": 10**6, "us": 1000, "ns": 1}
LEN = dict(FIX, Y=146097 * 86400 * 10**9 // 400, M=146097 * 86400 * 10**9 // 4800)
NAT = -2**63
SPAN = 100 * 366 * 86400 * 10**9    # every value within a century of 1970, so no unit overflows


def ticks(src, unit, small=False):
    """One value in the unit, close to 1970 or near a boundary of the calendar."""
    lim = SPAN // LEN[unit]
    k = src.weighted([(3, 0), (4, 1), (3, 2), (3, 3)])
    if small or k == 0:
        return src.int(-9, 9)
    if k == 1:
        return src.int(-min(lim, 10**4), min(lim, 10**4))
    if k == 2:
        return src.int(-lim, lim)
    # the first or last tick of some day
    day = src.int(-36000, 36000) if unit in FIX else 0
    per = 86400 * 10**9 // FIX[unit] if unit in FIX and FIX[unit] <= 86400 * 10**9 else 1
    v = day * per + src.choice([0, -1, 1])
    return max(-lim, min(lim, v))


def times(src, kind, unit=None, shp=None, nat=0.12, small=False, layout=True, nz=False):
    unit = unit or src.choice(U)
    shp = G.shape(src, 0 if src.bool(0.1) else 1, 3, maxdim=4, maxsize=24, zero=0.03) if shp is None else shp
    if len(shp) == 1 and shp[0] > 24:
        shp = (24,)
    n = int(np.prod(shp, dtype=int))
    v = [NAT if src.bool(nat) else ticks(src, unit, small) for _ in range(n)]
    if nz:
        v = [x or 1 for x in v]
    src.nontrivial = any(x != NAT for x in v)
    a = np.array(v, dtype="i8").reshape(shp).view(f"{kind}8[{unit}]")
    return arr(src, a, layout)


def arr(src, a, layout=True):
    """The array in a drawn layout."""
    name = str(a.dtype)
    flat = np.ascontiguousarray(a).reshape(-1).view("i8").reshape(a.shape)
    lay = src.weighted([(4, "C"), (1, "F"), (2, "step"), (2, "mix")]) if layout and a.ndim and a.size else "C"
    r = relay(flat, lay, str(a.dtype))
    return G.Arr(r, a.copy(), lay, r, a.copy())


def relay(base, lay, name):
    """rumpy dates with the integer values of base in a layout."""
    def made(x):
        y = np.ascontiguousarray(x)
        return rp.asarray(y.reshape(-1).view(name).reshape(x.shape))
    if lay == "F":
        return made(base.T).T
    if lay == "step":   # every second element of a longer array, in reverse
        big = np.full(base.shape[:-1] + (2 * base.shape[-1],), 12345, "i8")
        big[..., ::2] = base[..., ::-1]
        return made(big)[..., ::2][..., ::-1]
    if lay == "mix":    # transposed, under a stepped first axis
        t = base.T
        big = np.full((t.shape[0] * 2,) + t.shape[1:], -777, "i8")
        big[::2] = t
        return made(big)[::2].T
    return made(base)


def same(what, r, n, src=None):
    r = run(lambda: r()) if callable(r) else r
    n = run(lambda: n()) if callable(n) else n
    if isinstance(n, Err):
        if not isinstance(r, Err):
            raise Violation("accepts-invalid", f"{what}: {n} expected, got {show(r)}")
        if r.panic:
            raise Violation("panic", f"{what}: {r}")
        return
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{what}: {r}; expected {show(n)}")
    g, n = np.asarray(r), np.asarray(n)
    if g.dtype != n.dtype or g.shape != n.shape:
        raise Violation("dtype" if g.shape == n.shape else "shape", f"{what}: got {g.dtype}{g.shape}, expected {n.dtype}{n.shape}")
    if n.dtype.kind in "mM":
        a, b = g.reshape(-1).view("i8"), n.reshape(-1).view("i8")
    else:
        a, b = g.reshape(-1), n.reshape(-1)
    ok = (a == b) | ((a != a) & (b != b)) if n.dtype.kind == "f" else a == b
    if n.dtype.kind == "f" and not bool(np.all(ok)):
        ok = np.isclose(a, b, rtol=1e-15, atol=0, equal_nan=True)
    if not bool(np.all(ok)):
        i = int(np.flatnonzero(~ok)[0])
        raise Violation("value", f"{what}: element {i}: got {g.reshape(-1)[i]!r}, expected {n.reshape(-1)[i]!r}; got {show(r)}, expected {show(n)}")


def unchanged(*arrs):
    for A in arrs:
        if not np.array_equal(np.asarray(A.r).reshape(-1).view("i8"), A.n.reshape(-1).view("i8")):
            raise Violation("operand", f"the operand {A!r} was modified: {show(A.r)}")


def civil(days):
    """Proleptic Gregorian date of a day number, in Python integers."""
    d = pydt.date(1970, 1, 1).toordinal() + days
    return pydt.date.fromordinal(d) if 1 <= d <= pydt.date.max.toordinal() else None


def convert(src):
    """astype between units rounds towards the past for dates, down for durations."""
    kind = src.choice("Mm")
    A = times(src, kind)
    u = np.datetime_data(A.n.dtype)[0]
    v = src.choice(U)
    src.sig = f"{kind} {u}->{v} {A.lay[:5]} {A.n.ndim}"
    t = f"{'datetime' if kind == 'M' else 'timedelta'}64[{v}]"
    src.note(f"{A!r}.astype({t})")
    same(f"astype({t})", lambda: A.r.astype(t), lambda: A.n.astype(t))
    # independent of NumPy: Python's calendar
    if kind == "M" and v == "D" and u in FIX:
        g = np.asarray(A.r.astype(t)).reshape(-1).view("i8").tolist()
        e = [x if x == NAT else x * FIX[u] // (86400 * 10**9) for x in A.n.reshape(-1).view("i8").tolist()]
        if g != e:
            raise Violation("value", f"astype({t}) of {A!r}: got {g}, expected {e}")
    if U.index(v) >= U.index(u) and (u in "YM") <= (v in "YM") if kind == "m" or v == "W" else U.index(v) >= U.index(u):
        same("to a finer unit and back", lambda: A.r.astype(t).astype(str(A.n.dtype)), lambda: A.n.copy())
    f = src.choice(["int64", "float64", "bool", "other"])
    if f == "other":
        o = f"{'timedelta' if kind == 'M' else 'datetime'}64[{u}]"
        if kind == "m":
            same(f"astype({o})", lambda: A.r.astype(o), lambda: A.n.astype(o))
    else:
        same(f"astype({f})", lambda: A.r.astype(f), lambda: A.n.astype(f))
    if src.bool(0.3):
        I = G.array(src, src.choice(["int64", "int32", "uint8"]), (src.int(1, 5),), "small")
        same(f"{I.n.dtype} to {A.n.dtype}", lambda: I.r.astype(str(A.n.dtype)), lambda: I.n.astype(A.n.dtype))
    unchanged(A)


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b}


def arith(src):
    """Dates and durations combine as NumPy's do; meaningless combinations raise."""
    op = src.choice(["+", "+", "-", "-", "*", "/", "//", "%"])
    ka = src.choice(["M", "m", "m"])
    kb = src.choice(["M", "m", "m", "i", "f", "pi", "pf"])
    A = times(src, ka)
    shp = A.n.shape
    if kb in "Mm":
        sb = shp if src.bool(0.7) else (shp[-1:] if src.bool() else (1,) * len(shp))
        B = times(src, kb, np.datetime_data(A.n.dtype)[0] if src.bool(0.4) else None, shp=sb, small=op in ("//", "%", "/") and src.bool())
        b_r, b_n, d = B.r, B.n, str(B.n.dtype)
    elif kb in "if":
        dt = src.choice(["int64", "int32", "uint8", "int8"]) if kb == "i" else src.choice(["float64", "float32"])
        B = G.array(src, dt, shp if src.bool(0.7) else shp[-1:], "small")
        b_r, b_n, d = B.r, B.n, dt
    else:
        x = src.int(-5, 5) if kb == "pi" else src.choice([0.5, 2.0, -1.5, 0.1, float("nan"), float("inf"), 0.0])
        B, b_r, b_n, d = x, x, x, type(x).__name__
    flip = src.bool(0.25)
    x, y = ((b_r, A.r), (b_n, A.n)) if flip else ((A.r, b_r), (A.n, b_n))
    src.sig = f"{op} {A.n.dtype} {d} {flip} {A.lay[:5]}"
    src.note(f"{A!r} {op} {B!r} {'reflected' if flip else ''}")
    n = run(lambda: OPS[op](*y))
    if not isinstance(n, Err):
        # results near the limits are not judged
        m = np.asarray(n)
        if m.dtype.kind in "mM" and m.size:
            q = [abs(v) for v in m.reshape(-1).view("i8").tolist() if v != NAT]
            if q and max(q) > 2**62:
                raise Discard("overflow")
        if op in ("*", "/", "//") and m.dtype.kind == "m" and m.size:
            iv = np.where(A.n.view("i8") == NAT, 0, A.n.view("i8")).astype(float)
            with np.errstate(all="ignore"):
                z = OPS[op[0]](*((np.asarray(b_n, float), iv) if flip else (iv, np.asarray(b_n, float)))) if kb not in "Mm" else iv
            if (np.isfinite(z) & (abs(z) > 2.0**62)).any():
                raise Discard("overflow")
    same(f"{A.n.dtype} {op} {d}{' reflected' if flip else ''}", lambda: OPS[op](*x), n if not isinstance(n, Err) else (lambda: (_ for _ in ()).throw(TypeError(str(n)))))
    unchanged(*(o for o in (A, B) if isinstance(o, G.Arr) and o.n.dtype.kind in "mM"))


def relation(src):
    """Comparisons, maximum and minimum, signs and predicates; NaT is unequal to everything."""
    k = src.choice("Mm")
    A = times(src, k)
    B = times(src, k, np.datetime_data(A.n.dtype)[0] if src.bool(0.5) else None, shp=A.n.shape)
    if src.bool(0.5) and A.n.size:
        u = str(B.n.dtype)
        B = arr(src, np.where(np.array([src.bool(0.6) for _ in range(A.n.size)]).reshape(A.n.shape), A.n.astype(u), B.n).astype(u))
    f = src.choice(["==", "!=", "<", "<=", ">", ">=", "maximum", "minimum", "fmax", "fmin", "isnat", "isnan", "isfinite", "isinf", "neg", "abs", "sign", "nonzero", "any", "all", "equal", "less"])
    src.sig = f"{f} {A.n.dtype} {B.n.dtype} {A.lay[:5]}"
    src.note(f"{f}: {A!r}, {B!r}")
    cmpf = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
    if f in cmpf:
        nn = run(lambda: getattr(A.n, cmpf[f])(B.n))
        if isinstance(nn, Err):
            r = run(lambda: getattr(A.r, cmpf[f])(B.r))
            if isinstance(r, Err) and r.panic:
                raise Violation("panic", f"{f}: {r}")
            return
        same(f, lambda: getattr(A.r, cmpf[f])(B.r), nn)
    elif f in ("maximum", "minimum", "fmax", "fmin"):
        same(f, lambda: getattr(rp, f)(A.r, B.r), lambda: getattr(np, f)(A.n, B.n))
    elif f in ("equal", "less"):
        nn = run(lambda: getattr(np, f)(A.n, B.n))
        if not isinstance(nn, Err):
            same(f, lambda: getattr(rp, f)(A.r, B.r), nn)
    elif f in ("neg", "abs"):
        g = (lambda x: -x) if f == "neg" else abs
        same(f, lambda: g(A.r), lambda: g(A.n))
    elif f == "sign":
        if (A.n.reshape(-1).view("i8") == NAT).any():
            raise Discard("sign of NaT")
        same(f, lambda: rp.sign(A.r), lambda: np.sign(A.n))
    elif f == "nonzero":
        if A.n.ndim:
            r = rp.nonzero(A.r)
            for i, (x, y) in enumerate(zip(r, np.nonzero(A.n))):
                same(f"nonzero {i}", x, y)
    elif f in ("any", "all"):
        r = run(lambda: getattr(rp, f)(A.r))
        if isinstance(r, Err):
            raise Violation("raises", f"{f}: {r}")
        if bool(r) != bool(getattr(np, f)(A.n)):
            raise Violation("value", f"{f}: got {r!r}, expected {getattr(np, f)(A.n)!r}")
    else:
        same(f, lambda: getattr(rp, f)(A.r), lambda: getattr(np, f)(A.n))
    unchanged(A, B)


def reduce_(src):
    """Order reductions, sums of durations, sorting and searching; NaT sorts last."""
    k = src.choice("Mm")
    A = times(src, k)
    f = src.choice(["max", "min", "argmax", "argmin", "sum", "mean", "prod", "var", "std", "cumsum", "cumprod", "sort", "argsort", "unique", "diff", "where", "concat", "searchsorted", "isin",
                    "take", "median", "ptp"])
    src.sig = f"{f} {A.n.dtype} {A.n.ndim} {A.lay[:5]}"
    src.note(f"{f}: {A!r}")
    nd = A.n.ndim
    if not nd or not A.n.size:
        raise Discard("empty")
    ax = src.int(0, nd - 1)
    if f in ("max", "min", "argmax", "argmin", "sum", "mean", "prod", "var", "std", "ptp"):
        if f == "mean" and k == "m" and (A.n.reshape(-1).view("i8") == NAT).any():
            raise Discard("mean of NaT")
        if f == "ptp" and k == "M":
            r = run(lambda: rp.ptp(A.r, ax))
            if isinstance(r, Err) and not r.panic:
                return
        meth = hasattr(A.r, f) and src.bool() and f != "ptp"
        same(f"{f}(axis={ax})", (lambda: getattr(A.r, f)(axis=ax)) if meth else (lambda: getattr(rp, f)(A.r, ax)), lambda: getattr(np, f)(A.n, ax))
        if f in ("max", "min", "argmax", "argmin"):
            n = np.asarray(getattr(np, f)(A.n))
            e = int(n.reshape(1).view("i8")[0])
            r = run(lambda: getattr(rp, f)(A.r))
            if isinstance(r, Err) or float(r) != float(e):
                raise Violation("value", f"{f}: got {r!r}, expected {e}")
    elif f in ("cumsum", "cumprod"):
        same(f"{f}(axis={ax})", lambda: getattr(rp, f)(A.r, ax), lambda: getattr(np, f)(A.n, ax))
    elif f == "median":
        if k == "M":
            same("median", lambda: rp.median(A.r), lambda: np.median(A.n))
    elif f == "sort":
        same("sort", lambda: rp.sort(A.r, ax), lambda: np.sort(A.n, ax))
    elif f == "argsort":
        same("argsort", lambda: rp.take_along_axis(A.r, rp.argsort(A.r, ax), ax), lambda: np.sort(A.n, ax))
    elif f == "unique":
        same("unique", lambda: rp.unique(A.r), lambda: np.unique(A.n))
    elif f == "diff":
        n = src.int(1, 2)
        m = run(lambda: np.diff(A.n, n, ax))
        same(f"diff({n}, axis={ax})", lambda: rp.diff(A.r, n, ax), m)
    elif f in ("where", "concat", "searchsorted", "isin"):
        B = times(src, k, shp=A.n.shape)
        if (str(A.n.dtype)[-2] in "YM") != (str(B.n.dtype)[-2] in "YM") and k == "m":
            raise Discard("units without a common one")
        if f == "where":
            M = G.array(src, "bool", A.n.shape)
            same("where", lambda: rp.where(M.r, A.r, B.r), lambda: np.where(M.n, A.n, B.n))
        elif f == "concat":
            same("concatenate", lambda: rp.concatenate([A.r, B.r], axis=ax), lambda: np.concatenate([A.n, B.n], axis=ax))
        elif f == "searchsorted":
            s = np.sort(A.n.ravel())
            v = B.n.astype(A.n.dtype).ravel()
            side = src.choice(["left", "right"])
            same("searchsorted", lambda: rp.searchsorted(rp.asarray(s), rp.asarray(v), side=side), lambda: np.searchsorted(s, v, side=side))
        else:
            w = B.n.astype(A.n.dtype).ravel()
            if src.bool() and w.size:
                w = np.concatenate([w, A.n.ravel()[: src.int(1, 3)]])
            same("isin", lambda: rp.isin(A.r, rp.asarray(w)), lambda: np.isin(A.n, w))
    elif f == "take":
        ix = [src.int(0, A.n.size - 1) for _ in range(src.int(1, 5))]
        same("take", lambda: rp.take(A.r, rp.array(ix)), lambda: np.take(A.n, ix))
    unchanged(A)


def text(src):
    """Dates from and to ISO 8601 text."""
    k = src.choice(["print", "print", "parse", "parse", "round", "bad", "list"])
    u = src.choice(U)
    if k in ("print", "round"):
        wide = src.bool(0.3) and U.index(u) < 7
        A = times(src, "M", u)
        if wide and A.n.size:   # years before 0 and after 9999
            y = src.choice([-3, -1, 0, 1, 9, 99, 9999, 10000, 12345, -800])
            d = np.array([f"{y:04d}" if y >= 0 else f"-{-y:04d}"], "M8[Y]").astype(f"M8[{u}]")
            v = A.n.copy()
            v.reshape(-1)[:1] = d + np.timedelta64(src.int(-3, 3), u)
            A = arr(src, v)
        t = src.choice([None, None] + U[:-1] + ([] if wide else ["ns"]))
        src.sig = f"{k} {u} {t} {A.lay[:5]}"
        src.note(f"{k}: {A!r} {t}")
        if k == "print":
            kw = {"unit": t} if t else {}
            r = run(lambda: rp.datetime_as_string(A.r, **kw))
            n = np.datetime_as_string(A.n if not t else A.n.astype(f"M8[{t}]"))
            e = n.ravel().tolist()
            if wide:
                # NumPy prints three digits of the magnitude for negative years; %04d here
                e = None if any(s.startswith("-") for s in e) else e
            if isinstance(r, Err):
                raise Violation("raises", f"datetime_as_string({A!r}, {t}): {r}")
            if e is not None and list(r) != e:
                raise Violation("value", f"datetime_as_string({A!r}, {t}): got {list(r)}, expected {e}")
        else:
            s = run(lambda: rp.datetime_as_string(A.r))
            if isinstance(s, Err):
                raise Violation("raises", f"datetime_as_string({A!r}): {s}")
            if s:
                same("parse of print", lambda: rp.array(list(s), dtype=str(A.n.dtype)), lambda: A.n.ravel().copy())
        unchanged(A)
        return
    src.nontrivial = True
    if k in ("parse", "list"):
        out = []
        for _ in range(src.int(1, 3)):
            y = src.choice([1970, 1969, 2000, 1900, 2023, 2024, 1972, src.int(1900, 2099)] + ([1600, 1, 9999] if u != 'ns' else []))
            mth = src.int(1, 12)
            import calendar
            d = src.choice([1, calendar.monthrange(y, mth)[1], src.int(1, 28)])
            s = f"{y:04d}"
            lev = src.int(0, 6)
            if lev > 0:
                s += f"-{mth:02d}"
            if lev > 1:
                s += f"-{d:02d}"
            if lev > 2:
                s += src.choice("TT ") + f"{src.choice([0, 23, src.int(0, 23)]):02d}"
            if lev > 3:
                s += f":{src.choice([0, 59, src.int(0, 59)]):02d}"
            if lev > 4:
                s += f":{src.choice([0, 59, src.int(0, 59)]):02d}"
            if lev > 5:
                s += "." + "".join(str(src.int(0, 9)) for _ in range(src.int(1, 9)))
            out.append(src.choice(["NaT", s]) if src.bool(0.1) else s)
        if k == "list" and len(out) == 2:
            out = [out, out]
        src.sig = f"{k} {u} {len(str(out))}"
        src.note(f"array({out}, datetime64[{u}])")
        same(f"array({out}, datetime64[{u}])", lambda: rp.array(out, dtype=f"datetime64[{u}]"), lambda: np.array(out, dtype=f"M8[{u}]"))
        return
    s = src.choice(["abc", "2000-13-01", "2000-00-10", "2000-02-30", "1900-02-29", "2000-04-31", "2000-01-32", "2000-01-00", "2000-1-1", "2000-01-01T24", "2000-01-01T12:60", "2000-01-01T12:00:61",
                    "2000-01-01T", "2000-01-01T1", "2000-01-01Tab", "2000-01-01T12:xx", "2000-01-01T12:00:00.x", "2000-01-01-01", "2000/01/01", "2000-01-", "T12", "2000-01-01T12:00:00:00", "12-", "--", "+5", "2000-01T12", "2000-01-01T-1",
                    "2000-01-01T12:00:0.5", "1e3", "2000-01-0١"])
    src.sig = f"bad {u} {s}"
    src.note(f"array([{s!r}], datetime64[{u}])")
    f = src.choice(["array", "busday", "offset", "count"])
    if f == "array":
        r = run(lambda: rp.array([s], dtype=f"datetime64[{u}]"))
        ok = not isinstance(r, Err) and np.asarray(r).view("i8").tolist() == [NAT]
    elif f == "busday":
        r = run(lambda: rp.is_busday(s))
        ok = r is False
    elif f == "offset":
        r = run(lambda: rp.busday_offset(s, 1))
        ok = not isinstance(r, Err) and np.asarray(r).reshape(1).view("i8").tolist() == [NAT]
    else:
        r = run(lambda: rp.busday_count("2000-01-03", s))
        ok = False
    if isinstance(r, Err):
        if r.panic:
            raise Violation("panic", f"{f} {s!r}: {r}")
    elif not ok:
        raise Violation("accepts-invalid", f"{f} of {s!r}: got {show(r) if isinstance(r, rp.ndarray) else r!r}")


DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]


def busday(src):
    """is_busday, busday_offset, busday_count against a day-by-day model."""
    src.nontrivial = True
    m = [src.bool(0.6) for _ in range(7)]
    kind = src.choice(["default", "names", "bits", "joined"])
    if kind == "default":
        m, mask = [True] * 5 + [False] * 2, None
    elif not any(m):
        bad = src.choice(["0000000", "", "Xyz", "111", "1111112", "MonTu", "Mon Tux", "11111111"])
        src.sig = f"mask {bad}"
        src.note(f"busdaycalendar({bad!r})")
        r = run(lambda: rp.busdaycalendar(weekmask=bad))
        if not isinstance(r, Err):
            raise Violation("accepts-invalid", f"busdaycalendar({bad!r}): {list(r.weekmask)}")
        if r.panic:
            raise Violation("panic", f"busdaycalendar({bad!r}): {r}")
        return
    else:
        names = [d for d, x in zip(DAYS, m) if x]
        if src.bool(0.3):
            names = names[::-1]
        mask = {"names": " ".join(names), "joined": "".join(names), "bits": "".join("01"[x] for x in m)}[kind]
    d0 = src.choice([0, 19500, -3, 11016, src.int(-30000, 30000)])
    day = lambda: d0 + src.int(-20, 20)
    hol = sorted({day() for _ in range(src.int(0, 6))}) if src.bool(0.6) else []
    iso = lambda d: civil(d).isoformat()
    kw = {}
    if mask is not None:
        kw["weekmask"] = mask
    if hol:
        kw["holidays"] = [iso(h) for h in (hol[::-1] if src.bool() else hol)]
    bd = lambda d: m[(d + 3) % 7] and d not in hol
    cal = run(lambda: rp.busdaycalendar(**kw))
    if isinstance(cal, Err):
        raise Violation("raises", f"busdaycalendar({kw}): {cal}")
    if list(cal.weekmask) != m:
        raise Violation("value", f"busdaycalendar({kw}).weekmask is {list(cal.weekmask)}")
    f = src.choice(["is", "is-array", "offset", "offset-list", "count", "count-list", "mismatch"])
    src.sig = f"{f} {kind} {bool(hol)}"
    note = lambda *a: src.note(f"{f}{a} {kw}")
    call = lambda g, *a: run(lambda: g(*a, busdaycal=cal) if kw or src.bool() else g(*a))
    if f == "is":
        d = day()
        note(iso(d))
        r = call(rp.is_busday, iso(d))
        if r is not bd(d):
            raise Violation("value", f"is_busday({iso(d)}, {kw}): {r!r}")
    elif f == "is-array":
        u = src.choice(["D", "D", "W", "M", "Y", "s", "h"])
        A = times(src, "M", u)
        note(A)
        r = call(rp.is_busday, A.r)
        if u in "sh":
            if not isinstance(r, Err) or r.panic:
                raise Violation("accepts-invalid", f"is_busday of {A.n.dtype}: {r!r}")
            return
        x = A.n.astype("M8[D]").reshape(-1).view("i8").tolist()
        e = np.array([v != NAT and bd(v) for v in x], bool).reshape(A.n.shape)
        same("is_busday", r if not isinstance(r, Err) else (lambda: (_ for _ in ()).throw(r.exc if hasattr(r, "exc") else RuntimeError(str(r)))), e)
    elif f.startswith("offset"):
        def off(d, k):
            if k == 0 and not bd(d):
                return None
            s = 1 if k > 0 else -1
            for _ in range(abs(k)):
                d += s
                while not bd(d):
                    d += s
            return d
        n = 1 if f == "offset" else src.int(1, 4)
        ds = [day() for _ in range(n)]
        ks = [src.choice([0, 1, -1, 2, -3, 5, 7, -12, src.int(-40, 40)]) for _ in range(n)]
        form = src.int(0, 2)
        if f == "offset":
            a = (iso(ds[0]), ks[0])
        elif form == 0:
            a = ([iso(d) for d in ds], ks)
        elif form == 1:
            ks = [ks[0]] * n
            a = ([iso(d) for d in ds], ks[0])
        else:
            ds = [ds[0]] * n
            a = (iso(ds[0]), ks)
        note(*a)
        e = [off(d, k) for d, k in zip(ds, ks)]
        if None in e:
            raise Discard("offset 0 from a day off")
        r = call(rp.busday_offset, *a)
        if isinstance(r, Err):
            raise Violation("raises", f"busday_offset{a} {kw}: {r}")
        e = np.array(e, "i8").view("M8[D]")
        same(f"busday_offset{a} {kw}", r, e[0] if f == "offset" else e)
    elif f.startswith("count"):
        def cnt(b, x):
            return sum(map(bd, range(b, x))) if b <= x else -sum(map(bd, range(x + 1, b + 1)))
        n = 1 if f == "count" else src.int(1, 4)
        bs, es = [day() for _ in range(n)], [day() + src.choice([0, 0, 30, 400, -400]) for _ in range(n)]
        if f == "count":
            a = (iso(bs[0]), iso(es[0]))
        elif src.bool():
            a = ([iso(d) for d in bs], [iso(d) for d in es])
        else:
            bs = [bs[0]] * n
            a = (iso(bs[0]), [iso(d) for d in es])
        note(*a)
        r = call(rp.busday_count, *a)
        e = [cnt(b, x) for b, x in zip(bs, es)]
        # NumPy agrees with the model
        nc = np.busdaycalendar(**kw)
        if np.busday_count(*a, busdaycal=nc).reshape(-1).tolist() != e:
            raise Discard("model")
        if isinstance(r, Err):
            raise Violation("raises", f"busday_count{a} {kw}: {r}")
        g = [r] if f == "count" else np.asarray(r).tolist()
        if g != e:
            raise Violation("value", f"busday_count{a} {kw}: got {g}, expected {e}")
    else:
        a = [iso(day()) for _ in range(2)], [src.int(-3, 3) for _ in range(3)]
        note(*a)
        r = run(lambda: rp.busday_offset(*a)) if src.bool() else run(lambda: rp.busday_count(a[0], [iso(day()) for _ in range(3)]))
        if not isinstance(r, Err):
            raise Violation("accepts-invalid", f"lists of 2 and 3 items: {show(r)}")
        if r.panic:
            raise Violation("panic", str(r))


def refuse(src):
    """Functions of numbers refuse dates; functions of dates refuse numbers."""
    src.nontrivial = True
    k = src.choice("Mm")
    A = times(src, k)
    f = src.choice(["sqrt", "exp", "log", "sin", "floor", "ceil", "square", "reciprocal", "cbrt", "arctan2", "hypot", "logaddexp", "power", "copysign", "**", "positive", "signbit",
                    "isnat", "is_busday", "datetime_as_string", "datetime_data", "mulM", "dot", "ifft", "matmul"])
    src.sig = f"{f} {A.n.dtype}"
    src.note(f"{f}: {A!r}")
    N = G.array(src, src.choice(G.ALL), (3,), "tiny")
    if f == "positive" and k == "m":
        same(f, lambda: rp.positive(A.r), lambda: np.positive(A.n))
        return
    call = {"arctan2": lambda: rp.arctan2(A.r, A.r), "hypot": lambda: rp.hypot(A.r, A.r), "logaddexp": lambda: rp.logaddexp(A.r, A.r), "power": lambda: rp.power(A.r, A.r), "copysign": lambda: rp.copysign(A.r, A.r),
            "**": lambda: A.r ** 2, "isnat": lambda: rp.isnat(N.r), "is_busday": lambda: rp.is_busday(N.r), "datetime_as_string": lambda: rp.datetime_as_string(N.r if k == "m" else times(src, "m").r),
            "datetime_data": lambda: rp.datetime_data(str(N.n.dtype)), "mulM": lambda: times(src, "M", shp=A.n.shape).r * A.r, "dot": lambda: rp.dot(A.r.ravel(), A.r.ravel()), "ifft": lambda: rp.fft.fft(A.r.ravel()),
            "matmul": lambda: rp.matmul(A.r.ravel(), A.r.ravel())}.get(f) or (lambda: getattr(rp, f)(A.r))
    if not A.n.size and f in ("dot", "ifft", "matmul"):
        raise Discard("empty")
    r = run(call)
    if not isinstance(r, Err):
        raise Violation("accepts-invalid", f"{f}: gave {show(r) if isinstance(r, rp.ndarray) else r!r}")
    if r.panic:
        raise Violation("panic", f"{f}: {r}")


FACETS = {
    "convert": Facet(convert, 4000),
    "arith": Facet(arith, 8000),
    "relation": Facet(relation, 4000),
    "reduce": Facet(reduce_, 5000),
    "text": Facet(text, 4000),
    "busday": Facet(busday, 4000),
    "refuse": Facet(refuse, 2000),
}
