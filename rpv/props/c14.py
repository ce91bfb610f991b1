"""C14: exchange with NumPy and with Python objects."""
import gc
import pickle
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show

RULE = ("an array of drawn dtype, contents and layout handed over in either direction, or a history of exports, imports, writes and drops; "
        "non-trivial = non-empty array, and a strided layout or at least one write")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference consumer and producer of __array_interface__"]


def export(src):
    """np.asarray(r): same values, same memory, kept alive."""
    d = src.choice(G.ALL)
    shp = G.shape(src, 0, 4)
    A = G.array(src, d, shp, bcast=True)
    src.sig = f"export {d} {A.lay[:5]} {len(shp)}"
    src.note(f"np.asarray({A!r})")
    src.nontrivial = A.n.size > 0
    want = A.n.copy()
    m = np.asarray(A.r)
    ai = A.r.__array_interface__
    if m.shape != want.shape or str(m.dtype) != d:
        raise Violation("export", f"np.asarray gave {show(m)}, expected {show(want)}")
    compare("np.asarray", m, want, exact=True, signzero=True)
    if tuple(ai["shape"]) != want.shape or tuple(A.r.strides) != tuple(ai["strides"]) or ai["typestr"] != want.dtype.str:
        raise Violation("interface", f"__array_interface__ {ai} does not describe {show(want)} with strides {A.r.strides}")
    fl, nf = A.r.flags, m.flags
    if want.size and (fl.c_contiguous, fl.f_contiguous) != (nf.c_contiguous, nf.f_contiguous):
        raise Violation("flags", f"flags C={fl.c_contiguous} F={fl.f_contiguous}, but the strides {m.strides} of shape {m.shape} give C={nf.c_contiguous} F={nf.f_contiguous}")
    if (A.r.nbytes, A.r.itemsize, A.r.size, A.r.ndim) != (want.nbytes, want.itemsize, want.size, want.ndim):
        raise Violation("meta", f"nbytes/itemsize/size/ndim {(A.r.nbytes, A.r.itemsize, A.r.size, A.r.ndim)}, expected {(want.nbytes, want.itemsize, want.size, want.ndim)}")
    if A.lay.startswith("broadcast"):
        return
    if want.size:
        # a write on either side is seen on the other
        pos = tuple(src.below(k) for k in want.shape)
        v = G.values(src, d, 2, "small")
        want[pos] = v[0]
        m[pos] = v[0]
        compare("rumpy after a write through NumPy", A.r, want, exact=True)
        want[pos] = v[1]
        A.r[pos if pos else Ellipsis] = v[1].item()
        compare("NumPy view after a write through rumpy", m, want, exact=True)
    A.r = A.rbase = None
    junk = [rp.zeros((want.size + 1,), dtype=d) + 1 for _ in range(3)]
    gc.collect()
    compare("exported view after its rumpy array was dropped", m, want, exact=True)
    del junk


def imp(src):
    """array/asarray of NumPy arrays of any layout."""
    d = src.choice(G.ALL)
    shp = G.shape(src, 0, 4)
    A = G.array(src, d, shp, bcast=True)
    n = A.n
    f = src.choice(["array", "asarray", "ascontiguousarray", "asarray_dtype"])
    how = src.choice(["plain", "plain", "readonly", "unaligned", "iface"])
    e = d
    if f == "asarray_dtype":
        e = src.choice(["float64", "int64", "float32", "complex128", "int32", "bool", "uint8"])
        if n.dtype.kind in "fc" and e[0] in "iu":
            e = "float64" if n.dtype.kind == "f" else "complex128"
        if n.dtype.kind == "c" and e[0] in "fb":
            e = "complex128"
    src.sig = f"import {f} {how} {d} {A.lay[:5]}"
    src.nontrivial = n.size > 0
    if how == "readonly":
        n = n.view()
        n.flags.writeable = False
    elif how == "unaligned":
        if n.dtype.itemsize == 1:
            raise Discard
        raw = np.zeros(n.nbytes + 1, "u1")
        u = raw[1:].view(d).reshape(n.shape)
        u[...] = n
        n = u
    if how == "iface":
        class Obj:
            pass
        o = Obj()
        o.__array_interface__ = dict(n.__array_interface__)
        if src.bool(0.4) and n.flags.c_contiguous:
            o.__array_interface__["strides"] = None
            if src.bool(0.5):
                del o.__array_interface__["strides"]
        arg = o
    else:
        arg = n
    if f == "ascontiguousarray":
        f = "asarray"
    src.note(f"rp.{f}(np {A!r}, {how}, {e})")
    with np.errstate(all="ignore"):
        want = n.astype(e)
    g = getattr(rp, "asarray" if f == "asarray_dtype" else f)
    r = run(lambda: g(arg, dtype=e) if f == "asarray_dtype" else g(arg))
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"rp.{f}: {r}")
    keep = n.copy()
    compare(f"rp.{f}", r, want, exact=True, signzero=True)
    if f == "array" and how == "plain" and want.size and not A.lay.startswith("broadcast"):
        pos = tuple(src.below(k) for k in want.shape)
        n[pos] = G.values(src, d, 1, "small")[0]
        compare("rp.array(n) after a write to n", r, want, exact=True)
        n[pos] = keep[pos]
    if want.size:
        r[Ellipsis] = 1
        if how == "readonly" or f == "array":
            compare("the NumPy array after a write to rp's copy", n, keep, exact=True)


BIN = ["add", "subtract", "multiply", "maximum", "minimum", "equal", "less", "greater_equal", "hypot", "logical_and", "copysign"]
UN = ["negative", "absolute", "sqrt", "square", "sin", "exp", "isnan", "isfinite", "floor", "sign", "logical_not", "conjugate", "positive"]


def ufunc(src):
    """NumPy ufuncs and operators given rumpy operands."""
    k = src.choice(["np.un", "np.bin", "np.bin_mixed", "scalar_op", "scalar_rop", "out", "method"])
    d = src.choice(["float64", "float32", "int64", "int32", "complex128"])
    shp = G.shape(src, 1, 3)
    A = G.array(src, d, shp, "small")
    src.sig = f"{k} {d} {A.lay[:4]}"
    src.nontrivial = A.n.size > 0
    with np.errstate(all="ignore"):
        if k == "np.un":
            f = src.choice(UN)
            if d == "complex128" and f in ("floor", "sign"):
                raise Discard
            src.note(f"np.{f}({A!r})")
            r = differential(src, f"np.{f}(rumpy)", lambda: getattr(np, f)(A.r), lambda: getattr(np, f)(A.n))
        elif k in ("np.bin", "np.bin_mixed"):
            f = src.choice(BIN)
            if d == "complex128" and f in ("hypot", "copysign", "less", "greater_equal", "maximum", "minimum"):
                raise Discard
            B = G.array(src, d, shp, "small")
            if k == "np.bin":
                src.note(f"np.{f}({A!r}, {B!r})")
                x, y = A.r, B.r
            else:
                s = src.choice([2, 1.5, np.float64(2.5), np.int64(3)])
                if d[0] == "i" and not float(s).is_integer() or isinstance(s, np.float64) and d == "float32" or isinstance(s, np.int64) and d != "int64":
                    s = 2
                if d == "float32" and f == "hypot" or f == "logical_and":  # rumpy's takes arrays only
                    raise Discard
                sw = src.bool(0.5)
                src.note(f"np.{f}({A!r}, {s!r}) swapped={sw}")
                x, y = (s, A.r) if sw else (A.r, s)
                r = differential(src, f"np.{f}", lambda: getattr(np, f)(x, y), lambda: getattr(np, f)(*((s, A.n) if sw else (A.n, s))))
                if r is not None and not isinstance(r, rp.ndarray):
                    raise Violation("type", f"np.{f} of a rumpy array gave {type(r).__name__}")
                return
            r = differential(src, f"np.{f}(rumpy, rumpy)", lambda: getattr(np, f)(x, y), lambda: getattr(np, f)(A.n, B.n))
        elif k in ("scalar_op", "scalar_rop"):
            op = src.choice(["+", "-", "*", "/", "<", "=="])
            s = src.choice([np.float64(2.5), np.float64(-1.0), np.int64(3), 2, -1.5, True])
            if d == "complex128" and op == "<" or isinstance(s, bool) and op == "-":
                raise Discard
            if d in ("int32", "float32") and not isinstance(s, (int, float)) or isinstance(s, np.float64) and d == "float32":
                s = 2
            if d == "complex128" and op == "/":
                op = "*"
            a, n = A.r, A.n
            ex = f"s {op} a" if k == "scalar_rop" else f"a {op} s"
            src.note(f"{ex}, s={s!r}, a={A!r}")
            r = differential(src, ex, lambda: eval(ex, {"s": s, "a": a}), lambda: eval(ex, {"s": s, "a": n}))
        elif k == "out":
            o = np.zeros(shp, d)
            src.note(f"np.add({A!r}, 1, out=)")
            r = run(lambda: np.add(A.r, 1, out=o))
            if isinstance(r, Err):
                if r.panic:
                    raise Violation("panic", f"{r}")
                return
            compare("np.add(out=)", np.asarray(r), A.n + 1, exact=True)
            return
        else:
            src.note(f"np.add.reduce({A!r})")
            r = run(lambda: np.add.reduce(A.r))
            if isinstance(r, Err):
                if r.panic:
                    raise Violation("panic", f"{r}")
                return
            compare("np.add.reduce", r, np.add.reduce(A.n))
            return
    if r is not None and not isinstance(r, rp.ndarray):
        raise Violation("type", f"a NumPy ufunc of a rumpy array gave {type(r).__name__}")


def pyobj(src):
    """Elements as Python objects: tolist, item, flat, iteration, tobytes, int/float/bool, pickling."""
    d = src.choice(G.ALL)
    k = src.choice(["tolist", "tolist", "flat", "tobytes", "item", "iter", "flatidx", "int", "float", "bool", "dumps", "fill", "complexparts", "resize"])
    shp = G.shape(src, 0 if k in ("tolist", "item", "tobytes", "bool", "fill") else 1, 3)
    if k in ("item", "int", "float", "bool"):
        shp = src.choice([(), (1,), (1, 1), (1,), (2,), (0,)])
    A = G.array(src, d, shp)
    n = A.n
    src.sig = f"{k} {d} {A.lay[:4]} {len(shp)}"
    src.note(f"{k} {A!r}")
    src.nontrivial = n.size > 0

    def same(a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, list):
            return len(a) == len(b) and all(map(same, a, b))
        return a == b and (not isinstance(a, float) or np.signbit(a) == np.signbit(b)) or a != a and b != b and (
            not isinstance(a, complex) or same(a.real, b.real) and same(a.imag, b.imag))

    def check(r, want):
        if not same(r, want):
            raise Violation("value", f"{k}: got {r!r}, expected {want!r}")
    if k == "tolist":
        check(A.r.tolist(), n.tolist())
    elif k == "flat":
        check(list(A.r.flat), [x.item() for x in n.flat])
        if len(A.r.flat) != n.size:
            raise Violation("value", "len(flat)")
    elif k == "flatidx":
        i = src.int(-n.size - 2, n.size + 1)
        e = run(lambda: n.flat[i].item())
        r = run(lambda: A.r.flat[i])
        if isinstance(e, Err) != isinstance(r, Err) or isinstance(r, Err) and r.panic:
            raise Violation("value", f"flat[{i}]: got {r}, expected {e}")
        if not isinstance(e, Err):
            check(r, e)
    elif k == "tobytes":
        check(A.r.tobytes(), n.tobytes())
    elif k == "iter":
        got = list(A.r)
        if len(got) != len(n):
            raise Violation("value", f"iteration gave {len(got)} items of {len(n)}")
        for g, w in zip(got, n):
            compare("iteration", g, w, exact=True)
            if n.ndim == 1:
                check(g.item() if isinstance(g, rp.ndarray) else g, w.item())
    elif k in ("item", "int", "float"):
        g = {"item": lambda a: a.item(), "int": int, "float": float}[k]
        if k == "float" and n.dtype.kind == "c" or k == "int" and n.dtype.kind == "c":
            raise Discard
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e = run(lambda: g(n))
        r = run(lambda: g(A.r))
        if isinstance(e, Err):
            if not isinstance(r, Err) or r.panic:
                raise Violation("accepts-invalid", f"{k} gave {r}, the reference raises {e}")
            return
        if isinstance(r, Err):
            raise Violation("raises", f"{k}: {r}, expected {e!r}")
        check(r, e)
    elif k == "bool":
        if n.size == 0:
            raise Discard
        e = run(lambda: bool(n))
        r = run(lambda: bool(A.r))
        if isinstance(e, Err) != isinstance(r, Err) or not isinstance(e, Err) and r is not e:
            raise Violation("value", f"bool: got {r}, expected {e}")
    elif k == "dumps":
        compare("pickle.loads(dumps)", pickle.loads(A.r.dumps()), n, exact=True, signzero=True)
    elif k == "fill":
        v = G.values(src, d, 1, "any")[0].item()
        src.note(f"fill({v!r})")
        A.r.fill(v)
        m = n.copy()
        m.fill(v)
        compare("fill", A.r, m, exact=True, signzero=True)
    elif k == "complexparts":
        compare("real", A.r.real, n.real, exact=True, signzero=True)
        compare("imag", A.r.imag, n.imag, exact=True)
        compare("conj", A.r.conj(), n.conj() if n.dtype.kind != "b" else n, exact=True)
    elif k == "resize":
        new = G.shape(src, 1, 3)
        src.note(f"resize({new})")
        m = np.zeros(int(np.prod(new)), d)
        q = min(m.size, n.size)
        m[:q] = n.ravel()[:q]
        r = A.r.copy()
        r.resize(*new) if src.bool(0.5) else r.resize(new)
        compare("resize", r, m.reshape(new), exact=True, signzero=True)


def history(src):
    """A history of imports, exports, views, writes and drops against an all-NumPy model."""
    d = src.choice(["float64", "int64", "int32", "float32", "complex128", "uint8", "bool"])
    live = []          # (kind, object, model): kind 'r' rumpy, 'm' numpy view of a rumpy array
    log = []
    writes = 0
    steps = src.int(4, 14)
    for _ in range(steps):
        op = src.weighted([(3, "new"), (4, "export"), (3, "view"), (5, "write"), (3, "drop"), (2, "reimport"), (1, "churn")])
        if op == "new" or not live:
            shp = G.shape(src, 1, 3, maxsize=60)
            n = G.values(src, d, int(np.prod(shp)), "small").reshape(shp)
            model = n.copy()
            live.append(("r", rp.array(n), model))
            log.append(f"new {shp}")
            continue
        i = src.below(len(live))
        kind, o, model = live[i]
        if op == "export":
            live.append(("m", np.asarray(o), model))
        elif op == "view":
            v = src.choice(["rev", "T", "step", "first"])
            g = {"rev": lambda a: a[::-1], "T": lambda a: a.T, "step": lambda a: a[1::2], "first": lambda a: a[:2]}[v]
            if model.ndim == 0:
                continue
            live.append((kind, g(o), g(model)))
        elif op == "write":
            if model.size == 0:
                continue
            pos = tuple(src.below(q) for q in model.shape)
            val = G.values(src, d, 1, "small")[0]
            if src.bool(0.3):
                o[...] = val.item()
                model[...] = val
            else:
                o[pos] = val.item()
                model[pos] = val
            writes += 1
        elif op == "drop":
            live.pop(i)
            del o
            gc.collect() if src.bool(0.2) else None
        elif op == "reimport":
            live.append(("r", rp.array(o), model.copy()))
        else:
            junk = [rp.zeros((max(model.size, 1),), dtype=d) + 1 for _ in range(4)]
            del junk
        log.append(f"{op} {i}")
        for j, (kk, oo, mm) in enumerate(live):
            compare(f"handle {j} ({'rumpy' if kk == 'r' else 'NumPy view'}) after {log}", oo, mm, exact=True)
    src.note(f"{d}: {log}")
    src.sig = f"{d} {steps} {writes > 0}"
    src.nontrivial = writes > 0 and len(live) > 0


FACETS = {"export": Facet(export, 12000), "import": Facet(imp, 12000), "ufunc": Facet(ufunc, 10000), "pyobj": Facet(pyobj, 20000), "history": Facet(history, 4000)}
