"""C04: an array combined with a Python scalar behaves as in NumPy."""
import operator as op
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential

RULE = ("an array (drawn dtype, shape, contents, layout) and a Python bool/int/float/complex on either side of an operator or a "
        "ufunc; non-trivial = array non-empty and the reference accepts the call")
ASSUMPTIONS = ["NumPy 2.3.5 is the reference"]
AR = {"+": op.add, "-": op.sub, "*": op.mul, "/": op.truediv, "//": op.floordiv, "%": op.mod, "**": op.pow}
CM = {"==": op.eq, "!=": op.ne, "<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge}
BI = {"&": op.and_, "|": op.or_, "^": op.xor, "<<": op.lshift, ">>": op.rshift}


def scal(src, d, kinds):
    k = src.choice(kinds)
    if k == "int":
        lo = 0 if np.dtype(d).kind == "u" else -7
        return src.choice([1, 2, 3, 0, 5, 7, 10, 100] + ([-1, -2, -7] if lo else []))
    if k == "float":
        return src.choice([1.0, 0.5, 2.5, -1.5, 3.0, 0.0, -2.0, 1e3, 0.1])
    raise KeyError


def arith(src):
    d = src.choice(G.FLOATS + G.INTS)
    fl = np.dtype(d).kind == "f"
    o = src.choice(list(AR))
    s = scal(src, d, ["int", "float"])
    left = src.bool(0.5)
    m = "any"
    if o == "**":
        m = "nonneg" if left else "finite" if fl else "any"
        if not fl and isinstance(s, int) and not left and s < 0:
            raise Discard("neg-int-pow")
    A = G.array(src, d, G.shape(src), m, bcast=True)
    src.sig = f"{o} {d} {type(s).__name__} {'r' if left else 'l'}"
    src.label(o)
    src.note(f"{s} {o} {A!r}" if left else f"{A!r} {o} {s}")
    src.nontrivial = A.n.size > 0
    f = AR[o]
    ex = o != "**"
    if left:
        differential(src, o, lambda: f(s, A.r), lambda: f(s, A.n), exact=ex)
    else:
        differential(src, o, lambda: f(A.r, s), lambda: f(A.n, s), exact=ex)


def comp(src):
    d = src.choice(G.REALS)
    o = src.choice(list(CM))
    s = scal(src, d, ["int", "float"])
    A = G.array(src, d, G.shape(src), src.choice(["any", "tiny"]), bcast=True)
    left = src.bool(0.5)
    src.sig = f"{o} {d} {type(s).__name__} {'r' if left else 'l'}"
    src.note(f"{s} {o} {A!r}" if left else f"{A!r} {o} {s}")
    src.nontrivial = A.n.size > 0
    f = CM[o]
    differential(src, o, (lambda: f(s, A.r)) if left else (lambda: f(A.r, s)), (lambda: f(s, A.n)) if left else (lambda: f(A.n, s)), exact=True)


def bitw(src):
    d = src.choice(G.INTS)
    o = src.choice(list(BI))
    s = src.choice([1, 2, 3, 0, 5, 7])
    left = src.bool(0.4)
    A = G.array(src, d, G.shape(src), "nonneg" if o in ("<<", ">>") and left else "any", bcast=True)
    src.sig = f"{o} {d} {'r' if left else 'l'}"
    src.note(f"{s} {o} {A!r}" if left else f"{A!r} {o} {s}")
    src.nontrivial = A.n.size > 0
    f = BI[o]
    differential(src, o, (lambda: f(s, A.r)) if left else (lambda: f(A.r, s)), (lambda: f(s, A.n)) if left else (lambda: f(A.n, s)), exact=True)


def cplx(src):
    d = src.choice(G.COMPLEX)
    o = src.choice(["+", "-", "*", "/"])
    s = src.choice([1.0, 2.5, -1.5, 2, 1 + 2j, -0.5j, 3 - 1j])
    left = src.bool(0.5)
    A = G.array(src, d, G.shape(src), "nz", bcast=True)
    src.sig = f"{o} {d} {type(s).__name__} {'r' if left else 'l'}"
    src.note(f"{s} {o} {A!r}" if left else f"{A!r} {o} {s}")
    src.nontrivial = A.n.size > 0
    f = AR[o]
    differential(src, o, (lambda: f(s, A.r)) if left else (lambda: f(A.r, s)), (lambda: f(s, A.n)) if left else (lambda: f(A.n, s)))


def chain(src):
    """A chained expression over one array with scalars: the intermediate results feed the next operator."""
    d = src.choice(["float64", "float32", "int64", "int32"])
    A = G.array(src, d, G.shape(src), "small", bcast=True)
    n, r = A.n, A.r
    txt = "x"
    src.sig = f"chain {d}"
    for _ in range(src.int(1, 5)):
        o = src.choice(["+", "-", "*", "+x", "*x", "-x", "rsub", "neg", "cmpmask"])
        s = src.choice([1, 2, 3])
        if o in ("+", "-", "*"):
            r, n = AR[o](r, s), AR[o](n, s)
        elif o in ("+x", "*x", "-x"):
            r, n = AR[o[0]](r, A.r), AR[o[0]](n, A.n)
        elif o == "rsub":
            r, n = s - r, s - n
        elif o == "neg":
            r, n = -r, -n
        else:
            r, n = r * (A.r > s), n * (A.n > s)
        txt += f" {o}{s}"
    src.note(f"{txt} with x={A!r}")
    src.nontrivial = A.n.size > 0
    differential(src, txt, lambda: r, lambda: n, rtol=1e-5)


UF = {"add": 1, "subtract": 1, "multiply": 1, "divide": 1, "floor_divide": 1, "remainder": 1, "maximum": 1, "minimum": 1,
      "fmax": 1, "fmin": 1, "arctan2": 0, "hypot": 0, "copysign": 1, "fmod": 1}


def ufunc(src):
    fn = src.choice(list(UF))
    d = src.choice(G.FLOATS + (G.INTS if fn not in ("arctan2", "hypot", "copysign") else ["int64"]))
    s = scal(src, d, ["int", "float"])
    left = src.bool(0.4)
    A = G.array(src, d, G.shape(src), "any", bcast=True)
    src.sig = f"{fn} {d} {type(s).__name__} {'r' if left else 'l'}"
    src.label(fn)
    src.note(f"{fn}({s}, {A!r})" if left else f"{fn}({A!r}, {s})")
    src.nontrivial = A.n.size > 0
    f, g = getattr(rp, fn), getattr(np, fn)
    differential(src, fn, (lambda: f(s, A.r)) if left else (lambda: f(A.r, s)),
                 (lambda: g(s, A.n)) if left else (lambda: g(A.n, s)), exact=bool(UF[fn]))


FACETS = {"ufunc": Facet(ufunc, 12000), "arith": Facet(arith, 24000), "comp": Facet(comp, 12000), "bitw": Facet(bitw, 8000), "cplx": Facet(cplx, 4000),
          "chain": Facet(chain, 6000)}
