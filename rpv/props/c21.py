"""C21: text arrays."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from ..cmp import differential, compare, run, Err, show

RULE = ("a string function applied to a text array of drawn contents (ASCII, accented, non-Latin, white space, empty strings, embedded nulls), width, shape and "
        "layout; non-trivial = at least one non-empty string in the operand")
ASSUMPTIONS = ["Python's str methods are the reference; characters whose case mapping is not one to one, and digits outside ASCII, are not judged (the source documents the first, the second are known findings)",
               "the width of a result's dtype is not judged, only its strings"]
C = rp.char
LET = "abcABCxyzXYZ"
ALPHA = {"ascii": "abAB c1-", "words": "aB zQ9_.\t", "latin": "éÉñÑaA Ж ж", "cjk": "日本語a 1", "space": " \t\n\r\x0b\x0c\x1c\x1f\u2003a\xa0", "digits": "0123456789-+ .", "rep": "ab", "emoji": "a😀 é"}


def word(src, alpha, hi):
    n = src.weighted([(2, 0), (4, 1), (5, 2), (5, 3), (3, 5), (2, 8)])
    return "".join(src.choice(alpha) for _ in range(min(n, hi)))


def text(src, alpha=None, shp=None, nul=False, hi=9):
    a = ALPHA[alpha or src.choice(list(ALPHA))]
    shp = G.shape(src, 0 if src.bool(0.1) else 1, 3, maxdim=4, maxsize=24) if shp is None else shp
    if len(shp) == 1 and shp[0] > 24:
        shp = (24,)
    n = int(np.prod(shp, dtype=int))
    ws = [word(src, a, hi) for _ in range(n)]
    if nul:
        ws = [w[:1] + "\0" + w[1:] if len(w) > 1 and src.bool(0.4) else w for w in ws]
    w = max([len(x) for x in ws] + [1]) + src.weighted([(6, 0), (1, 1), (1, 5)])
    v = np.array(ws, dtype=f"U{w}").reshape(shp)
    A = G.array(src, f"U{w}", shp, vals=v, bcast=False)
    src.nontrivial = any(ws)
    return A


def piece(src, A):
    """A string to look for: usually part of an element."""
    f = A.n.ravel()
    if f.size and src.bool(0.7):
        s = str(f[src.int(0, f.size - 1)])
        if s:
            i = src.int(0, len(s) - 1)
            return s[i:i + src.weighted([(5, 1), (4, 2), (2, 3), (1, 8)])].replace("\0", "")
    return src.choice(["", "a", "ab", "B", " ", "ba", "aa", "é", "😀", "aba", "1", "-", "zzzzzzzzzzzz"])


def each(A, f, dtype=None):
    flat = [f(str(x)) for x in A.n.ravel()]
    return np.array(flat, dtype=dtype).reshape(A.n.shape) if dtype else flat


def check(src, what, r, A, f, kind):
    r = run(r)
    exp = run(lambda: each(A, f))
    if isinstance(exp, Err):
        if not isinstance(r, Err):
            raise Violation("accepts-invalid", f"{what}: {exp} expected, got {show(r)}")
        if r.panic:
            raise Violation("panic", f"{what}: {r}")
        return
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{what}: {r}; expected {exp}")
    g = np.asarray(r)
    if g.shape != A.n.shape or (g.dtype.kind != kind):
        raise Violation("dtype", f"{what}: got {g.dtype}{g.shape}, expected kind {kind} {A.n.shape}")
    got = [str(x) if kind == "U" else x for x in g.ravel().tolist()]
    exp = [x.rstrip("\0") for x in exp] if kind == "U" else exp
    if got != exp:
        i = next(i for i, (a, b) in enumerate(zip(got, exp)) if a != b)
        raise Violation("value", f"{what}: element {i} of {A!r}: got {got[i]!r}, expected {exp[i]!r}")


def begin(src, name, A, *more):
    src.sig = f"{name} {A.n.dtype} {A.n.ndim} {A.lay[:5]} {len(more)}"
    src.note(f"{name}({A!r}{''.join(', ' + repr(m) for m in more)})")


def unary(src):
    """Case, predicates, length and white space stripping."""
    f = src.choice(["upper", "lower", "swapcase", "capitalize", "title", "isalpha", "isdigit", "isalnum", "isupper", "islower", "isspace", "isdecimal", "isnumeric", "istitle",
                    "str_len", "strip", "lstrip", "rstrip", "expandtabs"])
    nul = f in ("upper", "lower", "str_len", "swapcase") and src.bool(0.1)
    A = text(src, nul=nul)
    b0 = A.nbase.copy()
    arg = ()
    if f.endswith("strip") and src.bool(0.6):
        arg = (src.choice([None, "a", "ab", " a", "", "Aé", "-+0", "abAB c1-"]),)
    if f == "expandtabs" and src.bool(0.7):
        arg = (src.choice([1, 2, 4, 8, 3]),)
    begin(src, f, A, *arg)
    if f in ("isnumeric",) and any("\u4e00" <= c for w in A.n.ravel() for c in str(w)):
        raise Discard("CJK numerals")
    if f == "str_len":
        check(src, f, lambda: C.str_len(A.r), A, len, "i")
    elif f.startswith("is"):
        check(src, f, lambda: getattr(C, f)(A.r), A, lambda s: getattr(s, f)(), "b")
    else:
        check(src, f, lambda: getattr(C, f)(A.r, *arg), A, lambda s: getattr(s, f)(*arg), "U")
    if f in ("lower", "upper", "strip", "title"):
        compare(f"{f} twice", getattr(C, f)(getattr(C, f)(A.r)), np.asarray(getattr(C, f)(A.r)), dtype="any")
    if A.nbase.size:
        compare("the operand afterwards", A.rbase, b0, exact=True, dtype="any")


def search(src):
    """find, rfind, index, rindex, count, startswith, endswith with start and end."""
    f = src.choice(["find", "rfind", "index", "rindex", "count", "startswith", "endswith"])
    A = text(src, src.choice(["rep", "rep", None]), nul=src.bool(0.1))
    sub = piece(src, A)
    kw = []
    if src.bool(0.5):
        kw.append(src.choice([0, 1, 2, 3, -1, -2, 10, -10, None]))
        if src.bool(0.7):
            kw.append(src.choice([0, 1, 2, 3, 5, -1, -2, 10, -10, None]))
    begin(src, f, A, sub, *kw)
    check(src, f"{f}({sub!r}, {kw})", lambda: getattr(C, f)(A.r, sub, *kw), A, lambda s: getattr(s, f)(sub, *kw), "b" if f.endswith("with") else "i")


def build(src):
    """Joining, padding, repeating, replacing, partitioning."""
    f = src.choice(["add", "multiply", "center", "ljust", "rjust", "zfill", "replace", "partition", "rpartition", "join"])
    A = text(src, src.choice(["rep", "digits" if f == "zfill" else None, None]))
    if f == "add":
        B = text(src, shp=A.n.shape)
        begin(src, f, A, B)
        it = iter(B.n.ravel().tolist())
        check(src, f, lambda: C.add(A.r, B.r), A, lambda s: s + next(it), "U")
    elif f == "multiply":
        k = src.int(0, 4)
        begin(src, f, A, k)
        check(src, f, lambda: C.multiply(A.r, k), A, lambda s: s * k, "U")
    elif f in ("center", "ljust", "rjust"):
        w = src.int(0, 13)
        fill = src.choice([None, "*", "é", "日", " "])
        a = (w,) if fill is None else (w, fill)
        begin(src, f, A, *a)
        check(src, f"{f}{a}", lambda: getattr(C, f)(A.r, *a), A, lambda s: getattr(s, f)(*a), "U")
    elif f == "zfill":
        w = src.int(0, 13)
        begin(src, f, A, w)
        check(src, f"zfill({w})", lambda: C.zfill(A.r, w), A, lambda s: s.zfill(w), "U")
    elif f == "replace":
        old, new = piece(src, A), src.choice(["", "X", "ab", "aa", "日本", "longer text"])
        a = (old, new) + ((src.int(0, 3),) if src.bool() else ())
        begin(src, f, A, *a)
        check(src, f"replace{a}", lambda: C.replace(A.r, *a), A, lambda s: s.replace(*a), "U")
    elif f == "join":
        sep = src.choice(["-", "", "ab", ", ", "日"])
        begin(src, f, A, sep)
        check(src, f"join({sep!r})", lambda: C.join(sep, A.r), A, lambda s: sep.join(s), "U")
    else:
        sep = piece(src, A)
        begin(src, f, A, sep)
        r = run(lambda: getattr(C, f)(A.r, sep))
        if not sep:
            if not isinstance(r, Err) or r.panic:
                raise Violation("accepts-invalid", f"{f} with an empty separator: {r!r}")
            return
        exp = np.array([getattr(str(s), f)(sep) for s in A.n.ravel()], dtype="U40").reshape(A.n.shape + (3,))
        if isinstance(r, Err):
            raise Violation("raises", f"{f}: {r}")
        g = np.asarray(r)
        if g.shape != exp.shape or g.tolist() != exp.tolist():
            raise Violation("value", f"{f}({sep!r}): got {show(r)}, expected {show(exp)}")


def relation(src):
    """char comparisons ignore trailing white space; operators compare code points."""
    f = src.choice(["equal", "not_equal", "less", "less_equal", "greater", "greater_equal"])
    A = text(src, "ascii" if src.bool() else None, hi=3)
    B = text(src, "ascii", shp=A.n.shape, hi=3)
    if src.bool(0.4) and A.n.size:   # equal up to padding
        v = np.array([str(x) + src.choice(["", " ", "\t", "a"]) for x in A.n.ravel()]).reshape(A.n.shape)
        B = G.array(src, str(v.dtype)[1:], v.shape, vals=v)
    op = {"equal": "__eq__", "not_equal": "__ne__", "less": "__lt__", "less_equal": "__le__", "greater": "__gt__", "greater_equal": "__ge__"}[f]
    begin(src, f, A, B)
    it = iter(B.n.ravel().tolist())
    check(src, f"char.{f}", lambda: getattr(C, f)(A.r, B.r), A, lambda s: getattr(s.rstrip(), op)(next(it).rstrip()), "b")
    it2 = iter(B.n.ravel().tolist())
    check(src, f"operator {op}", lambda: getattr(A.r, op)(B.r), A, lambda s: getattr(s, op)(next(it2)), "b")


def structure(src):
    """Sorting, indexing, joining and converting text (str and bytes) moves whole strings."""
    A = text(src, nul=src.bool(0.15))
    byt = src.bool(0.3)
    if byt:
        v = np.array([str(x).encode("ascii", "replace") for x in A.n.ravel()], dtype=f"S{A.n.dtype.itemsize // 4}").reshape(A.n.shape)
        A = G.array(src, str(v.dtype)[1:], v.shape, vals=v)
    f = src.choice(["copy", "tolist", "reverse", "sort", "argsort", "unique", "concat", "where", "take", "reshape", "transpose", "roll", "repeat", "eq", "astype", "index", "stack", "flip", "tile", "item"])
    src.sig = f"{f} {A.n.dtype} {A.n.ndim} {A.lay[:5]}"
    src.note(f"{f}: {A!r}")
    b0 = A.nbase.copy()
    nd = A.n.ndim

    def go(rf, nf, **k):
        n = nf()
        r = run(rf)
        if isinstance(r, Err):
            raise Violation("panic" if r.panic else "raises", f"{f}: {r}; expected {show(n)}")
        g = np.asarray(r)
        if g.shape != n.shape or g.dtype.kind != n.dtype.kind or g.tolist() != n.tolist() or k.get("width", True) and n.dtype.kind in "US" and g.dtype != n.dtype:
            raise Violation("value", f"{f}: got {show(r)}, expected {show(n)}")
    if f == "copy":
        go(lambda: A.r.copy(), lambda: A.n.copy())
    elif f == "tolist":
        if A.r.tolist() != A.n.tolist():
            raise Violation("value", f"tolist: got {A.r.tolist()!r}, expected {A.n.tolist()!r}")
        return
    elif f == "item":
        if A.n.size and A.n.ndim:
            i = tuple(src.int(0, d - 1) for d in A.n.shape)
            g = A.r[i]
            g = g.tolist() if isinstance(g, rp.ndarray) else g
            if g != A.n[i]:
                raise Violation("value", f"x[{i}] is {g!r}, expected {A.n[i]!r}")
        return
    elif f == "reverse":
        if nd:
            go(lambda: A.r[::-1].copy(), lambda: A.n[::-1].copy())
    elif f == "sort":
        if nd:
            go(lambda: rp.sort(A.r), lambda: np.sort(A.n))
    elif f == "argsort":
        if nd:
            i = np.asarray(rp.argsort(A.r))
            s = np.take_along_axis(A.n, i, -1)
            if s.tolist() != np.sort(A.n).tolist():
                raise Violation("value", f"argsort: gives {i.tolist()}")
    elif f == "unique":
        go(lambda: rp.unique(A.r), lambda: np.unique(A.n))
    elif f in ("concat", "stack"):
        if nd and A.n.shape[0] and not byt:
            B = text(src, shp=A.n.shape)
            if f == "stack":
                go(lambda: rp.stack([A.r, B.r]), lambda: np.stack([A.n, B.n]))
            else:
                ax = src.int(0, nd - 1)
                go(lambda: rp.concatenate([A.r, B.r], axis=ax), lambda: np.concatenate([A.n, B.n], axis=ax))
    elif f == "where":
        if not byt:
            B = text(src, shp=A.n.shape)
            M = G.array(src, "bool", A.n.shape)
            go(lambda: rp.where(M.r, A.r, B.r), lambda: np.where(M.n, A.n, B.n))
    elif f == "take":
        if A.n.size:
            ix = [src.int(0, A.n.size - 1) for _ in range(src.int(1, 5))]
            go(lambda: rp.take(A.r, rp.array(ix)), lambda: np.take(A.n, ix))
    elif f == "reshape":
        go(lambda: A.r.reshape(-1) if A.n.size else A.r.copy(), lambda: A.n.reshape(-1) if A.n.size else A.n)
    elif f == "transpose":
        go(lambda: A.r.T.copy(), lambda: A.n.T.copy())
    elif f in ("roll", "repeat"):
        k = src.int(0, 3)
        if nd:
            go(lambda: getattr(rp, f)(A.r, k, axis=0), lambda: getattr(np, f)(A.n, k, axis=0))
    elif f == "flip":
        if nd:
            go(lambda: rp.flip(A.r, 0), lambda: np.flip(A.n, 0))
    elif f == "tile":
        go(lambda: rp.tile(A.r, 2), lambda: np.tile(A.n, 2))
    elif f == "eq":
        go(lambda: A.r == A.r, lambda: A.n == A.n)
    elif f == "index":
        if nd and A.n.shape[0]:
            ix = [src.int(0, A.n.shape[0] - 1) for _ in range(src.int(1, 5))]
            go(lambda: A.r[rp.array(ix)], lambda: A.n[ix])
    elif f == "astype":
        w = src.int(1, 8)
        if not byt:
            go(lambda: A.r.astype(f"U{w}"), lambda: A.n.astype(f"U{w}"))
    if A.nbase.size:
        compare("the operand afterwards", A.rbase, b0, exact=True, dtype="any")


def refuse(src):
    """Functions of text refuse other arrays; arithmetic refuses text."""
    src.nontrivial = True
    N = G.array(src, src.choice(G.ALL), (src.int(1, 4),), "tiny")
    A = text(src, shp=N.n.shape)
    k = src.choice(["fn", "fn", "arith", "ufunc", "fill", "reduce", "astype"])
    if k == "fn":
        f = src.choice(["upper", "lower", "swapcase", "capitalize", "title", "isalpha", "isdigit", "isalnum", "isupper", "islower", "isspace", "isdecimal", "isnumeric", "istitle", "str_len",
                        "strip", "lstrip", "rstrip", "expandtabs", "find", "count", "startswith", "endswith", "add", "multiply", "center", "zfill", "replace", "join", "equal", "less", "partition"])
        a = {"find": ("a",), "count": ("a",), "startswith": ("a",), "endswith": ("a",), "add": (A.r,), "multiply": (2,), "center": (5,), "zfill": (5,), "replace": ("a", "b"), "equal": (A.r,), "less": (A.r,),
             "partition": ("a",)}.get(f, ())
        call = (lambda: C.join("-", N.r)) if f == "join" else lambda: getattr(C, f)(N.r, *a)
    elif k == "arith":
        f = src.choice(["+", "-", "*", "/", "//", "%", "**", "-x", "abs", "*2", "+1.5", "2*", "s+s", "s*s"])
        s, n = A.r, N.r
        call = {"+": lambda: s + n, "-": lambda: n - s, "*": lambda: s * n, "/": lambda: s / n, "//": lambda: n // s, "%": lambda: s % n, "**": lambda: s ** n, "-x": lambda: -s, "abs": lambda: abs(s), "*2": lambda: s * 2,
                "+1.5": lambda: s + 1.5, "2*": lambda: 2 * s, "s+s": lambda: s - s, "s*s": lambda: s * s}[f]
    elif k == "ufunc":
        f = src.choice(["sqrt", "exp", "sin", "negative", "abs", "square", "floor", "sign", "isnan", "isfinite", "log", "reciprocal", "add", "subtract", "multiply", "maximum", "arctan2", "power"])
        two = f in ("add", "subtract", "multiply", "maximum", "arctan2", "power")
        g = getattr(rp, f)
        if f in ("add", "maximum"):
            call = lambda: g(A.r, N.r)
        else:
            call = (lambda: g(A.r, N.r) if src.bool() else g(N.r, A.r)) if two else lambda: g(A.r)
    elif k == "astype":
        f = src.choice(G.ALL + ["S5", "U5<"])
        call = (lambda: N.r.astype("U5")) if f == "U5<" else lambda: A.r.astype(f)
    elif k == "fill":
        f = src.choice(["center", "ljust", "rjust"])
        call = lambda: getattr(C, f)(A.r, 5, src.choice(["ab", ""]))
    else:
        f = src.choice(["sum", "prod", "mean", "std", "var", "cumsum", "cumprod"])
        call = (lambda: getattr(rp, f)(A.r)) if src.bool() else (lambda: getattr(rp, f)(A.r, axis=0))
    src.sig = f"{k} {f} {N.n.dtype}"
    src.note(f"{k} {f}: {N!r}, {A!r}")
    r = run(call)
    if not isinstance(r, Err):
        raise Violation("accepts-invalid", f"{k} {f}: gave {show(r)}")
    if r.panic:
        raise Violation("panic", f"{k} {f}: {r}")


FACETS = {
    "unary": Facet(unary, 6000),
    "search": Facet(search, 6000),
    "build": Facet(build, 6000),
    "relation": Facet(relation, 2500),
    "structure": Facet(structure, 5000),
    "refuse": Facet(refuse, 2500),
}
