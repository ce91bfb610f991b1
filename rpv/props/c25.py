"""C25: an operation changes what it is meant to change and nothing else; temporaries, views and results never get mixed up."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from .. import table as T
from ..cmp import run, Err, show, compare

RULE = ("pure: a call from a table of several hundred expressions, the operands (and the memory around them) compared bit by bit before and "
        "after, then every array of the result overwritten; history: a program of up to 14 statements over named arrays, views, containers "
        "and nested temporaries, of up to 40000 elements; overlap: an in-place statement whose operands are views of one array; "
        "non-trivial = the call returns an array / the program runs to its end with at least one view and one write")
ASSUMPTIONS = ["NumPy 2.3.5 decides which results are views of an operand; the elementwise operations of the programs are exact"]


def leaves(r, out=None):
    if out is None:
        out = []
    if isinstance(r, (tuple, list)):
        for v in r:
            leaves(v, out)
    elif isinstance(r, (rp.ndarray, np.ndarray)):
        out.append(r)
    return out


def bits(a):
    return np.array(np.asarray(a)).tobytes()


def pure(src):
    g, e = src.choice(T.EXPRS)
    d, x, y, v = T.draw(src, g, small=True)
    src.sig = f"{e} {d} {len(x.n.shape)} {x.lay[:4]}"
    src.label(g["name"])
    src.note(f"{e} with x={x!r}" + (f", y={y!r}" if y is not None else "") + f" {v}")
    ops = [o for o in (x, y) if o is not None]
    before = [(bits(o.rbase), bits(o.r), o.r.shape, o.r.strides) for o in ops]

    def unchanged(when):
        for name, o, b in zip("xy", ops, before):
            if (bits(o.rbase), bits(o.r), o.r.shape, o.r.strides) != b:
                raise Violation("mutated", f"{e}: {name} or the array it is a view of changed {when}; {name} is now {show(o.r)}")

    r = run(lambda: T.call(e, rp, x.r, y.r if y is not None else None, v))
    unchanged("during the call")
    if isinstance(r, Err):
        raise Discard("refused")
    n = run(lambda: T.call(e, np, x.n, y.n if y is not None else None, v))
    rl, nl = leaves(r), leaves(n)
    known = len(rl) == len(nl)
    scalars = isinstance(n, np.generic) or isinstance(n, (list, tuple)) and any(isinstance(q, np.generic) for q in n)
    if not isinstance(n, Err) and not known and any(np.shares_memory(q, o.nbase) for q in nl for o in ops if o.nbase is not None):
        raise Discard("other structure")
    views = [i for i, a in enumerate(nl) if any(np.may_share_memory(a, o.nbase if o.nbase is not None else o.n) for o in ops)] if known else []
    for i, a in enumerate(rl):
        if a.size == 0 or (isinstance(a, rp.ndarray) and a.dtype in ("object",)):
            continue
        if i in views or isinstance(a, np.ndarray) or (scalars and a.ndim == 0):  # an element is a 0-d view here
            continue
        src.nontrivial = True
        others = [(j, bits(o)) for j, o in enumerate(rl) if j != i]
        want = np.array(np.asarray(a))
        pos = tuple(src.below(k) for k in want.shape)
        new = fresh(want, pos)
        w = run(lambda: a.__setitem__(pos if pos else Ellipsis, new))
        if isinstance(w, Err):
            if w.panic:
                raise Violation("panic", f"{e}: writing {new!r} at {pos} of the result: {w}")
            src.label("result not writable")
            continue
        want[pos] = new
        got = np.asarray(a)
        if not G.same_bits(got.reshape(want.shape), want):
            raise Violation("aliased", f"{e}: after writing {new!r} at {pos} of result {i}, it is {show(a)}, expected {show(want)}")
        unchanged(f"after a write at {pos} of result {i}")
        for j, b in others:
            if bits(rl[j]) != b and not (known and np.may_share_memory(nl[i], nl[j])):
                raise Violation("aliased", f"{e}: result {j} changed after a write to result {i}")


def fresh(a, pos):
    """A value different from the present one at pos."""
    k = a.dtype.kind
    if k == "b":
        return not a[pos]
    if k in "iu":
        return 3 if a[pos] != 3 else 4
    if k in "fc":
        return 3.0 if a[pos] != 3 else 4.0
    if k == "U":
        return "q" if a[pos] != "q" else "r"
    if k == "S":
        return b"q" if a[pos] != b"q" else b"r"
    return np.array(77, dtype=a.dtype)[()] if a[pos].astype("i8") != 77 else np.array(78, dtype=a.dtype)[()]


# ---------------------------------------------------------------- programs
CONST = {"float64": ["1", "2", "0.5", "-3", "1.5"], "float32": ["1", "2", "0.5", "-3", "1.5"], "int64": ["1", "2", "-3", "7"], "int32": ["1", "2", "-3", "7"],
         "complex128": ["1", "2", "-3", "1j", "0.5"]}


class Prog:
    def __init__(self, src, d, square):
        self.src, self.d, self.square = src, d, square
        self.live = ["a", "b"]
        self.held = 0
        self.views = self.writes = 0
        self.lines = []

    def atom(self):
        s = self.src
        v = s.choice(self.live)
        k = s.weighted([(6, "v"), (2, "rev"), (2, "T"), (1, "cp"), (1, "slice"), (1, "resh")])
        if k == "v":
            return v
        self.views += 1
        if k == "rev":
            return f"{v}[::-1]"
        if k == "T":
            return f"{v}.T" if self.square else f"{v}.ravel()"
        if k == "cp":
            return f"{v}.copy()"
        if k == "slice":
            return f"{v}[:]"
        return f"{v}.copy().reshape(-1).reshape({v}.shape)"

    def expr(self, depth=2):
        s = self.src
        if depth == 0:
            return self.atom()
        k = s.weighted([(4, "op"), (4, "const"), (1, "rconst"), (2, "call"), (1, "neg"), (1, "rev"), (1, "lam"), (2, "atom"), (1, "where"), (1, "T")])
        if k == "atom":
            return self.atom()
        o = s.choice(["+", "-", "*"])
        if k == "op":
            return f"({self.expr(depth - 1)} {o} {self.expr(depth - 1)})"
        c = s.choice(CONST[self.d])
        if k == "const":
            return f"({self.expr(depth - 1)} {o} {c})"
        if k == "rconst":
            return f"({c} {o} {self.expr(depth - 1)})"
        if k == "neg":
            return f"(-{self.expr(depth - 1)})"
        if k == "rev":
            return f"({self.expr(depth - 1)})[::-1]"
        if k == "T":
            e = self.expr(depth - 1)
            return f"({e}).T" if self.square else f"({e}).ravel()"
        if k == "lam":
            return f"(lambda q: q {o} {c})({self.expr(depth - 1)})"
        if k == "where":
            return f"m.where({self.expr(depth - 1)} == {self.atom()}, {self.atom()}, {self.atom()})"
        if self.d[0] == "c":
            return f"m.{s.choice(['add', 'subtract', 'multiply'])}({self.expr(depth - 1)}, {self.expr(depth - 1)})"
        f = s.choice(["add", "subtract", "multiply", "maximum", "minimum", "abs", "negative", "square"])
        if f in ("abs", "negative", "square"):
            return f"m.{f}({self.expr(depth - 1)})"
        return f"m.{f}({self.expr(depth - 1)}, {self.expr(depth - 1)})"

    def statement(self):
        s = self.src
        k = s.weighted([(6, "let"), (3, "iop"), (3, "set"), (2, "setop"), (1, "del"), (2, "hold"), (2, "unhold"), (1, "swap"), (1, "two"), (1, "loop"), (1, "fill"), (1, "iopall")])
        if k == "let":
            v = s.choice("abcde")
            e = self.expr(s.int(1, 3))
            if v not in self.live:
                self.live.append(v)
            return f"{v} = {e}"
        v = s.choice(self.live)
        if k == "iop":
            self.writes += 1
            return f"{v}[...] = {v} {s.choice(['+', '-', '*'])} {self.expr(s.int(0, 2))}"
        if k == "iopall":
            self.writes += 1
            return f"{v}[:] {s.choice(['+=', '-=', '*='])} {s.choice(CONST[self.d][:2])}"
        if k in ("set", "setop"):
            self.writes += 1
            lo, hi = s.choice([("1:", ":-1"), (":-1", "1:"), ("::2", "::2"), (":", "::-1"), ("3:9", "2:8"), (":", ":")])
            o = "=" if k == "set" else s.choice(["+=", "-="])
            e = self.expr(s.int(0, 1))
            return f"{v}[{lo}] {o} {e if e in self.live else '(' + e + ')'}[{hi}]"
        if k == "del":
            if len(self.live) < 2:
                return "pass"
            self.live.remove(v)
            return f"del {v}"
        if k == "hold":
            self.held += 1
            return f"h.append({self.expr(s.int(0, 2))})"
        if k == "unhold":
            if not self.held:
                return "pass"
            self.held -= 1
            t = s.choice("abcde")
            e = self.expr(1)
            if t not in self.live:
                self.live.append(t)
            return f"{t} = h.pop() {s.choice(['+', '-', '*'])} {e}"
        if k == "swap":
            w = s.choice(self.live)
            return f"{v}, {w} = {w}, {v}"
        if k == "two":
            t = s.choice("abcde")
            e = self.expr(2)
            if t not in self.live:
                self.live.append(t)
            return f"{t} = {v} = {e}" if t != v else f"{v} = {e}"
        if k == "loop":
            o = s.choice(["+", "-"])
            return f"for _ in range(2): {v} = {v} {o} {s.choice(CONST[self.d])} {o} {s.choice(self.live)}"
        self.writes += 1
        return f"{v}[{s.choice(['0', '-1', '2:5'])}] = {s.choice(CONST[self.d])}"


def history(src):
    d = src.weighted([(6, "float64"), (3, "int64"), (2, "float32"), (1, "complex128"), (1, "int32")])
    size = src.weighted([(4, "small"), (5, "large"), (2, "edge")])
    square = src.bool(0.4)
    if size == "small":
        shp = (src.int(9, 14),) * 2 if square else (src.int(10, 40),)
    elif size == "large":
        shp = (src.choice([182, 200]),) * 2 if square else (src.choice([33000, 32769, 40000]),)
    else:
        shp = (181, 181) if square else (src.choice([32767, 32768]),)
    p = Prog(src, d, square)
    n = src.int(1, 14)
    a0 = G.values(src, d, int(np.prod(shp)), "small").reshape(shp)
    b0 = G.values(src, d, int(np.prod(shp)), "small").reshape(shp)
    body = []
    for i in range(n):
        body.append("    " + p.statement())
        body.append(f"    snap({', '.join(p.live)}, *h)")
    text = "def prog(m, a, b, snap):\n    h = []\n" + "\n".join(body) + "\n"
    src.sig = f"history {d} {shp}"
    src.label(size)
    shown = "; ".join(l.strip() for l in body if "snap(" not in l)
    src.note(f"a, b {d}{shp} = {a0.ravel()[:3]}.., {b0.ravel()[:3]}..; {shown}")
    ns = {}
    exec(compile(text, "<program>", "exec"), ns)

    def play(m, a, b):
        log = []

        def snap(*vs):
            log.append([np.array(np.asarray(v)) for v in vs])
        with np.errstate(all="ignore"):
            ns["prog"](m, a, b, snap)
        return log

    want = run(lambda: play(np, a0.copy(), b0.copy()))
    if isinstance(want, Err):
        raise Discard("ref-refuses")
    got = run(lambda: play(rp, rp.asarray(a0), rp.asarray(b0)))
    lines = [l.strip() for l in body if "snap(" not in l]
    if isinstance(got, Err):
        raise Violation("panic" if got.panic else "raises", f"{got}")
    src.nontrivial = p.views > 0 and p.writes > 0
    for i, (g, w) in enumerate(zip(got, want)):
        for k, (x, y) in enumerate(zip(g, w)):
            if x.dtype != y.dtype or x.shape != y.shape:
                raise Violation("history", f"after statement {i + 1} ({lines[i]}): array {k} is {x.dtype}{x.shape}, expected {y.dtype}{y.shape}")
            if not G.same_bits(x, y):
                bad = np.argwhere((x != y) & ~((x != x) & (y != y)))
                q = tuple(bad[0])
                raise Violation("history", f"after statement {i + 1} ({lines[i]}): array {k} differs in {len(bad)} elements, first {list(map(int, q))}: got {x[q]!r}, expected {y[q]!r}")


# ---------------------------------------------------------------- overlapping operands
OVER = ["p[:] += q", "p[:] -= q", "p[:] *= q", "p[...] = q", "p[:] = q + 1", "m.copyto(p, q)", "p[::-1] = q", "p[:] += q[::-1]", "m.copyto(p, q + p)", "p[:] = q[::-1]", "p[:2] = q[-2:]",
        "m.putmask(p, p == p, q)", "m.place(p, p == p, q)", "m.place(p, p == q, q)", "m.put(p, m.array([0, -1, 1]), q)", "p.put(m.array([0, -1, 1]), q)",
        "m.fill_diagonal(p, q)", "m.put_along_axis(p, (m.arange(p.shape[0]) * 3 + 1) % p.shape[0], p[::-1], axis=0)", "m.copyto(p, q, where=p == q)", "p[:] += p", "p[:] -= p[::-1]"]


def overlap(src):
    d = src.choice(["float64", "int64", "int32", "uint8", "float32", "complex128"])
    two = src.bool(0.4)
    n = src.weighted([(6, 8), (3, 5), (3, 17), (2, 40), (1, 300)])
    if two:
        n = min(n, 17)
        X = G.array(src, d, (n, n), "small", layout=src.bool(0.4))
        views = ["x", "x.T", "x[::-1]", "x[:, ::-1]", "x[::-1, ::-1]", "x.T[::-1]", "x[:][:]", "x[:1]", "x[:, :1]", "x[0]"]
    else:
        X = G.array(src, d, (n,), "small", layout=src.bool(0.4))
        m = src.int(1, n - 1)
        views = ["x", "x[::-1]", f"x[{m}:]", f"x[:{n - m}]", f"x[{m}:][::-1]", f"x[:{n - m}][::-1]", "x[::2]", "x[1::2]", "x[:1]", "x[:-1][::2]", "x[::-1][::2]"]
    p, q = src.choice(views), src.choice(views)
    st = src.choice(OVER)
    src.sig = f"overlap {st} {d} {p} {q}"
    src.note(f"x={X!r}; p = {p}; q = {q}; {st}")

    def play(m, x):
        env = {"m": m, "x": x}
        with np.errstate(all="ignore"):
            # the reference reads a copy: NumPy itself mishandles some overlapping 1-d assignments of different strides
            exec(f"p = {p}\nq = {q}\n" + (f"q_ = q; q = q.copy()\n{st}\nq = q_" if m is np else st), env)
        return env["p"], env["q"]

    w = run(lambda: play(np, X.n))
    if isinstance(w, Err):
        raise Discard("ref-refuses")
    r = run(lambda: play(rp, X.r))
    if isinstance(r, Err):
        raise Violation("panic" if r.panic else "raises", f"{st}: {r}; expected x = {show(X.n)}")
    src.nontrivial = True
    compare("x", X.r, X.n, exact=True)
    compare("p", r[0], w[0], exact=True)
    if X.rbase is not None:
        compare("base of x", X.rbase, X.nbase, exact=True)


FACETS = {"pure": Facet(pure, 40000), "history": Facet(history, 4000), "overlap": Facet(overlap, 20000)}
