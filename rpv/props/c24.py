"""C24: the answer depends on the elements of an array, not on its memory layout."""
import numpy as np
import rumpy as rp
from ..engine import Violation, Discard
from ..facet import Facet
from .. import gen as G
from .. import table as T
from ..cmp import run, Err, show, compare, TOL

RULE = ("a call drawn from a table of several hundred expressions over the public interface, applied to views (transposed, sliced with any "
        "step, offset into a larger base, broadcast) and to contiguous copies of the same elements; non-trivial = at least one operand "
        "is not C-contiguous and the call returns")
ASSUMPTIONS = ["sums may round differently along another memory order: rounding allowance for the expressions marked so"]


def src_tol(src, nb):
    """Allowance of the coarser of the operands' and the result's precision."""
    return max(TOL.get(str(nb.dtype), 0), TOL.get(src.sig.split(" ")[-2], 0))


def same(src, what, a, b, approx, scale):
    """Both results of rumpy itself: same structure, shape, dtype, values."""
    if isinstance(b, (tuple, list)):
        if not isinstance(a, (tuple, list)) or len(a) != len(b):
            raise Violation("layout", f"{what}: {show(a)} for the view, {show(b)} for the copy")
        for p, q in zip(a, b):
            same(src, what, p, q, approx, scale)
        return
    if isinstance(b, rp.ndarray) != isinstance(a, rp.ndarray):
        raise Violation("layout", f"{what}: {show(a)} for the view, {show(b)} for the copy")
    nb = np.asarray(b)
    if nb.dtype.kind == "O":
        if a != b:
            raise Violation("layout", f"{what}: {show(a)} for the view, {show(b)} for the copy")
        return
    ap = approx and nb.dtype.kind in "fc"
    compare(what + " (view against copy)", a, np.array(nb), exact=not ap, atol=scale * src_tol(src, nb) if ap else None, rtol=src_tol(src, nb) if ap else None)


def view(src):
    g, e = src.choice(T.EXPRS)
    d, x, y, v = T.draw(src, g)
    ops = [o for o in (x, y) if o is not None]
    if all(o.lay == "C" for o in ops):
        raise Discard("contiguous")
    c = [rp.asarray(np.ascontiguousarray(o.n).reshape(o.n.shape)) for o in ops] + [None]
    src.sig = f"{e} {d} {len(x.n.shape)}"
    src.label(g["name"])
    src.note(f"{e} with x={x!r}" + (f", y={y!r}" if y is not None else "") + f" {v}")
    yr = y.r if y is not None else None
    b = run(lambda: T.call(e, rp, c[0], c[1], v))
    a = run(lambda: T.call(e, rp, x.r, yr, v))
    if isinstance(b, Err):
        if not isinstance(a, Err):
            raise Violation("layout", f"{e}: {show(a)} for the view, {b} for the copy")
        raise Discard("refused")
    if isinstance(a, Err):
        raise Violation("layout", f"{e}: {a} for the view, {show(b)} for the copy")
    src.nontrivial = True
    big = max([1.0] + [float(np.nanmax(np.abs(o.n.astype("complex128")))) for o in ops if o.n.size and o.n.dtype.kind in "fciub" and np.isfinite(o.n).any()])
    same(src, e, a, b, g["approx"], 16.0 * big * big * max(x.n.size, 1) if np.isfinite(big) else 1.0)


FACETS = {"view": Facet(view, 120000)}
