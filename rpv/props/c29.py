"""C29: no operation reads or writes memory outside the arrays it works on."""
import ctypes
import importlib
from ..engine import Src, Violation, Discard
from ..facet import Facet

RULE = ("a case of any facet of C01-C28 (calls, programs of calls, damaged files, refused calls), run against a build of the crate "
        "instrumented by AddressSanitizer, which ends the process at the first access outside a live allocation; "
        "non-trivial = the case is non-trivial for its own property")
ASSUMPTIONS = ["AddressSanitizer sees every access of the crate's own code and of the generic code compiled into it, and those of the C library's memory "
               "functions; code of precompiled dependencies is not instrumented; an access that lands inside another live allocation is not seen",
               "answers are not judged here: C01-C28 do that"]
SHARE = 20  # a facet gets this part of the cases of its own quick tier


def live_bytes():
    return ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes


def unjudged(fn):
    """The case, whatever its own verdict."""
    def case(src):
        try:
            fn(src)
        except Discard:
            raise
        except Violation:
            src.label("violates its own property")
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException:
            src.label("raises")
        src.sig = None
    return case


def facets(wrap, share, out_too=()):
    chosen = {}
    for k in range(1, 29):
        p = importlib.import_module(f"rpv.props.c{k:02d}")
        for name, f in p.FACETS.items():
            if (k, name) in OUT or (k, name) in out_too:
                continue
            n = max(5, f.quick // 3 // (share if name != "raising" else 5))
            chosen[f"C{k:02d}-{name}"] = Facet(wrap(f.fn), n)
    return chosen


OUT = {(16, "distribution"), (16, "uniformity"), (16, "vector")}  # many draws of the same calls as the other facets of C16
FACETS = facets(unjudged, SHARE)
