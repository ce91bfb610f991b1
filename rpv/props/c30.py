"""C30: memory that is no longer reachable is given back."""
import ctypes
import gc
import sys
from ..engine import Src, Violation, Discard
from .c29 import facets, live_bytes

ROUNDS, TRIES = 3, 4
RULE = (f"a case of any facet of C01-C28 is run once, then {ROUNDS} times more with the number of allocated bytes taken before and after (each time after a "
        f"collection of Python's garbage); the process holds more at least {TRIES} times in a row = a leak; "
        "non-trivial = the case is non-trivial for its own property")
ASSUMPTIONS = ["the number of live bytes is the one of the AddressSanitizer allocator, which serves the crate, NumPy and Python (PYTHONMALLOC=malloc); "
               "caches that grow only now and then are not leaks", "answers are not judged here: C01-C28 do that",
               "left out: np.add.reduce and its like given rumpy arrays (NumPy itself does not release the refusal of __array_ufunc__) and the "
               "functions that make a named tuple type on every call (Python keeps something of the first ten thousand types)"]
LIVE = None


def settled():
    gc.collect()
    sys._clear_type_cache()  # it keeps the names of attributes that were looked up
    return LIVE()


def released(fn):
    def once(s):
        try:
            fn(s)
        except Discard:
            return "discard"
        except Violation:
            return "violation"
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException:
            return "raises"
        return None

    def case(src):
        global LIVE
        if LIVE is None:
            LIVE = live_bytes()
            LIVE.restype = ctypes.c_size_t
            gc.disable()
            gc.collect()
            gc.freeze()  # what is here now is not looked at by the collections to come
        r = once(src)
        choices, src.sig = list(src.choices), None
        if r:
            src.label(r)
        if any("unique_" in str(d) for d in src.desc):
            raise Discard("makes a named tuple type")
        held = settled()
        for again in range(TRIES):
            before = held
            for i in range(ROUNDS):
                once(Src(prefix=choices))
            held = settled()
            if held - before < 8 * ROUNDS:
                break
        else:
            raise Violation("leak", f"{held - before} bytes more after running the case {ROUNDS} times: {' ; '.join(map(str, src.desc))[:500]}")
        if r == "discard":
            raise Discard("discarded by its own property")
    return case


FACETS = facets(released, 100, {(14, "ufunc")})
