"""A small property-based-testing engine (choice-sequence generation, integrated shrinking).

Every random decision of a case goes through `Src`, which records it as a
bounded non-negative integer.  A case is therefore a list of integers: it can be
replayed exactly, hashed, and shrunk (shorter / smaller choice lists are
simpler cases, and any list is a valid one: missing choices read as 0).
"""
import hashlib
import random


class Discard(Exception):
    """The case does not satisfy the precondition (counted, never a failure)."""


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, kind, msg):
        super().__init__(f"[{kind}] {msg}")
        self.kind = kind
        self.msg = msg


class Src:
    __slots__ = ("rng", "choices", "prefix", "pos", "labels", "nontrivial", "desc", "limit", "sig")

    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.pos = 0
        self.labels = []
        self.nontrivial = False
        self.desc = []
        self.sig = None

    # -- primitive: an integer in [0, n)
    def below(self, n):
        if n <= 1:
            return 0
        if self.prefix is not None:
            p = self.pos
            v = self.prefix[p] if p < len(self.prefix) else 0
            if v >= n:
                v = n - 1
        else:
            v = int(self.rng.random() * n) if n < 1 << 50 else self.rng.randrange(n)
        self.pos += 1
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        """Uniform in [lo, hi]; shrinks towards lo."""
        return lo + self.below(hi - lo + 1)

    def choice(self, seq):
        """Uniform; shrinks towards the first."""
        return seq[self.below(len(seq))]

    def bool(self, p=0.5):
        """True with probability p; shrinks towards False."""
        # 64 levels
        return self.below(64) >= round(64 * (1 - p))

    def weighted(self, pairs):
        """[(weight, value)], integer weights; shrinks towards the first."""
        tot = 0
        for w, _ in pairs:
            tot += w
        k = self.below(tot)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def perm(self, n):
        """A permutation of range(n); shrinks towards the identity."""
        left = list(range(n))
        out = []
        while left:
            out.append(left.pop(self.below(len(left))))
        return out

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    # -- bookkeeping
    def label(self, *ls):
        self.labels.extend(ls)

    def note(self, s):
        self.desc.append(s)


def case_rng(seed, prop, facet, i):
    h = hashlib.blake2b(f"{seed}|{prop}|{facet}|{i}".encode(), digest_size=8).digest()
    return random.Random(int.from_bytes(h, "big"))


def choice_hash(facet, choices):
    return int.from_bytes(
        hashlib.blake2b(repr((facet, choices)).encode(), digest_size=8).digest(), "big")


def shrink(choices, still_fails, max_tries=1500):
    """Greedy choice-sequence reduction. `still_fails(list) -> list|None` returns the
    (possibly truncated) choice list actually used when the case still fails."""
    tries = 0
    best = list(choices)

    def attempt(c):
        nonlocal best, tries
        if tries >= max_tries:
            return False
        tries += 1
        used = still_fails(c)
        if used is None:
            return False
        key = lambda x: (len(x), x)
        if key(used) < key(best):
            best = list(used)
            return True
        return False

    improved = True
    while improved and tries < max_tries:
        improved = False
        # delete chunks
        for size in (32, 16, 8, 4, 2, 1):
            i = 0
            while i < len(best):
                c = best[:i] + best[i + size:]
                if attempt(c):
                    improved = True
                else:
                    i += size if size > 1 else 1
        # zero chunks
        for size in (8, 4, 1):
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    c = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    if attempt(c):
                        improved = True
                i += size
        # lower values
        i = 0
        while i < len(best):
            v = best[i] if i < len(best) else 0
            lo = 0
            while i < len(best) and best[i] > lo and tries < max_tries:
                mid = (lo + best[i]) // 2
                c = list(best)
                c[i] = mid
                if attempt(c):
                    improved = True
                else:
                    lo = mid + 1
            i += 1
        # swap-decrement pairs (helps e.g. shape pairs)
    return best
