class Facet:
    """A check over generated cases: fn(src) raises Violation / Discard; quick / thorough are case counts."""
    def __init__(self, fn, quick, thorough=None):
        self.fn, self.quick, self.thorough = fn, quick * 3, max(quick * 3, thorough or quick * 20)
