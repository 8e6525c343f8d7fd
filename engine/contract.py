"""Declarations used by the contract files."""


class H(object):
    """One contract clause group: fn(V) builds arbitrary inputs satisfying the precondition,
    runs the real code and states the postconditions."""

    def __init__(self, fn, doc=None, budget=150, size=200, summaries=(), unroll=0, timeout=30, conf=25, weight=1,
                 solver_timeout=None, real=True, selftest=3, prove=True, bounded=None, maxpaths=3000, qual=None,
                 summary=None, needs=()):
        self.fn, self.name = fn, fn.__name__
        self.doc = doc or (fn.__doc__ or '').strip()
        self.budget, self.size, self.unroll, self.timeout = budget, size, unroll, timeout
        self.conf = conf                  # runs of the real code in the conformance step
        self.weight = weight
        self.solver_timeout = solver_timeout
        self.real = real                  # executable on the real code
        self.selftest = selftest
        self.prove = prove
        self.bounded = bounded
        self.maxpaths = maxpaths
        self.qual = qual                  # function whose contract this is
        self.summary = summary            # callee-side use of the contract
        self.needs = needs                # contracts whose summaries this proof uses


def harness(**kw):
    def d(fn):
        return H(fn, **kw)
    return d
