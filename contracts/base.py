"""What a contract file is made of."""


class H:
    """One harness: a contract (pre: inputs/assume, post: check) over real functions."""

    def __init__(self, name, fn, claim, symbolic=True, runs=200, parts=1, budget=100, timeout_ms=8000, max_paths=6000, unroll=24,
                 must_reach=(), why_bounded="", run_seconds=20, hang=10):
        self.name = name
        self.fn = fn
        self.claim = claim
        self.symbolic = symbolic
        self.runs = runs
        self.parts = parts
        self.budget = budget
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.unroll = unroll
        self.must_reach = must_reach
        self.why_bounded = why_bounded
        self.run_seconds = run_seconds
        self.hang = hang
