class Job:
    """One symbolic exploration: BIN HARNESS with parameters, for at most `secs` seconds."""

    def __init__(self, binary, harness, params="", secs=30, seed=0, opts="", name=None):
        self.bin, self.harness, self.secs, self.seed, self.opts = binary, harness, secs, seed, opts
        self.params = params.split()
        self.name = name or f"{binary} {harness} {params}".strip()

    @property
    def slow(self):
        """whether the crate's slow assertions count: within the tolerance, and up to rounding of heights, they are
        stricter than its contract"""
        return self.bin not in ("curves", "pairs") and not any(p.startswith("near=") for p in self.params)

    def args(self):
        a = [self.harness]
        for p in self.params:
            a += ["--param", p]
        return a
