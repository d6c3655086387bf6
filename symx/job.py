class Job:
    """One harness run.  fn(h) works with both backends."""

    def __init__(self, name, fn, wall=120, paths=3000, feas_ms=1000, check_ms=15000, bounds="", stop_on_cex=False,
                 exceptions_are_violations=True, max_conc=64, heavy=False):
        self.name = name
        self.fn = fn
        self.wall = wall
        self.paths = paths
        self.feas_ms = feas_ms
        self.check_ms = check_ms
        self.bounds = bounds
        self.stop_on_cex = stop_on_cex
        self.exceptions_are_violations = exceptions_are_violations
        self.max_conc = max_conc
        self.heavy = heavy
