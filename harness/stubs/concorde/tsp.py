from concorde import Solution


class TSPSolver:
    def __init__(self, xs, ys):
        self.xs, self.ys = xs, ys

    @classmethod
    def from_data(cls, xs, ys, norm='EUC_2D', name=None):
        return cls(xs, ys)

    def solve(self, *a, **k):
        return Solution(self.xs, self.ys)
