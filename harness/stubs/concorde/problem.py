class Problem:
    def __init__(self, xs, ys):
        self.xs, self.ys = xs, ys

    @classmethod
    def from_coordinates(cls, xs, ys, norm='EUC_2D', name=None):
        return cls(xs, ys)
