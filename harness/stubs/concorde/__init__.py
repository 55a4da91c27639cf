"""Stand-in for pyconcorde: returns some tour of the coordinates it is given (not the best one) and records the call in concorde.log."""
import json
import random


class Solution:
    def __init__(self, xs, ys):
        xs, ys = [float(v) for v in xs], [float(v) for v in ys]
        if len(xs) != len(ys):
            raise ValueError('%d and %d coordinates' % (len(xs), len(ys)))
        R = random.Random(repr((xs, ys)))
        import numpy as np
        t = list(range(len(xs)))
        R.shuffle(t)
        self.tour = np.array(t)
        self.running_time = R.random()
        self.bb_nodes = R.randrange(1, 99)
        self.optimal_value = R.random() * 1e4
        self.success = self.found_tour = True
        self.hit_timebound = False
        with open('concorde.log', 'a') as f:
            f.write(json.dumps([xs, ys, t, self.running_time, self.bb_nodes]) + '\n')
