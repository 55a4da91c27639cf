import os
import numpy as np

_random = np.random.RandomState(int(os.environ.get('STUB_SEED', '7')))


def shuffle(*arrays, **k):
    order = _random.permutation(len(arrays[0]))
    out = [[a[i] for i in order] for a in arrays]
    return out[0] if len(out) == 1 else out
