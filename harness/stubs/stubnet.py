"""The predictions the recorder gives: logits (n, n, 2), not symmetric, drawn from STUB_SEED; STUB_KIND chooses their shape."""
import os
import numpy as np


def logits(n):
    R = np.random.RandomState(int(os.environ.get('STUB_SEED', '7')) + n)
    kind = os.environ.get('STUB_KIND', 'uni')
    z = R.randn(n, n, 2).astype(np.float32)
    if kind == 'sharp':
        z *= 8
    elif kind == 'huge':        # probabilities down to 1e-30: printed in scientific notation
        z[:, :, 1] -= R.choice([0, 5, 20, 60], (n, n))
    elif kind == 'sym':
        z = ((z + z.transpose(1, 0, 2)) / 2).astype(np.float32)
    elif kind == 'equal':
        z[...] = 0
    return z


def probs(n):
    import torch
    return torch.softmax(torch.Tensor(logits(n)), 2).numpy()[:, :, 1]
