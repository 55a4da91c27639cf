import numpy as np
import torch
from torch import _t
from . import functional  # noqa: F401


class Module(object):
    training = True

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def eval(self):
        return self.train(False)

    def train(self, mode=True):
        for v in list(self.__dict__.values()):
            if isinstance(v, Module):
                v.train(mode)
        self.training = mode
        return self

    def cuda(self, *a):
        return self

    def cpu(self):
        return self

    def to(self, *a, **k):
        return self

    def load_state_dict(self, d, strict=True):
        pass

    def state_dict(self):
        return {}

    def parameters(self):
        return []


class ModuleList(Module, list):
    def __init__(self, ms=()):
        list.__init__(self, ms)

    def train(self, mode=True):
        for m in self:
            m.train(mode)
        return self


class Sequential(Module):
    def __init__(self, *ms):
        self.ms = ModuleList(ms)

    def forward(self, x):
        for m in self.ms:
            x = m(x)
        return x


class DataParallel(Module):
    def load_state_dict(self, d, strict=True):
        self.module.load_state_dict(d, strict)

    def __init__(self, module, *a, **k):
        self.module = module

    def forward(self, *a, **k):
        return self.module(*a, **k)


class Linear(Module):
    def __init__(self, i, o, bias=True):
        self.weight, self.bias = torch.randn(o, i) / np.sqrt(i), torch.randn(o) * 0.3 if bias else None

    def forward(self, x):
        y = x._a @ self.weight._a.T
        return _t((y + self.bias._a if self.bias is not None else y).astype(np.float32))


class Embedding(Module):
    def __init__(self, n, d):
        self.weight = torch.randn(n, d)

    def forward(self, x):
        return _t(self.weight._a[x._a])


class _BatchNorm(Module):
    """Normalises over all dimensions but the second, as PyTorch does without running statistics."""

    def __init__(self, d, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True):
        self.d, self.eps, self.running = d, eps, track_running_stats
        self.weight, self.bias = torch.rand(d) + 0.5, torch.randn(d) * 0.2

    def forward(self, x):
        a = x._a.astype(np.float64)
        if a.ndim != self.ndim or a.shape[1] != self.d:
            raise ValueError('expected %dD input with %d channels, got %s' % (self.ndim, self.d, a.shape))
        ax = tuple(k for k in range(a.ndim) if k != 1)
        s = (1, self.d) + (1,) * (a.ndim - 2)
        if self.running and not self.training:
            r = a / np.sqrt(1 + self.eps)       # the statistics before any training
        else:
            r = (a - a.mean(axis=ax, keepdims=True)) / np.sqrt(a.var(axis=ax, keepdims=True) + self.eps)
        return _t((r * self.weight._a.reshape(s) + self.bias._a.reshape(s)).astype(np.float32))


class BatchNorm1d(_BatchNorm):
    ndim = 3


class BatchNorm2d(_BatchNorm):
    ndim = 4


class ReLU(Module):
    def __init__(self, inplace=False):
        pass

    def forward(self, x):
        return torch.relu(x)


class Sigmoid(Module):
    def forward(self, x):
        return torch.sigmoid(x)


class Tanh(Module):
    def forward(self, x):
        return x.tanh()


class LogSoftmax(Module):
    def __init__(self, dim=-1):
        self.dim = dim

    def forward(self, x):
        return torch.log_softmax(x, self.dim)


class Softmax(Module):
    def __init__(self, dim=-1):
        self.dim = dim

    def forward(self, x):
        return torch.softmax(x, self.dim)


class Dropout(Module):
    def __init__(self, p=0.5):
        pass

    def forward(self, x):
        return x


class NLLLoss(Module):
    def __init__(self, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction='mean'):
        self.weight, self.ignore_index, self.reduction = weight, ignore_index, reduction
        if reduce is False:
            self.reduction = 'none'
        elif size_average is False:
            self.reduction = 'sum'

    def forward(self, y, t):
        a, i = y._a, t._a
        keep = (i != self.ignore_index)
        j = np.where(keep, i, 0)
        p = np.take_along_axis(a, np.expand_dims(j, 1), axis=1)[:, 0]
        w = (self.weight._a[j] if self.weight is not None else np.ones(i.shape)) * keep
        if self.reduction == 'none':
            return _t(-(p * w))
        return _t(np.asarray(-(p * w).sum() / (w.sum() if self.reduction == 'mean' else 1.)))


class CrossEntropyLoss(NLLLoss):
    def forward(self, y, t):
        return NLLLoss.forward(self, torch.log_softmax(y, 1), t)
