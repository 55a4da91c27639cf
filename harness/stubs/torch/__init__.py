"""A stand-in for the few parts of PyTorch 0.4 this repository uses, on numpy arrays (PyTorch is not installed here).
Integer tensors divide as in 0.4, towards zero."""
import numpy as np

float = float32 = np.float32
double = float64 = np.float64
long = int64 = np.int64
int = int32 = np.int32
uint8 = np.uint8
_random = np.random.RandomState(1)


def _raw(x):
    return x._a if isinstance(x, Tensor) else x


class Tensor(object):
    __array_priority__ = 1000

    def __init__(self, a=(), dtype=np.float32):
        self._a = np.array(_raw(a), dtype=dtype) if dtype is not None else np.asarray(_raw(a))

    # -- shape
    @property
    def shape(self):
        return Size(self._a.shape)

    @property
    def dtype(self):
        return self._a.dtype.type

    @property
    def data(self):
        return self

    @property
    def device(self):
        return 'cpu'

    def size(self, dim=None):
        return Size(self._a.shape) if dim is None else self._a.shape[dim]

    def dim(self):
        return self._a.ndim

    def numel(self):
        return self._a.size

    def __len__(self):
        return len(self._a)

    def view(self, *s):
        return _t(self._a.reshape(s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s))

    reshape = view

    def view_as(self, o):
        return _t(self._a.reshape(o.shape))

    def unsqueeze(self, dim):
        return _t(np.expand_dims(self._a, dim))

    def squeeze(self, dim=None):
        return _t(np.squeeze(self._a) if dim is None else np.squeeze(self._a, dim) if self._a.shape[dim] == 1 else self._a)

    def expand(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        s = tuple(self._a.shape[k - (len(s) - self._a.ndim)] if v == -1 else v for k, v in enumerate(s))
        return _t(np.broadcast_to(self._a, s).copy())

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *s):
        return _t(np.tile(self._a, s))

    def permute(self, *s):
        return _t(np.transpose(self._a, s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s))

    def transpose(self, a, b):
        return _t(np.swapaxes(self._a, a, b))

    def t(self):
        return _t(self._a.T)

    def flatten(self, start_dim=0, end_dim=-1):
        return _t(self._a.reshape(-1))

    def contiguous(self):
        return self

    def cpu(self):
        return self

    def cuda(self, *a, **k):
        return self

    def detach(self):
        return self

    def clone(self):
        return _t(self._a.copy())

    def numpy(self):
        return self._a

    def tolist(self):
        return self._a.tolist()

    def item(self):
        return self._a.item()

    def __array__(self, dtype=None, copy=None):
        return self._a if dtype is None else self._a.astype(dtype)

    # -- types
    def type(self, t=None):
        return self._a.dtype if t is None else _t(self._a.astype(getattr(t, '_dtype', t)))

    def to(self, *a, **k):
        t = k.get('dtype', a[0] if a else None)
        return self if t is None or isinstance(t, str) else self.type(t)

    def float(self):
        return _t(self._a.astype(np.float32))

    def double(self):
        return _t(self._a.astype(np.float64))

    def long(self):
        return _t(self._a.astype(np.int64))

    def int(self):
        return _t(self._a.astype(np.int32))

    # -- reductions
    def _red(f):
        def g(self, dim=None, keepdim=False, **k):
            return _t(np.asarray(f(self._a, axis=dim, keepdims=keepdim) if dim is not None else f(self._a)))
        return g
    sum, mean, prod, all, any = _red(np.sum), _red(np.mean), _red(np.prod), _red(np.all), _red(np.any)

    def max(self, dim=None, keepdim=False):
        return _t(np.asarray(self._a.max())) if dim is None else (_t(self._a.max(axis=dim, keepdims=keepdim)), _t(self._a.argmax(axis=dim, keepdims=keepdim)))

    def min(self, dim=None, keepdim=False):
        return _t(np.asarray(self._a.min())) if dim is None else (_t(self._a.min(axis=dim, keepdims=keepdim)), _t(self._a.argmin(axis=dim, keepdims=keepdim)))

    def argmax(self, dim=None):
        return _t(np.asarray(self._a.argmax(axis=dim)))

    def argmin(self, dim=None):
        return _t(np.asarray(self._a.argmin(axis=dim)))

    def topk(self, k, dim=-1, largest=True, sorted=True):
        o = np.argsort(-self._a if largest else self._a, axis=dim, kind='stable')
        o = np.take(o, range(k), axis=dim)
        return _t(np.take_along_axis(self._a, o, axis=dim)), _t(o)

    def sort(self, dim=-1, descending=False):
        o = np.argsort(-self._a if descending else self._a, axis=dim, kind='stable')
        return _t(np.take_along_axis(self._a, o, axis=dim)), _t(o)

    def gather(self, dim, index):
        i = index._a
        if i.dtype.kind != 'i':
            raise RuntimeError('gather(): expected an integer index')
        g = list(np.meshgrid(*[np.arange(s) for s in i.shape], indexing='ij'))
        g[dim] = i
        return _t(self._a[tuple(g)])

    def exp(self):
        return _t(np.exp(self._a))

    def log(self):
        return _t(np.log(self._a))

    def sqrt(self):
        return _t(np.sqrt(self._a))

    def abs(self):
        return _t(np.abs(self._a))

    def sigmoid(self):
        return sigmoid(self)

    # -- more of the same, under other names
    T = property(lambda self: _t(self._a.T))
    ndim = property(lambda self: self._a.ndim)
    is_cuda = False
    requires_grad = False

    def nelement(self):
        return self._a.size

    def masked_fill(self, m, v):
        return _t(np.where(_raw(m).astype(bool), np.asarray(_raw(v)).astype(self._a.dtype), self._a))

    def masked_fill_(self, m, v):
        self._a[np.broadcast_to(_raw(m).astype(bool), self._a.shape)] = _raw(v)
        return self

    def masked_select(self, m):
        return _t(self._a[np.broadcast_to(_raw(m).astype(bool), self._a.shape)])

    def index_select(self, dim, i):
        return _t(np.take(self._a, _raw(i), axis=dim))

    def select(self, dim, i):
        return _t(np.take(self._a, i, axis=dim))

    def narrow(self, dim, a, n):
        return _t(np.take(self._a, range(a, a + n), axis=dim))

    def scatter_(self, dim, index, src):
        g = list(np.meshgrid(*[np.arange(k) for k in index._a.shape], indexing='ij'))
        g[dim] = index._a
        src = _raw(src)
        self._a[tuple(g)] = src if np.ndim(src) == 0 else src[tuple(np.s_[:k] for k in index._a.shape)]
        return self

    def argsort(self, dim=-1, descending=False):
        return self.sort(dim, descending)[1]

    def nonzero(self):
        return _t(np.argwhere(self._a))

    def copy_(self, o):
        self._a[...] = _raw(o)
        return self

    def clamp(self, min=None, max=None):
        return _t(np.clip(self._a, min, max))

    def cumsum(self, dim):
        return _t(np.cumsum(self._a, axis=dim))

    def std(self, dim=None, unbiased=True, keepdim=False):
        return _t(np.asarray(self._a.std(axis=dim, ddof=1 if unbiased else 0, keepdims=keepdim)))

    def var(self, dim=None, unbiased=True, keepdim=False):
        return _t(np.asarray(self._a.var(axis=dim, ddof=1 if unbiased else 0, keepdims=keepdim)))

    def norm(self, p=2, dim=None, keepdim=False):
        return _t(np.asarray((np.abs(self._a) ** p).sum(axis=dim, keepdims=keepdim) ** (1 / p)))

    def softmax(self, dim):
        return softmax(self, dim)

    def log_softmax(self, dim):
        return log_softmax(self, dim)

    def relu(self):
        return relu(self)

    def tanh(self):
        return _t(np.tanh(self._a))

    def round(self, decimals=0):
        return _t(np.round(self._a, decimals).astype(self._a.dtype))

    def floor(self):
        return _t(np.floor(self._a))

    def bool(self):
        return _t(self._a.astype(np.bool_))

    def byte(self):
        return _t(self._a.astype(np.uint8))

    def half(self):
        return _t(self._a.astype(np.float16))

    def chunk(self, n, dim=0):
        return tuple(_t(x) for x in np.array_split(self._a, n, axis=dim))

    def unbind(self, dim=0):
        return tuple(_t(x) for x in np.moveaxis(self._a, dim, 0))

    def new_zeros(self, *s):
        return _t(np.zeros(_dims(s), dtype=self._a.dtype))

    def new_ones(self, *s):
        return _t(np.ones(_dims(s), dtype=self._a.dtype))

    def bmm(self, o):
        return self @ o

    mm = dot = bmm

    def requires_grad_(self, v=True):
        return self

    def _in(f):
        def g(self, o):
            self._a[...] = f(self._a, _raw(o))
            return self
        return g
    add_, sub_, mul_, div_ = _in(np.add), _in(np.subtract), _in(np.multiply), _in(np.divide)

    def zero_(self):
        self._a[...] = 0
        return self

    def fill_(self, v):
        self._a[...] = v
        return self

    def backward(self):
        pass

    # -- access
    def _key(self, k):
        return tuple(_raw(x) for x in k) if isinstance(k, tuple) else _raw(k)

    def __getitem__(self, k):
        v = _t(np.asarray(self._a[self._key(k)]))
        return v

    def __setitem__(self, k, v):
        self._a[self._key(k)] = _raw(v)

    def __iter__(self):
        return (_t(np.asarray(x)) for x in self._a)

    # -- arithmetic
    def _bin(f):
        def g(self, o):
            return _op(f, self._a, _raw(o))
        return g

    def _rbin(f):
        def g(self, o):
            return _op(f, _raw(o), self._a)
        return g
    __add__, __sub__, __mul__ = _bin(np.add), _bin(np.subtract), _bin(np.multiply)
    __radd__, __rsub__, __rmul__ = _rbin(np.add), _rbin(np.subtract), _rbin(np.multiply)
    __mod__, __floordiv__, __pow__ = _bin(np.mod), _bin(np.floor_divide), _bin(np.power)
    __matmul__ = _bin(np.matmul)

    def __truediv__(self, o):
        o = _raw(o)
        if self._a.dtype.kind == 'i' and np.asarray(o).dtype.kind == 'i':
            return _t(np.trunc(self._a / o).astype(self._a.dtype))
        return _op(np.divide, self._a, o)

    def __rtruediv__(self, o):
        return _op(np.divide, _raw(o), self._a)

    def __neg__(self):
        return _t(-self._a)
    add, sub, mul, div, matmul, pow = __add__, __sub__, __mul__, __truediv__, __matmul__, __pow__

    def _cmp(f):
        return lambda self, o: _t(f(self._a, _raw(o)))
    __eq__, __ne__, __lt__, __le__, __gt__, __ge__ = _cmp(np.equal), _cmp(np.not_equal), _cmp(np.less), _cmp(np.less_equal), _cmp(np.greater), _cmp(np.greater_equal)
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__
    __hash__ = object.__hash__

    def __and__(self, o):
        return _t(self._a & _raw(o))

    def __or__(self, o):
        return _t(self._a | _raw(o))

    def __invert__(self):
        return _t(~self._a)

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        return self._a.item() * 1.0

    def __int__(self):
        return self._a.astype(np.int64).item()

    __index__ = __int__

    def __format__(self, spec):
        return format(self._a.item(), spec) if self._a.ndim == 0 else str(self._a)

    def __repr__(self):
        return 'tensor(%s)' % np.array2string(self._a)


def _op(f, a, b):
    a, b = np.asarray(a), np.asarray(b)
    r = f(a, b)
    # a Python number takes the type of the tensor
    kinds = [x.dtype for x in (a, b) if x.ndim]
    if len(kinds) == 1 and kinds[0].kind == 'f':
        r = r.astype(kinds[0])
    return _t(np.asarray(r))


def _t(a):
    t = Tensor.__new__(Tensor)
    t._a = np.asarray(a)
    return t


class Size(tuple):
    def numel(self):
        return int64(np.prod(self))


def _maker(dt):
    def make(*a):
        if len(a) == 1 and not isinstance(a[0], (np.integer, type(1))):
            return _t(np.array(_raw(a[0]), dtype=dt))
        return _t(np.zeros(a, dtype=dt))
    make._dtype = dt
    return make


FloatTensor, DoubleTensor, LongTensor, IntTensor, ByteTensor = (_maker(t) for t in (np.float32, np.float64, np.int64, np.int32, np.uint8))


def _dims(s):
    return s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s


def zeros(*s, **k):
    return _t(np.zeros(_dims(s), dtype=k.get('dtype') or np.float32))


def ones(*s, **k):
    return _t(np.ones(_dims(s), dtype=k.get('dtype') or np.float32))


def tensor(a, dtype=None, **k):
    a = np.array(_raw(a))
    return _t(a.astype(dtype or (np.float32 if a.dtype.kind == 'f' else a.dtype)))


def as_tensor(a, **k):
    return a if isinstance(a, Tensor) else tensor(a, **k)


def from_numpy(a):
    return _t(a)


def arange(*a, **k):
    return _t(np.arange(*a))


def randint(lo, hi, size, **k):
    return _t(_random.randint(lo, hi, size))


def rand(*s):
    return _t(_random.rand(*s).astype(np.float32))


def randn(*s):
    return _t(_random.randn(*s).astype(np.float32))


def cat(ts, dim=0):
    return _t(np.concatenate([_raw(t) for t in ts], axis=dim))


def stack(ts, dim=0):
    return _t(np.stack([_raw(t) for t in ts], axis=dim))


def full(s, v, dtype=None, **k):
    return _t(np.full(s, v, dtype=dtype or np.float32))


def zeros_like(t, dtype=None, **k):
    return _t(np.zeros(t._a.shape, dtype=dtype or t._a.dtype))


def ones_like(t, dtype=None, **k):
    return _t(np.ones(t._a.shape, dtype=dtype or t._a.dtype))


def full_like(t, v, dtype=None, **k):
    return _t(np.full(t._a.shape, v, dtype=dtype or t._a.dtype))


def empty(*s, **k):
    return zeros(*s, **k)


def eye(n, **k):
    return _t(np.eye(n, dtype=np.float32))


def linspace(a, b, n=100, **k):
    return _t(np.linspace(a, b, n, dtype=np.float32))


def einsum(e, *ts):
    return _t(np.einsum(e, *[_raw(t) for t in (ts[0] if len(ts) == 1 and isinstance(ts[0], (list, tuple)) else ts)]))


def equal(a, b):
    return np.array_equal(_raw(a), _raw(b))


def max(a, b=None, keepdim=False, dim=None):
    return _t(np.maximum(a._a, b._a)) if isinstance(b, Tensor) else a.max(b if dim is None else dim, keepdim)


def min(a, b=None, keepdim=False, dim=None):
    return _t(np.minimum(a._a, b._a)) if isinstance(b, Tensor) else a.min(b if dim is None else dim, keepdim)


def _method(name):
    return lambda t, *a, **k: getattr(t, name)(*a, **k)


ne, lt, le, gt, ge, add, sub, mul, div, pow, bmm, mm, abs, sqrt, clamp, cumsum, squeeze, unsqueeze, transpose, reshape, flatten, prod, std, var, norm, tanh, \
    all, any, argsort, argmin, nonzero, masked_select, index_select, chunk, unbind, numel, round, floor = (_method(n) for n in (
        'ne lt le gt ge add sub mul div pow bmm mm abs sqrt clamp cumsum squeeze unsqueeze transpose reshape flatten prod std var norm tanh '
        'all any argsort argmin nonzero masked_select index_select chunk unbind numel round floor').split())


def is_tensor(x):
    return isinstance(x, Tensor)


def set_grad_enabled(x):
    return no_grad()


def sum(t, dim=None, keepdim=False):
    return t.sum(dim, keepdim) if dim is not None else t.sum()


def mean(t, dim=None, keepdim=False):
    return t.mean(dim, keepdim) if dim is not None else t.mean()


def eq(a, b):
    return a == b


def sort(t, dim=-1, descending=False):
    return t.sort(dim, descending)


def topk(t, k, dim=-1, largest=True, sorted=True):
    return t.topk(k, dim, largest, sorted)


def gather(t, dim, index):
    return t.gather(dim, index)


def argmax(t, dim=None):
    return t.argmax(dim)


def matmul(a, b):
    return a @ b


def where(c, a, b):
    return _t(np.where(_raw(c), _raw(a), _raw(b)))


def sigmoid(t):
    return _t((1 / (1 + np.exp(-t._a.astype(np.float64)))).astype(t._a.dtype))


def relu(t):
    return _t(np.maximum(t._a, 0))


def softmax(t, dim):
    e = np.exp(t._a - t._a.max(axis=dim, keepdims=True))
    return _t(e / e.sum(axis=dim, keepdims=True))


def log_softmax(t, dim):
    a = t._a - t._a.max(axis=dim, keepdims=True)
    return _t(a - np.log(np.exp(a).sum(axis=dim, keepdims=True)))


def exp(t):
    return t.exp()


def log(t):
    return t.log()


def manual_seed(s):
    _random.seed(s % 2**32)


def load(path, map_location=None, **k):
    open(path, 'rb').close()
    return {'model_state_dict': {'path': path}}


def device(name):
    return name


class no_grad(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class cuda(object):
    FloatTensor, LongTensor = FloatTensor, LongTensor

    @staticmethod
    def is_available():
        return False

    @staticmethod
    def manual_seed(s):
        manual_seed(s)


from . import autograd, nn  # noqa: E402,F401
