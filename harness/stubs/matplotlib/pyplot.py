"""Records nothing but the files it is asked for."""


class _Any(object):
    def __getattr__(self, k):
        return lambda *a, **k: _Any()

    def __iter__(self):
        return iter((_Any(), _Any()))


def savefig(path, *a, **k):
    open(path, 'w').close()


def __getattr__(k):
    if k.startswith('__'):
        raise AttributeError(k)
    return lambda *a, **kw: _Any()
