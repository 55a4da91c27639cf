"""A stand-in for the few operations of a pandas DataFrame that analyzer.py uses (pandas is not installed here)."""


class _Index(list):
    pass


class _Loc(object):
    def __init__(self, df):
        self.df = df

    def __setitem__(self, k, row):
        df = self.df
        if isinstance(row, dict):
            row = [row[c] for c in df.columns]
        row = list(row)
        if len(row) != len(df.columns):
            raise ValueError('cannot set a row with mismatched columns')
        if k in df.index:
            df.rows[df.index.index(k)] = row
        else:
            df.index.append(k)
            df.rows.append(row)

    def __getitem__(self, k):
        return dict(zip(self.df.columns, self.df.rows[self.df.index.index(k)]))


class DataFrame(object):
    def __init__(self, data=None, columns=None, index=None):
        self.index, self.rows = _Index(), []
        if isinstance(data, dict):
            self.columns = list(data)
            n = len(next(iter(data.values()))) if data else 0
            if any(len(v) != n for v in data.values()):
                raise ValueError('All arrays must be of the same length')
            self.rows = [[data[c][k] for c in self.columns] for k in range(n)]
        else:
            self.rows = [list(r) for r in (data or [])]
            self.columns = list(columns if columns is not None else range(len(self.rows[0]) if self.rows else 0))
        self.index.extend(index if index is not None else range(len(self.rows)))

    @property
    def loc(self):
        return _Loc(self)

    @property
    def shape(self):
        return len(self.rows), len(self.columns)

    def __len__(self):
        return len(self.rows)

    def __getitem__(self, c):
        return [r[self.columns.index(c)] for r in self.rows]

    def rename(self, index=None, columns=None, inplace=False):
        d = self if inplace else DataFrame(self.rows, columns=self.columns, index=self.index)
        if index:
            d.index = _Index(index.get(k, k) for k in d.index)
        if columns:
            d.columns = [columns.get(k, k) for k in d.columns]
        return None if inplace else d

    @staticmethod
    def _s(v):
        return repr(float(v)) if hasattr(v, 'dtype') or isinstance(v, float) else str(v)

    def to_string(self, **k):
        t = [[''] + [str(c) for c in self.columns]] + [[str(i)] + [self._s(v) for v in r] for i, r in zip(self.index, self.rows)]
        w = [max(len(r[c]) for r in t) for c in range(len(t[0]))]
        return '\n'.join('  '.join((r[c].ljust if c == 0 else r[c].rjust)(w[c]) for c in range(len(r))) for r in t)

    __str__ = to_string

    def to_csv(self, path, index=True, sep=',', **k):
        with open(path, 'w') as f:
            f.write(sep.join(([''] if index else []) + [str(c) for c in self.columns]) + '\n')
            for i, r in zip(self.index, self.rows):
                f.write(sep.join(([str(i)] if index else []) + [self._s(v) for v in r]) + '\n')
