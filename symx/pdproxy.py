"""A small symbolic stand-in for the pandas calls made on numeric data."""

import numpy as np
import pandas as pd

from symx import arr, core
from symx.arr import SymArray, has_sym
from symx.patch import _Mod


class SymSeries:
    """Rolling windows over symbolic values (pandas refuses object data there)."""

    def __init__(self, values, index=None, name=None):
        self.values = SymArray(values)
        self.index = index
        self.name = name

    def rolling(self, window, **k):
        return _Rolling(self, window)

    def to_numpy(self):
        return self.values

    def __mul__(self, k):
        return SymSeries(
            [v if isinstance(v, float) and v != v else v * k for v in self.values], self.index, self.name
        )

    __imul__ = __rmul__ = __mul__

    def __len__(self):
        return len(self.values)


class _Rolling:
    def __init__(self, s, window):
        self.s, self.w = s, int(window)

    def apply(self, func, raw=False, **k):
        out = []
        for i in range(len(self.s.values)):
            if i + 1 < self.w:
                out.append(float("nan"))
            else:
                out.append(func(self.s.values[i + 1 - self.w : i + 1]))
        return SymSeries(out, self.s.index, self.s.name)


class _Ewm:
    """Exponentially weighted moments with the weights (1-alpha)^(n-1-i) (adjust=True)."""

    def __init__(self, df, alpha):
        self.df, self.alpha = df, alpha

    def _w(self):
        n = self.df.values.shape[0]
        a = self.alpha
        a = core.to_fraction(a) if not core.is_sym(a) else a
        w = []
        p = 1
        for _ in range(n):
            w.append(p)
            p = p * (1 - a)
        w = w[::-1]
        s = sum(w[1:], w[0])
        return [arr._div(x, s) for x in w]

    def mean(self):
        w = self._w()
        V = arr.base(self.df.values)
        m = [sum((w[t] * V[t, j] for t in range(1, V.shape[0])), w[0] * V[0, j]) for j in range(V.shape[1])]
        return _Iloc(m)

    def cov(self):
        w = self._w()
        V = arr.base(self.df.values)
        T, N = V.shape
        m = [sum((w[t] * V[t, j] for t in range(1, T)), w[0] * V[0, j]) for j in range(N)]
        s2 = sum((x * x for x in w[1:]), w[0] * w[0])
        out = np.empty((N, N), dtype=object)
        for i in range(N):
            for j in range(N):
                v = sum((w[t] * (V[t, i] - m[i]) * (V[t, j] - m[j]) for t in range(T)), 0)
                out[i, j] = arr._div(v, 1 - s2)
        return _CovFrame(out)


class _Iloc:
    def __init__(self, row):
        self.row = row

    @property
    def iloc(self):
        return self

    def __getitem__(self, i):
        if i not in (-1, (-1, slice(None))):
            raise core.Unsupported("ewm row")
        return SymSeries(self.row)

    def to_numpy(self):
        raise core.Unsupported("full ewm frame")


class _CovFrame:
    def __init__(self, m):
        self.m = m

    @property
    def loc(self):
        return self

    iloc = loc

    def __getitem__(self, i):
        return self

    def to_numpy(self):
        return self.m.view(SymArray)


class SymFrame:
    def __init__(self, values):
        self.values = SymArray(values)

    def ewm(self, alpha=None, **k):
        if alpha is None or k:
            raise core.Unsupported(f"ewm arguments {k}")
        return _Ewm(self, alpha)

    def to_numpy(self):
        return self.values

    @property
    def index(self):
        return pd.RangeIndex(len(self.values))

    @property
    def shape(self):
        return self.values.shape


class _Ctor(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)

    def __call__(cls, data=None, *a, **k):
        if isinstance(data, SymArray) or (isinstance(data, (np.ndarray, list)) and has_sym(data)):
            return cls.sym(data, *a, **k)
        return cls.real(data, *a, **k)

    def __getattr__(cls, n):
        return getattr(cls.real, n)


class Series(metaclass=_Ctor):
    real = pd.Series

    @staticmethod
    def sym(data, index=None, name=None, **k):
        return SymSeries(data, index, name)


class DataFrame(metaclass=_Ctor):
    real = pd.DataFrame

    @staticmethod
    def sym(data, *a, **k):
        if not a and not k:
            return SymFrame(data)
        return pd.DataFrame(arr.strip(data), *a, **k)


def extra():
    return {pd: _Mod(pd, {"Series": Series, "DataFrame": DataFrame}, wrap=False)}
