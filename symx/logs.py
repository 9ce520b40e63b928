"""Logarithms kept as linear combinations, so that exponentials of them are exact powers.

A `Log` is  rest + sum c_i log(e_i)  with rational c_i and positive terms e_i.  Sums and
rational multiples stay in this form, exp turns it into  exp(rest) * prod e_i ** c_i ;
everything else falls back to the uninterpreted logarithm."""

from fractions import Fraction

import numpy as np

from . import arr
from . import core as c


def _const(k):
    """The exact value of a number, None for symbols."""
    if isinstance(k, c.SymReal):
        return c._val(k.n) if k.is_const() else None
    if c.is_sym(k):
        return None
    return c.to_fraction(k)


class Log:
    def __init__(self, parts, rest=0):
        self.parts = [(e, k) for e, k in parts if k != 0]
        self.rest = rest

    def real(self):
        r = self.rest
        for e, k in self.parts:
            r = r + c.uf("log", e) * c.lift(k)
        return r

    def exp(self):
        r = 1 if not c.is_sym(self.rest) and self.rest == 0 else c.uf("exp", self.rest)
        for e, k in self.parts:
            r = r * c.power(e, k)
        return r

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return arr.elementwise(lambda x: self + x, o)
        if isinstance(o, Log):
            parts = list(self.parts)
            for e, k in o.parts:
                for i, (f, m) in enumerate(parts):
                    if f is e or (c.is_sym(f) and c.is_sym(e) and c.lift(f).term.eq(c.lift(e).term)):
                        parts[i] = (f, m + k)
                        break
                else:
                    parts.append((e, k))
            return Log(parts, self.rest + o.rest)
        return Log(self.parts, self.rest + o)

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + -o

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return arr.elementwise(lambda x: self * x, o)
        if isinstance(o, Log):
            return self.real() * o.real()
        k = _const(o)
        if k is None:
            return self.real() * o
        return Log([(e, m * k) for e, m in self.parts], self.rest * c.lift(k) if c.is_sym(self.rest) else c.to_fraction(self.rest) * k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        k = None if isinstance(o, Log) else _const(o)
        if k is not None:
            return self * (1 / Fraction(k))
        return self.real() / (o.real() if isinstance(o, Log) else o)

    def __rtruediv__(self, o):
        return o / self.real()

    def __pow__(self, k):
        return c.power(self.real(), k)

    def _cmp(self, o, f):
        d = self - o
        # exp is increasing: compare the exponential of the difference with one
        return f(d.exp() if isinstance(d, Log) else c.uf("exp", d), 1)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)


def _log(x):
    if isinstance(x, Log):
        x = x.real()
    if not c.is_sym(x) and x == 1:
        return 0
    x = c.lift(x)
    ctx = c.ctx()
    pos = x > 0
    if pos is not True:
        ctx.add(pos.t if hasattr(pos, "t") else c.z3.BoolVal(bool(pos)))
    return Log([(x, Fraction(1))])


def _exp(x):
    if isinstance(x, Log):
        return x.exp()
    return 1 if not c.is_sym(x) and x == 0 else c.uf("exp", x)


def _power(x, k):
    if isinstance(x, Log):
        return x**k
    return c.power(x, k)


def lifted(real, f):
    """`f` entry by entry on symbolic data, `real` otherwise."""

    def g(*a):
        if not any(arr.has_sym(x) or _haslog(x) for x in a):
            return real(*a)
        return arr.elementwise(f, *a)

    return g


def _haslog(x):
    if isinstance(x, Log):
        return True
    return isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(v, Log) for v in x.flat)


LOG = lifted(np.log, _log)
EXP = lifted(np.exp, _exp)
LOG1P = lifted(np.log1p, lambda x: _log(x + 1))
EXPM1 = lifted(np.expm1, lambda x: _exp(x) - 1)
POWER = lifted(np.power, _power)


def overrides():
    """Replacements for numpy's functions in modules that work in log space."""
    return {"log": LOG, "exp": EXP, "log1p": LOG1P, "expm1": EXPM1, "power": POWER}
