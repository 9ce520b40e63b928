"""NumPy semantics for arrays of symbolic values.

``SymArray`` is an object ndarray that implements NumPy's ``__array_ufunc__`` and
``__array_function__`` protocols, so the ``np.*`` calls of the code under test are
executed on symbolic values without changing that code.
"""

import itertools
import math

import numpy as np

from symx import core as c
from symx.core import SymBool, SymInt, SymReal, Unsupported, is_sym, ite


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __repr__(self):
        return f"array{np.asarray(self, dtype=object).tolist()!r}"

    __str__ = __repr__

    def __new__(cls, obj):
        a = np.asarray(strip(obj), dtype=object)
        return a.view(cls)

    # ---- protocol
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return function(func, args, kwargs)

    # ---- indexing
    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, fix_index(idx, self))
        return r

    def __setitem__(self, idx, val):
        val = strip(val)
        m = sym_mask(idx, self)
        if m is not None:
            # in-place conditional update
            b = base(self)
            if isinstance(val, np.ndarray) and val.shape not in ((), (1,)):
                b[fix_index(idx, self)] = val
                return
            v = val.item() if isinstance(val, np.ndarray) else val
            mm = np.broadcast_to(expand(m, self.ndim), self.shape)
            for i in np.ndindex(*self.shape):
                b[i] = ite(mm[i], v, b[i])
            return
        base(self)[fix_index(idx, self)] = val

    # ---- methods implemented in C that do not dispatch
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return red(c_add, self, axis, keepdims, 0)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return red(c_mul, self, axis, keepdims, 1)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _mean(self, axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return _var(self, axis, ddof, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return _std(self, axis, ddof, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return red(c.smax, self, axis, keepdims, None)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return red(c.smin, self, axis, keepdims, None)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return red(c.bor, self, axis, keepdims, False)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return red(c.band, self, axis, keepdims, True)

    def cumsum(self, axis=None, dtype=None, out=None):
        return accum(c_add, self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accum(c_mul, self, axis)

    def clip(self, min=None, max=None, out=None, **k):
        return _clip(self, min, max)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def sort(self, axis=-1, **k):
        base(self)[...] = strip(np_sort(self, axis))

    def argsort(self, axis=-1, **k):
        return np_argsort(self, axis)

    def argmax(self, axis=None, out=None, **k):
        return _argext(self, axis, True)

    def argmin(self, axis=None, out=None, **k):
        return _argext(self, axis, False)

    def partition(self, kth, axis=-1, **k):
        self.sort(axis)

    def nonzero(self):
        return tobool(self).nonzero()

    def dot(self, o):
        return wrap(np.dot(base(self), strip(o)))

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def copy(self, order="C"):
        return base(self).copy().view(SymArray)

    def tolist(self):
        return base(self).tolist()

    def __bool__(self):
        if self.size != 1:
            raise ValueError("truth value of an array is ambiguous")
        return bool(base(self).reshape(-1)[0])

    def __contains__(self, x):
        return bool((self == x).any())

    def __float__(self):
        return float(base(self).reshape(-1)[0])

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()


def base(a):
    return a.view(np.ndarray)


def strip(x):
    """Plain numpy view of a value (no symbolic dispatch)."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and has_sym(x):
        return np.array(_deeplist(x), dtype=object)
    if isinstance(x, (np.number, np.bool_)):
        return x.item()  # a numpy scalar would call back into the symbolic operand
    return x


def _deeplist(x):
    if isinstance(x, np.ndarray):
        return base(x).tolist() if x.ndim else x.item()
    if isinstance(x, (list, tuple)):
        return [_deeplist(i) for i in x]
    return x


def has_sym(x):
    if is_sym(x) or isinstance(x, SymArray):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(i) for i in x.reshape(-1))
    return False


def wrap(r):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r.item()
            if r.size and all(isinstance(i, (bool, np.bool_)) for i in r.reshape(-1)):
                return r.astype(bool)
            return r.view(SymArray)
        return r
    if isinstance(r, tuple):
        return tuple(wrap(i) for i in r)
    if isinstance(r, list):
        return [wrap(i) for i in r]
    return r


def tobool(a):
    """Concrete boolean array (forks on symbolic entries)."""
    a = base(np.asarray(strip(a), dtype=object))
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        out[i] = bool(a[i])
    return out


def toint(a):
    a = base(np.asarray(strip(a), dtype=object))
    out = np.empty(a.shape, dtype=int)
    for i in np.ndindex(*a.shape):
        out[i] = int(a[i])
    return out


def _isboolish(x):
    return isinstance(x, (bool, np.bool_, SymBool))


def sym_mask(idx, a):
    """`idx` as a symbolic mask over the leading axes of `a`, if it is one."""
    if isinstance(idx, SymArray) and idx.size and all(
        _isboolish(i) for i in base(idx).reshape(-1)
    ) and any(is_sym(i) for i in base(idx).reshape(-1)):
        return base(idx)
    return None


def expand(m, nd):
    return m.reshape(m.shape + (1,) * (nd - m.ndim))


def fix_index(idx, a):
    if isinstance(idx, tuple):
        return tuple(fix_index(i, a) for i in idx)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, SymInt):
        return int(idx)
    if isinstance(idx, slice):
        f = lambda v: int(v) if is_sym(v) else v  # noqa: E731
        return slice(f(idx.start), f(idx.stop), f(idx.step))
    if isinstance(idx, list):
        idx = np.asarray(strip(idx))
    if isinstance(idx, np.ndarray) and idx.dtype == object:
        flat = base(idx).reshape(-1)
        if len(flat) == 0:
            return np.zeros(idx.shape, dtype=int)
        if all(_isboolish(i) for i in flat):
            return tobool(idx)
        return toint(idx)
    return idx


# --------------------------------------------------------------------------- elementwise
def c_add(a, b):
    return a + b


def c_mul(a, b):
    return a * b


def _div(a, b):
    if not is_sym(a) and not is_sym(b):
        if b == 0:
            raise c.NonFinite("division by zero")
        if isinstance(a, int) and isinstance(b, int):
            return c.Fraction(a, b)
        return a / b
    return a / b


def _nan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def _eq(a, b):
    r = a == b
    return r


def _isclose(a, b, rtol=1e-5, atol=1e-8):
    return abs(a - b) <= atol + rtol * abs(b)


def _f1(name):
    m = getattr(math, name)

    def f(x):
        if is_sym(x):
            return c.uf(name, x)
        return m(float(x))

    return f


def _exp(x):
    if is_sym(x):
        return c.uf("exp", x)
    if _nan(x):
        return x
    return 1 if x == 0 else c.uf("exp", x)


def _log(x):
    if _nan(x):
        return x
    return 0 if not is_sym(x) and x == 1 else c.uf("log", x)


def _isfinite(x):
    if is_sym(x):
        return True
    return bool(np.isfinite(float(x)))


def _logical(f):
    def g(*xs):
        return f(*[x if _isboolish(x) else (x != 0) for x in xs])

    return g


def _bit(f, g):
    def h(a, b):
        if isinstance(a, (bool, np.bool_)):
            a = bool(a)
        if isinstance(b, (bool, np.bool_)):
            b = bool(b)
        if _isboolish(a) or _isboolish(b):
            return g(a, b)
        return f(a, b)

    return h


def _inv(x):
    if _isboolish(x):
        return c.bnot(x)
    return ~x


UF = {
    "add": (lambda a, b: c.bor(a, b) if _isboolish(a) and _isboolish(b) else a + b),
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "true_divide": _div,
    "divide": _div,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": abs,
    "fabs": abs,
    "power": lambda a, b: c.power(a, b) if is_sym(a) or is_sym(b) else a**b,
    "float_power": lambda a, b: c.power(a, b) if is_sym(a) or is_sym(b) else a**b,
    "square": lambda a: a * a,
    "sqrt": c.sqrt,
    "exp": _exp,
    "expm1": lambda a: _exp(a) - 1,
    "log": _log,
    "log1p": lambda a: _log(1 + a),
    "log10": _f1("log10"),
    "log2": _f1("log2"),
    "sin": _f1("sin"),
    "cos": _f1("cos"),
    "tanh": _f1("tanh"),
    "arctan": _f1("atan"),
    "arcsin": _f1("asin"),
    "maximum": c.smax,
    "minimum": c.smin,
    "fmax": c.smax,
    "fmin": c.smin,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": _eq,
    "not_equal": lambda a, b: a != b,
    "logical_and": _logical(c.band),
    "logical_or": _logical(c.bor),
    "logical_not": _logical(c.bnot),
    "logical_xor": _logical(lambda a, b: SymBool(c.z3.Xor(c.bt(a), c.bt(b)))),
    "bitwise_and": _bit(lambda a, b: a & b, c.band),
    "bitwise_or": _bit(lambda a, b: a | b, c.bor),
    "bitwise_xor": _bit(
        lambda a, b: a ^ b, lambda a, b: SymBool(c.z3.Xor(c.bt(a), c.bt(b)))
    ),
    "invert": _inv,
    "floor": c.floor,
    "ceil": c.ceil,
    "rint": c.rint,
    "trunc": lambda a: c.trunc(a) if is_sym(a) else math.trunc(a),
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "mod": lambda a, b: a % b,
    "sign": c.sign,
    "isnan": lambda a: _nan(a),
    "isinf": lambda a: (not is_sym(a)) and bool(np.isinf(float(a))),
    "isfinite": _isfinite,
    "conjugate": lambda a: a,
    "reciprocal": lambda a: _div(1, a),
    "hypot": lambda a, b: c.sqrt(a * a + b * b),
}

IDENT = {"add": 0, "multiply": 1, "logical_or": False, "logical_and": True}


def elementwise(f, *arrs):
    arrs = [strip(a) for a in arrs]
    if all(not isinstance(a, np.ndarray) for a in arrs):
        return f(*arrs)
    arrs = [_obj(a) for a in arrs]
    bc = np.broadcast(*arrs) if len(arrs) > 1 else None
    shape = bc.shape if bc is not None else arrs[0].shape
    out = np.empty(shape, dtype=object)
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    for i in np.ndindex(*shape):
        out[i] = f(*[a[i] for a in arrs])
    return wrap(out)


def _obj(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a
    if isinstance(a, np.ndarray):
        return a.astype(object)
    o = np.empty((), dtype=object)
    if isinstance(a, (list, tuple)):
        return np.array(_deeplist(a), dtype=object)
    if hasattr(a, "to_numpy"):
        return np.asarray(a.to_numpy(), dtype=object)
    o[()] = a.item() if isinstance(a, np.generic) else a
    return o


def red(f, a, axis=None, keepdims=False, initial=None):
    a = _obj(strip(a))
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (axis % a.ndim,)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes))
    oshape = tuple(a.shape[i] for i in rest)
    b = b.reshape(oshape + (-1,)) if b.size else b.reshape(oshape + (0,))
    out = np.empty(oshape, dtype=object)
    for i in np.ndindex(*oshape):
        vals = list(b[i])
        if not vals:
            if initial is None:
                raise ValueError("zero-size array to reduction operation")
            out[i] = initial
            continue
        if f in (c.bor, c.band):
            out[i] = f(*[v if _isboolish(v) else (v != 0) for v in vals])
            continue
        acc = vals[0]
        if f is c_add and _isboolish(acc):
            acc = acc + 0
        for v in vals[1:]:
            acc = f(acc, v)
        out[i] = acc
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else s for i, s in enumerate(a.shape)))
    return wrap(out) if out.ndim else out.item()


def accum(f, a, axis=0):
    a = _obj(strip(a))
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    out = np.empty(a.shape, dtype=object)
    b = np.moveaxis(a, axis, -1)
    o = np.moveaxis(out, axis, -1)
    for i in np.ndindex(*b.shape[:-1]):
        acc = None
        for j in range(b.shape[-1]):
            acc = b[i][j] if acc is None else f(acc, b[i][j])
            o[i + (j,)] = acc
    return wrap(out)


def _sparse(x):
    return hasattr(x, "toarray") and hasattr(x, "nnz")


def ufunc(uf, method, *inputs, **kw):
    name = uf.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    if any(_foreign(i) for i in inputs):
        return NotImplemented
    inputs = tuple(i.toarray() if _sparse(i) else i for i in inputs)
    if name == "matmul" and method == "__call__":
        a, b = (_obj(strip(i)) for i in inputs)
        r = np.matmul(a, b)
        r = wrap(r)
    elif name == "clip" and method == "__call__":
        r = _clip(*inputs)
    elif method == "__call__":
        f = UF.get(name)
        if f is None:
            raise Unsupported(f"ufunc {name}")
        r = elementwise(f, *inputs)
        if where is not True:
            o = out[0] if out else np.zeros(np.shape(r), dtype=object)
            r = elementwise(lambda w, x, y: ite(w, x, y), where, r, o)
    elif method == "reduce":
        f = {"logical_or": c.bor, "logical_and": c.band, "add": c_add}.get(
            name, UF.get(name)
        )
        if f is None:
            raise Unsupported(f"ufunc {name}.reduce")
        r = red(f, inputs[0], kw.get("axis", 0), kw.get("keepdims", False), IDENT.get(name))
    elif method == "accumulate":
        r = accum(UF[name], inputs[0], kw.get("axis", 0))
    elif method == "outer":
        a, b = (_obj(strip(i)) for i in inputs)
        r = elementwise(UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == "at":
        raise Unsupported("ufunc.at")
    else:
        raise Unsupported(f"ufunc {name}.{method}")
    if out is not None:
        o = out[0]
        if isinstance(o, SymArray):
            base(o)[...] = strip(r)
            return o
        if isinstance(o, np.ndarray):
            if o.dtype != object:
                raise Unsupported("writing symbolic values into a numeric array")
            o[...] = strip(r)
            return o
    return r


def _foreign(x):
    return type(x).__module__.startswith("pandas") or type(x).__module__.startswith("symx.cvx")


# --------------------------------------------------------------------------- functions
HANDLED = {}


def handles(*names):
    def deco(f):
        for n in names:
            HANDLED[n] = f
        return f

    return deco


def fname(func):
    m = getattr(func, "__module__", "") or ""
    n = func.__name__
    if "linalg" in m:
        return "linalg." + n
    return n


def function(func, args, kwargs):
    n = fname(func)
    if n in HANDLED:
        return HANDLED[n](*args, **kwargs)
    if n in STRUCTURAL:
        args = _strip_deep(args)
        kwargs = {k: _strip_deep(v) for k, v in kwargs.items()}
        return wrap(func(*args, **kwargs))
    raise Unsupported(f"numpy function {n}")


def _strip_deep(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(_strip_deep(i) for i in x)
    if isinstance(x, list):
        return [_strip_deep(i) for i in x]
    return x


# purely structural functions: moving elements around only
STRUCTURAL = set(
    """concatenate stack hstack vstack column_stack reshape transpose ravel squeeze
    expand_dims broadcast_to broadcast_arrays tile repeat roll flip fliplr flipud rot90
    atleast_1d atleast_2d atleast_3d moveaxis swapaxes diag diagonal diagflat fill_diagonal
    shape size ndim copy dstack split array_split insert append delete take take_along_axis
    triu tril trace dot outer kron inner vdot tensordot linalg.outer meshgrid ix_ block
    triu_indices_from tril_indices_from put_along_axis copyto pad einsum cross
    empty_like linalg.matrix_power linalg.trace linalg.diagonal iscomplexobj isrealobj
    may_share_memory shares_memory""".split()
)


@handles("sum", "nansum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    return red(c_add, a, axis, bool(keepdims) and keepdims is not np._NoValue, 0)


@handles("prod")
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return red(c_mul, a, axis, keepdims is True, 1)


@handles("max", "amax", "nanmax")
def _max(a, axis=None, out=None, keepdims=False, **k):
    return red(c.smax, a, axis, keepdims is True, None)


@handles("min", "amin", "nanmin")
def _min(a, axis=None, out=None, keepdims=False, **k):
    return red(c.smin, a, axis, keepdims is True, None)


@handles("any")
def _any(a, axis=None, out=None, keepdims=False, **k):
    return red(c.bor, a, axis, keepdims is True, False)


@handles("all")
def _all(a, axis=None, out=None, keepdims=False, **k):
    return red(c.band, a, axis, keepdims is True, True)


@handles("cumsum")
def _cumsum(a, axis=None, dtype=None, out=None):
    return accum(c_add, a, axis)


@handles("cumprod")
def _cumprod(a, axis=None, dtype=None, out=None):
    return accum(c_mul, a, axis)


def _count(a, axis):
    a = strip(a)
    if not isinstance(a, np.ndarray):
        a = _obj(a)
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        return int(np.prod([a.shape[i] for i in axis]))
    return a.shape[axis]


@handles("mean", "nanmean")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    n = _count(a, axis)
    s = red(c_add, a, axis, keepdims is True, 0)
    return elementwise(lambda x: _div(x, n), s)


@handles("var", "nanvar")
def _var(a, axis=None, ddof=0, keepdims=False, dtype=None, out=None, **k):
    if axis is not None and dtype is None and isinstance(ddof, type):
        ddof = 0
    m = _mean(a, axis, keepdims=True)
    d = elementwise(lambda x, y: (x - y) * (x - y), a, m)
    n = _count(a, axis)
    s = red(c_add, d, axis, keepdims is True, 0)
    return elementwise(lambda x: _div(x, n - ddof), s)


@handles("std", "nanstd")
def _std(a, axis=None, ddof=0, keepdims=False, dtype=None, out=None, **k):
    return elementwise(c.sqrt, _var(a, axis, ddof, keepdims))


def _np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return _var(a, axis, ddof, keepdims)


def _np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return _std(a, axis, ddof, keepdims)


HANDLED["var"] = HANDLED["nanvar"] = _np_var
HANDLED["std"] = HANDLED["nanstd"] = _np_std


@handles("average")
def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(a, axis)
    w = _obj(strip(weights))
    a = _obj(strip(a))
    if w.ndim != a.ndim:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    num = red(c_add, elementwise(c_mul, a, w), axis, False, 0)
    den = red(c_add, np.broadcast_to(w, a.shape), axis, False, 0)
    return elementwise(_div, num, den)


@handles("cov")
def _cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if fweights is not None or aweights is not None:
        raise Unsupported("cov weights")
    X = _obj(strip(m))
    if X.ndim == 1:
        X = X.reshape(1, -1)
    if not rowvar:
        X = X.T
    if y is not None:
        Y = _obj(strip(y))
        X = np.vstack([X, Y.reshape(1, -1) if Y.ndim == 1 else (Y if rowvar else Y.T)])
    n = X.shape[1]
    dd = (0 if bias else 1) if ddof is None else ddof
    mu = [_div(sum(list(r)[1:], r[0]), n) for r in X]
    D = [[x - u for x in r] for r, u in zip(X, mu)]
    k_ = len(D)
    out = np.empty((k_, k_), dtype=object)
    for i in range(k_):
        for j in range(i, k_):
            s = D[i][0] * D[j][0]
            for t in range(1, n):
                s = s + D[i][t] * D[j][t]
            out[i, j] = out[j, i] = _div(s, n - dd)
    if k_ == 1:
        return out[0, 0]
    return wrap(out)


CORR = [None]  # a harness may give the correlations of data it has built


@handles("corrcoef")
def _corrcoef(x, y=None, rowvar=True, **k):
    if CORR[0] is not None:
        return wrap(np.array(CORR[0], dtype=object))
    S = _obj(strip(_cov(x, y, rowvar)))
    n = S.shape[0]
    sd = [c.sqrt(S[i, i]) for i in range(n)]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = 1 if i == j else _div(S[i, j], sd[i] * sd[j])
    return wrap(out)


def _clip(a, lo=None, hi=None, *args, **k):
    lo = k.get("min", k.get("a_min", lo))
    hi = k.get("max", k.get("a_max", hi))
    r = a
    if lo is not None:
        r = elementwise(c.smax, r, lo)
    if hi is not None:
        r = elementwise(c.smin, r, hi)
    return r


@handles("clip")
def _npclip(a, a_min=None, a_max=None, out=None, **k):
    lo, hi = k.get("min", a_min), k.get("max", a_max)
    lo = None if lo is np._NoValue else lo
    hi = None if hi is np._NoValue else hi
    r = _clip(a, lo, hi)
    if out is not None:
        base(out)[...] = strip(r)
        return out
    return r


@handles("where")
def _where(cond, x=None, y=None):
    if x is None:
        return np.nonzero(tobool(cond))
    return elementwise(lambda w, a, b: ite(w if _isboolish(w) else (w != 0), a, b), cond, x, y)


@handles("select")
def _select(condlist, choicelist, default=0):
    r = default
    for w, x in reversed(list(zip(condlist, choicelist))):
        r = _where(w, x, r)
    return r


@handles("nonzero")
def _nonzero(a):
    return np.nonzero(tobool(a))


@handles("flatnonzero")
def _flatnonzero(a):
    return np.flatnonzero(tobool(a))


@handles("argwhere")
def _argwhere(a):
    return np.argwhere(tobool(a))


@handles("count_nonzero")
def _count_nonzero(a, axis=None, keepdims=False):
    b = elementwise(lambda x: x if _isboolish(x) else (x != 0), a)
    b = elementwise(lambda x: ite(x, 1, 0), b)
    return red(c_add, b, axis, keepdims, 0)


@handles("isin")
def _isin(a, test, assume_unique=False, invert=False, **k):
    t = list(_obj(strip(test)).reshape(-1))
    return elementwise(lambda x: (c.bnot if invert else (lambda q: q))(c.bor(False, *[x == y for y in t])), a)


@handles("array_equal")
def _array_equal(a, b, equal_nan=False):
    a, b = _obj(strip(a)), _obj(strip(b))
    if a.shape != b.shape:
        return False
    return red(c.band, elementwise(_eq, a, b), None, False, True)


@handles("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = elementwise(lambda x, y: _isclose(x, y, rtol, atol), a, b)
    if isinstance(r, np.ndarray):
        return red(c.band, r, None, False, True)
    return r


@handles("isclose")
def _npisclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return elementwise(lambda x, y: _isclose(x, y, rtol, atol), a, b)


@handles("round", "around", "round_")
def np_round(a, decimals=0, out=None):
    if decimals:
        m = 10**decimals
        return elementwise(lambda x: _div(c.rint(x * m), m) if is_sym(x) else round(x, decimals), a)
    return elementwise(c.rint, a)


@handles("roll")
def _roll(a, shift, axis=None):
    return wrap(np.roll(_obj(strip(a)), shift, axis))


@handles("nan_to_num")
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    return elementwise(lambda v: nan if _nan(v) else v, x)


@handles("isposinf", "isneginf")
def _isposinf(x, out=None):
    return elementwise(lambda v: False if is_sym(v) else bool(np.isposinf(float(v))), x)


HANDLED["isneginf"] = lambda x, out=None: elementwise(
    lambda v: False if is_sym(v) else bool(np.isneginf(float(v))), x
)


@handles("diff")
def _diff(a, n=1, axis=-1, **k):
    b = _obj(strip(a))
    for _ in range(n):
        lo = np.take(b, range(b.shape[axis] - 1), axis=axis)
        hi = np.take(b, range(1, b.shape[axis]), axis=axis)
        b = _obj(strip(elementwise(lambda x, y: x - y, hi, lo)))
    return wrap(b)


def merge_network(vals):
    """Sort a list symbolically with min/max comparators (odd-even transposition)."""
    v = list(vals)
    n = len(v)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            a, b = v[i], v[i + 1]
            if not is_sym(a) and not is_sym(b):
                v[i], v[i + 1] = min(a, b), max(a, b)
            else:
                v[i], v[i + 1] = c.smin(a, b), c.smax(a, b)
    return v


SORT_MODE = ["fork"]


def sort_list(vals):
    vals = list(vals)
    if not any(is_sym(x) for x in vals):
        return sorted(vals)
    if SORT_MODE[0] == "network":
        return merge_network(vals)
    order = argsort_list(vals)
    return [vals[i] for i in order]


def argsort_list(vals):
    """Stable argsort by insertion, forking on the comparisons."""
    order = []
    for i, v in enumerate(vals):
        j = len(order)
        while j > 0 and bool(v < vals[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    return order


def _along(a, axis, f, dtype=object):
    a = _obj(strip(a))
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=dtype)
    for i in np.ndindex(*b.shape[:-1]):
        row = f(list(b[i]))
        for j, v in enumerate(row):
            out[i + (j,)] = v
    out = np.moveaxis(out, -1, axis)
    return wrap(out) if dtype is object else out


@handles("sort")
def np_sort(a, axis=-1, kind=None, order=None, **k):
    return _along(a, axis, sort_list)


@handles("partition")
def np_partition(a, kth, axis=-1, kind="introselect", order=None):
    return _along(a, axis, sort_list)


@handles("argsort")
def np_argsort(a, axis=-1, kind=None, order=None, **k):
    return _along(a, axis, argsort_list, int)


@handles("argpartition")
def np_argpartition(a, kth, axis=-1, **k):
    return _along(a, axis, argsort_list, int)


def _argext(a, axis=None, mx=True):
    a = _obj(strip(a))

    def f(vals):
        k = 0
        for i in range(1, len(vals)):
            if bool(vals[i] > vals[k]) if mx else bool(vals[i] < vals[k]):
                k = i
        return k

    if axis is None:
        return f(list(a.reshape(-1)))
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = f(list(b[i]))
    return out


@handles("argmax")
def _argmax(a, axis=None, out=None, **k):
    return _argext(a, axis, True)


@handles("argmin")
def _argmin(a, axis=None, out=None, **k):
    return _argext(a, axis, False)


@handles("unique")
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    vals = list(_obj(strip(a)).reshape(-1))
    order = argsort_list(vals)
    groups = []
    for i in order:
        if groups and bool(vals[groups[-1][0]] == vals[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    out = [wrap(np.array([vals[g[0]] for g in groups], dtype=object))]
    if return_index:
        out.append(np.array([min(g) for g in groups]))
    if return_inverse:
        inv = np.empty(len(vals), dtype=int)
        for gi, g in enumerate(groups):
            inv[g] = gi
        out.append(inv)
    if return_counts:
        out.append(np.array([len(g) for g in groups]))
    return out[0] if len(out) == 1 else tuple(out)


def _quantile_list(vals, q):
    s = sort_list(vals)
    n = len(s)
    pos = q * (n - 1)
    if is_sym(pos):
        lo = int(c.floor(pos))
    else:
        lo = int(math.floor(pos))
    lo = min(lo, n - 1)
    hi = min(lo + 1, n - 1)
    fr = pos - lo
    return s[lo] + (s[hi] - s[lo]) * (c.to_fraction(fr) if not is_sym(fr) else fr)


@handles("quantile")
def _quantile(a, q, axis=None, **k):
    a = _obj(strip(a))
    if isinstance(q, (list, tuple, np.ndarray)):
        return wrap(np.array([strip(_quantile(a, x, axis)) for x in q], dtype=object))
    if axis is None:
        return _quantile_list(list(a.reshape(-1)), q)
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = _quantile_list(list(b[i]), q)
    return wrap(out)


@handles("percentile")
def _percentile(a, q, axis=None, **k):
    if isinstance(q, (list, tuple, np.ndarray)):
        return wrap(np.array([strip(_percentile(a, x, axis)) for x in q], dtype=object))
    return _quantile(a, q / 100 if is_sym(q) else c.to_fraction(q) / 100, axis)


@handles("median")
def _median(a, axis=None, **k):
    return _quantile(a, c.Fraction(1, 2), axis)


@handles("apply_along_axis")
def _apply_along_axis(f, axis, a, *args, **kw):
    b = np.moveaxis(_obj(strip(a)), axis, -1)
    res = {i: f(b[i].view(SymArray), *args, **kw) for i in np.ndindex(*b.shape[:-1])}
    first = next(iter(res.values()))
    if isinstance(first, np.ndarray):
        out = np.empty(b.shape[:-1] + first.shape, dtype=object)
        for i, v in res.items():
            out[i] = strip(v)
        return wrap(np.moveaxis(out, -1, axis))
    out = np.empty(b.shape[:-1], dtype=object)
    for i, v in res.items():
        out[i] = v
    return wrap(out)


@handles("ones_like")
def _ones_like(a, dtype=None, **k):
    return _like(a, 1, dtype)


@handles("zeros_like")
def _zeros_like(a, dtype=None, **k):
    return _like(a, 0, dtype)


@handles("empty_like")
def _empty_like(a, dtype=None, **k):
    return _like(a, 0, dtype)


@handles("full_like")
def _full_like(a, fill_value, dtype=None, **k):
    return _like(a, fill_value, dtype)


def _like(a, v, dtype):
    sh = np.shape(strip(a))
    return full(sh, v, dtype)


def full(shape, v, dtype=None):
    if isinstance(shape, SymInt):
        shape = int(shape)
    if isinstance(shape, tuple):
        shape = tuple(int(s) for s in shape)
    if dtype is not None and np.dtype(dtype).kind in "biuOUSM" and dtype is not object:
        return np.full(shape, v, dtype=dtype)
    out = np.empty(shape, dtype=object)
    v = strip(v)
    if isinstance(v, np.ndarray):
        out[...] = v
    else:
        for i in np.ndindex(*out.shape):
            out[i] = v
    return out.view(SymArray)


def cast(a, dtype):
    if dtype is object or dtype == "object":
        return a.copy()
    kind = np.dtype(dtype).kind
    flat = base(a).reshape(-1)
    if kind == "f":
        return elementwise(lambda x: x if not isinstance(x, SymBool) else ite(x, 1, 0), a)
    if kind == "b":
        return elementwise(lambda x: x if _isboolish(x) else (x != 0), a)
    if kind in "iu":
        if not any(is_sym(x) for x in flat):
            return base(a).astype(dtype)
        return elementwise(
            lambda x: ite(x, 1, 0) if _isboolish(x) else (c.trunc(x) if is_sym(x) else int(x)), a
        )
    return base(a).astype(dtype)


# --------------------------------------------------------------------------- linear algebra
def minor_det(M, rows, cols):
    if len(rows) == 0:
        return 1
    if len(rows) == 1:
        return M[rows[0], cols[0]]
    s = None
    r0 = rows[0]
    for k, cc in enumerate(cols):
        m = M[r0, cc]
        if not is_sym(m) and m == 0:
            continue
        t = m * minor_det(M, rows[1:], cols[:k] + cols[k + 1 :])
        if k % 2:
            t = -t
        s = t if s is None else s + t
    return 0 if s is None else s


@handles("linalg.det")
def det(M):
    M = _obj(strip(M))
    n = tuple(range(M.shape[0]))
    return minor_det(M, n, n)


def adjugate(M):
    n = M.shape[0]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            rows = tuple(r for r in range(n) if r != j)
            cols = tuple(q for q in range(n) if q != i)
            d = minor_det(M, rows, cols)
            out[i, j] = -d if (i + j) % 2 else d
    return out


@handles("linalg.inv")
def inv(M):
    M = _obj(strip(M))
    d = det(M)
    A = adjugate(M)
    return elementwise(lambda x: _div(x, d), A)


@handles("linalg.solve")
def solve(M, b):
    M, b = _obj(strip(M)), _obj(strip(b))
    d = det(M)
    A = adjugate(M)
    r = np.matmul(A, b)
    return elementwise(lambda x: _div(x, d), r)


@handles("linalg.cholesky")
def cholesky(M, upper=False):
    M = _obj(strip(M))
    n = M.shape[0]
    L = np.full((n, n), 0, dtype=object)
    ct = c.ctx()
    for i in range(n):
        for j in range(i + 1):
            s = M[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            if i == j:
                if bool(s <= 0):
                    raise np.linalg.LinAlgError("Matrix is not positive definite")
                L[i, j] = c.sqrt(s)
            else:
                L[i, j] = _div(s, L[j, j])
    del ct
    return wrap(L)


@handles("linalg.norm")
def norm(x, ord=None, axis=None, keepdims=False):
    if axis is not None or (ord not in (None, 2, 1, "fro")):
        raise Unsupported("norm")
    a = _obj(strip(x))
    if ord == 1:
        return red(c_add, elementwise(abs, a), None, False, 0)
    return c.sqrt(red(c_add, elementwise(lambda v: v * v, a), None, False, 0))


EIGH = [None]  # a harness may give the decomposition (and prove that it is one)


@handles("linalg.eigh")
def eigh(M, UPLO="L"):
    """Spectral decomposition through fresh variables (its defining equations)."""
    M = _obj(strip(M))
    if EIGH[0] is not None:
        return EIGH[0](wrap(M))
    n = M.shape[0]
    ct = c.ctx()
    lam = [SymReal(ct.fresh("eigval")) for _ in range(n)]
    V = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            V[i, j] = SymReal(ct.fresh("eigvec"))
    for i in range(n - 1):
        ct.add((lam[i] <= lam[i + 1]).t)
    for i in range(n):
        for j in range(i, n):
            s = sum(V[k, i] * V[k, j] for k in range(n))
            ct.add(c.bt(s == (1 if i == j else 0)))
            q = sum(V[i, k] * V[j, k] for k in range(n))
            ct.add(c.bt(q == (1 if i == j else 0)))
            r = sum(V[i, k] * lam[k] * V[j, k] for k in range(n))
            ct.add(c.bt(r == M[i, j]))
    ct.notes.add("spectral decomposition replaced by its defining equations")
    vals = np.empty(n, dtype=object)
    vals[:] = lam
    return wrap(vals), wrap(V)


def _(*a, **k):
    raise Unsupported("eigvals")


for _n in ("linalg.eig", "linalg.svd", "linalg.pinv", "linalg.lstsq"):
    HANDLED[_n] = _


@handles("linalg.eigvals", "linalg.eigvalsh")
def eigvals(M, UPLO="L"):
    """Eigenvalues of a symmetric matrix: the real roots of its characteristic polynomial
    (ascending), through fresh variables with the same elementary symmetric functions."""
    M = _obj(strip(M))
    n = M.shape[0]
    ct = c.ctx()
    key = ("eigvals", n, *(c.lift(x).n.get_id() for x in M.reshape(-1)), *(c.lift(x).d.get_id() if c.lift(x).d is not None else 0 for x in M.reshape(-1)))
    if key not in ct.memo:
        for i in range(n):
            for j in range(i):
                d = c.lift(M[i, j] - M[j, i])
                if not (d.is_const() and c._val(d.n) == 0) and ct.feasible(c.bt(d != 0)):
                    raise Unsupported("eigenvalues of a matrix not known to be symmetric")
        lam = [SymReal(ct.fresh("eigval")) for _ in range(n)]
        for k in range(1, n + 1):
            e = sum(_prod(q) for q in itertools.combinations(lam, k))
            m = sum(minor_det(M, q, q) for q in itertools.combinations(range(n), k))
            ct.add(c.bt(e == m))
        for i in range(n - 1):
            ct.add((lam[i] <= lam[i + 1]).t)
        ct.memo[key] = (lam, M)
        ct.notes.add("eigenvalues replaced by their defining equations")
    vals = np.empty(n, dtype=object)
    vals[:] = ct.memo[key][0]
    return wrap(vals)


def _prod(q):
    out = q[0]
    for x in q[1:]:
        out = out * x
    return out


def _atleast_nd(k):
    def f(*xs):
        out = []
        for x in xs:
            a = _obj(strip(x))
            while a.ndim < k:
                a = a[None]
            out.append(wrap(a))
        return out[0] if len(out) == 1 else tuple(out)

    return f


HANDLED["atleast_1d"] = _atleast_nd(1)
HANDLED["atleast_2d"] = _atleast_nd(2)


@handles("iterable")
def _iterable(y):
    return True


@handles("searchsorted")
def _searchsorted(a, v, side="left", sorter=None):
    if sorter is not None or np.ndim(v) != 0:
        raise Unsupported("searchsorted")
    a = list(_obj(strip(a)).reshape(-1))
    k = 0
    while k < len(a) and bool(a[k] < v if side == "left" else a[k] <= v):
        k += 1
    return k


@handles("bincount", "histogram", "histogram2d", "interp", "digitize")
def _unsupported(*a, **k):
    raise Unsupported("histogram-like function on symbolic data")


@handles("may_share_memory", "shares_memory")
def _share(a, b, **k):
    return np.may_share_memory(strip(a), strip(b))


@handles("result_type", "can_cast", "min_scalar_type")
def _rt(*a, **k):
    return np.dtype(object)


@handles("array_str", "array_repr", "array2string")
def _str(a, *args, **k):
    return str(base(a))


@handles("lexsort")
def _lexsort(keys, axis=-1):
    keys = [list(_obj(strip(k)).reshape(-1)) for k in keys]
    n = len(keys[0])
    order = list(range(n))
    for k in keys:
        o2 = argsort_list([k[i] for i in order])
        order = [order[i] for i in o2]
    return np.array(order)


def arr(*vals):
    return SymArray(list(vals))


def product(*its):
    return itertools.product(*its)


def _edges(v, bins, rng=None):
    if is_sym(bins):
        bins = int(bins)
    if not isinstance(bins, (int, np.integer)):
        return [e for e in _obj(strip(bins))]
    lo, hi = rng if rng is not None else (v[0], v[0])
    if rng is None:
        for x in v[1:]:
            lo, hi = c.smin(lo, x), c.smax(hi, x)
    if bool(lo == hi):
        lo, hi = lo - c.to_fraction(0.5), hi + c.to_fraction(0.5)
    n = int(bins)
    return [lo + _div((hi - lo) * k, n) for k in range(n)] + [hi]


def _bin(x, edges):
    """The bin of a value, forking on the comparisons; None outside."""
    if bool(x < edges[0]) or bool(x > edges[-1]):
        return None
    for k in range(1, len(edges) - 1):
        if bool(x < edges[k]):
            return k - 1
    return len(edges) - 2


@handles("histogram")
def _histogram(a, bins=10, range=None, density=None, weights=None):
    if density or weights is not None or isinstance(bins, str):
        raise Unsupported("histogram options")
    v = list(_obj(strip(a)).reshape(-1))
    e = _edges(v, bins, range)
    out = np.zeros(len(e) - 1, dtype=int)
    for x in v:
        k = _bin(x, e)
        if k is not None:
            out[k] += 1
    return out, wrap(np.array(e, dtype=object))


@handles("histogram2d")
def _histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    if density or weights is not None or range is not None:
        raise Unsupported("histogram2d options")
    x, y = (list(_obj(strip(a)).reshape(-1)) for a in (x, y))
    bx, by = bins if isinstance(bins, (list, tuple)) else (bins, bins)
    ex, ey = _edges(x, bx), _edges(y, by)
    out = np.zeros((len(ex) - 1, len(ey) - 1))
    for p, q in zip(x, y, strict=True):
        i, j = _bin(p, ex), _bin(q, ey)
        if i is not None and j is not None:
            out[i, j] += 1
    return out, wrap(np.array(ex, dtype=object)), wrap(np.array(ey, dtype=object))
