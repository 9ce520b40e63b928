"""Run the modules of /repo on symbolic values.

Inside ``symbolic()`` every global of the loaded ``skfolio`` modules that is the numpy
module (or a numpy function, ``math``, sklearn's validation module, ...) is replaced by
a proxy whose array constructors produce symbolic object arrays.  The functions of the
code under test themselves are never touched, and the context manager restores every
global so counterexamples are replayed on the untouched modules.
"""

import builtins
import contextlib
import math
import sys
import types
from fractions import Fraction

import numpy as np
import pandas as pd

from symx import arr, core
from symx.arr import SymArray, has_sym, strip
from symx.core import SymBool, SymInt, SymReal, Unsupported, is_sym


def conv(x):
    """Lists/tuples holding symbolic scalars become SymArrays."""
    if type(x) is Fraction:
        return core.lift(x)
    if isinstance(x, (list, tuple)) and x and has_sym(x):
        if all(is_sym(i) or isinstance(i, (int, float, np.generic)) for i in x):
            return SymArray(list(x))
        if isinstance(x, list) and all(isinstance(i, (list, tuple)) for i in x):
            return SymArray(x)
    if isinstance(x, _FloatShim):
        return builtins.float
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype == object:
        if has_sym(x):
            return x.view(SymArray)
    if type(x).__module__.startswith("pandas") and hasattr(x, "to_numpy"):
        v = x.to_numpy()
        if has_sym(v) or (v.dtype == object and v.size and all(isinstance(i, float) for i in v.flat)):
            return v.view(SymArray)
    return x


class _Func:
    def __init__(self, f):
        self._f = f
        self.__name__ = getattr(f, "__name__", "f")

    def __call__(self, *a, **k):
        frame = next((i for i in a if isinstance(i, (pd.DataFrame, pd.Series))), None)
        a = tuple(conv(i) for i in a)
        k = {n: conv(v) for n, v in k.items()}
        r = self._f(*a, **k)
        if frame is not None and isinstance(self._f, np.ufunc) and isinstance(r, SymArray) and r.shape == frame.shape:
            labels = {"columns": frame.columns} if frame.ndim == 2 else {"name": frame.name}
            return type(frame)(arr.strip(r), index=frame.index, **labels)
        return r

    def __getattr__(self, n):
        v = getattr(self._f, n)
        return _Func(v) if callable(v) else v


def _kind(dtype):
    if dtype is None:
        return None
    if dtype is core.SymReal or isinstance(dtype, _FloatShim):
        return "f"
    if dtype is object:
        return "O"
    return np.dtype(dtype).kind


def np_array(obj, dtype=None, copy=True, ndmin=0, **k):
    obj = conv(obj)
    if isinstance(obj, SymArray):
        r = obj.copy() if copy else obj
        if dtype is not None and _kind(dtype) not in ("f", "O"):
            r = arr.cast(r, dtype)
        while r.ndim < ndmin:
            r = r.reshape((1,) + r.shape)
        return r
    if is_sym(obj):
        a = np.empty((), dtype=object)
        a[()] = obj
        r = a.view(SymArray)
        while r.ndim < ndmin:
            r = r.reshape((1,) + r.shape)
        return r
    if isinstance(obj, (list, tuple)) and has_sym(obj):
        return SymArray(obj)
    if type(obj).__module__.startswith("pandas"):
        r = np.array(obj)
        if has_sym(r):
            r = r.view(SymArray)
            if dtype is not None and _kind(dtype) not in ("f", "O"):
                r = arr.cast(r, dtype)
            return r
    if isinstance(dtype, _FloatShim):
        dtype = float
    r = np.array(obj, dtype=dtype, ndmin=ndmin, **k) if copy else np.asarray(obj, dtype=dtype)
    # freshly built float arrays may later receive symbolic entries
    if r.dtype.kind == "f" and isinstance(obj, (list, tuple)) and _symbolise[0]:
        return SymArray(r.astype(object))
    return r


_symbolise = [True]


def np_asarray(obj, dtype=None, **k):
    if isinstance(obj, np.ndarray) and not isinstance(obj, SymArray) and obj.dtype != object:
        return np.asarray(obj, dtype=None if isinstance(dtype, _FloatShim) else dtype)
    return np_array(obj, dtype=dtype, copy=False)


def np_zeros(shape, dtype=None, **k):
    return arr.full(_shape(shape), 0, _dt(dtype))


def np_ones(shape, dtype=None, **k):
    return arr.full(_shape(shape), 1, _dt(dtype))


def np_empty(shape, dtype=None, **k):
    return arr.full(_shape(shape), 0, _dt(dtype))


def np_full(shape, fill_value, dtype=None, **k):
    if dtype is None and isinstance(fill_value, (bool, np.bool_)):
        dtype = bool
    if dtype is None and isinstance(fill_value, str):
        return np.full(shape, fill_value)
    return arr.full(_shape(shape), fill_value, _dt(dtype))


def _dt(d):
    return None if isinstance(d, _FloatShim) else d


def _shape(s):
    if is_sym(s):
        return int(s)
    if isinstance(s, (tuple, list)):
        return tuple(int(i) for i in s)
    return s


def np_eye(n, m=None, k=0, dtype=None, **kw):
    if dtype is not None and _kind(dtype) in "iub":
        return np.eye(n, m, k, dtype=dtype)
    return SymArray(np.eye(n, m, k, dtype=int).astype(object))


def np_identity(n, dtype=None, **k):
    return np_eye(n)


def _like(v):
    def f(a, dtype=None, **k):
        if isinstance(a, np.ndarray) and a.dtype.kind in "biu" and dtype is None:
            return np.full_like(a, v)
        return arr.full(np.shape(strip(a)), v, _dt(dtype))

    return f


def np_full_like(a, fill_value, dtype=None, **k):
    return arr.full(np.shape(strip(a)), fill_value, _dt(dtype))


COARSE = [None]  # a harness may lower the resolution of fine grids


def np_linspace(start, stop, num=50, endpoint=True, **k):
    num = int(num)
    if COARSE[0] is not None and num >= 100:
        num = COARSE[0]
    d = num - 1 if endpoint else num
    if getattr(start, "ndim", 0) or getattr(stop, "ndim", 0) or isinstance(start, (list, tuple)) or isinstance(stop, (list, tuple)):
        return np.stack([start + (stop - start) * core.Fraction(i, d) for i in range(num)])
    vals = [
        start + (stop - start) * core.Fraction(i, d) if d else start for i in range(num)
    ]
    if not has_sym(vals) and not all(isinstance(v, (int, core.Fraction)) for v in vals):
        return np.linspace(start, stop, num, endpoint=endpoint, **k)
    return SymArray(vals)


class SymRange:
    """``np.arange(start, stop)`` with symbolic bounds (kept as an interval)."""

    def __init__(self, start, stop):
        self.start, self.stop = start, core.smax(start, stop)

    @property
    def size(self):
        return self.stop - self.start

    @property
    def shape(self):
        return (self.size,)

    ndim = 1

    def __len__(self):
        return int(self.size)

    def __getitem__(self, k):
        n = self.size
        if not isinstance(k, slice):
            if is_sym(k) or isinstance(k, (int, np.integer)):
                return self.start + core.ite(k < 0, k + n, k)
            raise Unsupported("indexing of a symbolic range")
        if k.step not in (None, 1):
            raise Unsupported("stepped slice of a symbolic range")

        def pos(i, default):
            if i is None:
                return default
            return core.smin(core.smax(core.ite(i < 0, i + n, i), 0), n)

        return SymRange(self.start + pos(k.start, 0), self.start + pos(k.stop, n))

    def __add__(self, o):
        return SymRange(self.start + o, self.stop + o)

    __radd__ = __add__

    def __sub__(self, o):
        return SymRange(self.start - o, self.stop - o)

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def __iter__(self):
        return (self.start + i for i in range(len(self)))

    def __repr__(self):
        return f"range({self.start}, {self.stop})"


def lazy_arange(*a, **k):
    if any(is_sym(i) for i in a) and len(a) <= 2:
        return SymRange(*((0, *a) if len(a) == 1 else a))
    return np_arange(*a, **k)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SymInt))


class IntShim(metaclass=_IntMeta):
    """`int` of which symbolic integers are instances."""

    def __new__(cls, *a, **k):
        return builtins.int(*a, **k)


def lazy_ranges():
    """Case options under which index ranges keep symbolic bounds."""
    return dict(
        extra={np: _Mod(np, {**NP._over, "arange": lazy_arange})},
        by_name={("*", "int"): IntShim},
    )


def np_arange(*a, **k):
    if any(is_sym(i) for i in a):
        a = [int(i) if is_sym(i) else i for i in a]
    return np.arange(*a, **k)


def np_unique(a, *args, **k):
    return _Func(np.unique)(a, *args, **k)


class _Mod:
    """Generic module proxy."""

    def __init__(self, mod, over=None, wrap=True):
        self.__dict__["_mod"] = mod
        self.__dict__["_over"] = over or {}
        self.__dict__["_wrap"] = wrap
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        o = self._over
        if n in o:
            return o[n]
        c = self._cache
        if n in c:
            return c[n]
        v = getattr(self._mod, n)
        if self._wrap and callable(v) and not isinstance(v, type):
            v = _Func(v)
        c[n] = v
        return v


def _vector(f):
    def g(x, *a, **k):
        return f(x)

    return g


LINALG = _Mod(np.linalg)


class _Random:
    def __getattr__(self, n):
        return getattr(np.random, n)


NP = _Mod(
    np,
    {
        "array": np_array,
        "asarray": np_asarray,
        "asanyarray": np_asarray,
        "ascontiguousarray": np_asarray,
        "zeros": np_zeros,
        "ones": np_ones,
        "empty": np_empty,
        "full": np_full,
        "eye": np_eye,
        "identity": np_identity,
        "zeros_like": _like(0),
        "ones_like": _like(1),
        "empty_like": _like(0),
        "full_like": np_full_like,
        "linspace": np_linspace,
        "arange": np_arange,
        "linalg": LINALG,
        "random": _Random(),
        "errstate": np.errstate,
        "vectorize": np.vectorize,
        "float64": core.lift if False else np.float64,
        "apply_along_axis": _Func(np.apply_along_axis),
        "ndindex": np.ndindex,
        "may_share_memory": lambda a, b, **k: np.may_share_memory(strip(a), strip(b)),
    },
)


def _m1(name):
    f = getattr(math, name)

    def g(x):
        if type(x) is Fraction:
            x = core.lift(x)
        if is_sym(x):
            return arr.UF[{"fabs": "absolute"}.get(name, name)](x)
        return f(x)

    return g


MATH = _Mod(
    math,
    {
        **{n: _m1(n) for n in ("sqrt", "exp", "log", "floor", "ceil", "fabs", "log1p", "expm1", "isnan", "isinf", "isfinite")},
        "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b)
        <= core.smax(rel_tol * core.smax(abs(a), abs(b)), abs_tol)
        if is_sym(a) or is_sym(b)
        else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol),
        "fsum": lambda it: arr.red(arr.c_add, list(it), None, False, 0),
        "prod": lambda it, start=1: arr.red(arr.c_mul, [start, *it], None, False, 1),
    },
    wrap=False,
)


class _FloatShim:
    """`float` that lets symbolic reals pass and parses registered symbolic tokens."""

    tokens = {}
    dtype = np.dtype("float64")
    __name__ = "float"

    def __call__(self, x=0.0):
        if is_sym(x):
            return core.lift(x)
        if isinstance(x, str) and x in self.tokens:
            return self.tokens[x]
        if isinstance(x, np.ndarray) and has_sym(x):
            return x.reshape(-1)[0]
        return builtins.float(x)

    def __instancecheck__(self, x):
        return isinstance(x, (builtins.float, SymReal))

    def __eq__(self, o):
        return o is self or o is builtins.float

    def __hash__(self):
        return hash(builtins.float)

    def __or__(self, o):
        return builtins.float | o

    __ror__ = __or__

    def __getattr__(self, n):
        return getattr(builtins.float, n)


def _build_skv():
    import sklearn.utils.validation as skv

    def one(est, X, reset=True, **k):
        v = X.to_numpy() if hasattr(X, "to_numpy") else X
        a = np_array(v)
        if reset and a.ndim == 2:
            est.n_features_in_ = a.shape[1]
            if hasattr(X, "columns"):
                est.feature_names_in_ = np.asarray(list(X.columns), dtype=object)
            elif hasattr(est, "feature_names_in_"):
                del est.feature_names_in_
        return a

    def validate_data(est, X="no_validation", y="no_validation", reset=True, **k):
        sx = not isinstance(X, str) and _data_sym(X)
        sy = not isinstance(y, str) and y is not None and _data_sym(y)
        if not sx and not sy:
            return skv.validate_data(est, X, y, reset=reset, **k)
        rx = one(est, X, reset)
        if isinstance(y, str):
            return rx
        if y is None:
            return rx, None
        return rx, one(est, y, False)

    def check_array(a, *args, **k):
        if _data_sym(a):
            return np_array(a.to_numpy() if hasattr(a, "to_numpy") else a)
        return skv.check_array(a, *args, **k)

    def check_non_negative(X, whom):
        if _data_sym(X):
            if bool((np_array(X) < 0).any()):
                raise ValueError(f"Negative values in data passed to {whom}.")
            return
        return skv.check_non_negative(X, whom)

    return skv, _Mod(
        skv,
        {
            "validate_data": validate_data,
            "check_array": check_array,
            "check_non_negative": check_non_negative,
        },
        wrap=False,
    )


def _data_sym(x):
    if isinstance(x, SymArray):
        return True
    if hasattr(x, "to_numpy"):
        try:
            return has_sym(x.to_numpy()) or any(
                isinstance(i, core.Fraction) for i in np.asarray(x.to_numpy(), dtype=object).reshape(-1)[:1]
            )
        except Exception:  # noqa: BLE001
            return False
    return has_sym(x)


MISSING = object()
ACTIVE_UNDO = []


def replacements(extra=None):
    skv, SKV = _build_skv()
    table = {id(np): NP, id(math): MATH, id(skv): SKV, id(np.linalg): LINALG}
    for k, v in (extra or {}).items():
        table[id(k)] = v
    names = dict(NP._over)
    byfunc = {}
    for n, v in names.items():
        o = getattr(np, n, None)
        if callable(o):
            byfunc[id(o)] = v
    for n in ("sqrt", "exp", "log", "floor", "ceil"):
        byfunc[id(getattr(math, n))] = MATH._over[n]
    return table, byfunc


def _no_warn(*a, **k):
    return None


@contextlib.contextmanager
def symbolic(extra=None, tokens=None, by_name=None):
    """Install the proxies in every loaded skfolio module."""
    table, byfunc = replacements(extra)
    undo = ACTIVE_UNDO
    undo.clear()
    shim = _FloatShim()
    shim.tokens = tokens or {}
    missing = MISSING
    for mname, mod in list(sys.modules.items()):
        if not (mname == "skfolio" or mname.startswith("skfolio.")) or mod is None:
            continue
        d = mod.__dict__
        for k, v in list(d.items()):
            r = table.get(id(v))
            if r is None and isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
                r = byfunc.get(id(v))
            if r is None and isinstance(v, np.ufunc):
                r = _Func(v)
            if r is None and callable(v) and not isinstance(v, type) and getattr(v, "__module__", "") and str(
                getattr(v, "__module__", "")
            ).startswith("numpy") and not isinstance(v, types.ModuleType):
                r = _Func(v)
            if r is not None:
                undo.append((d, k, v))
                d[k] = r
        undo.append((d, "float", d.get("float", missing)))
        d["float"] = shim
        for (mn, k), v in (by_name or {}).items():
            if mn in (mname, "*"):
                undo.append((d, k, d.get(k, missing)))
                d[k] = v
    try:
        yield
    finally:
        for d, k, v in reversed(undo):
            if v is missing:
                d.pop(k, None)
            else:
                d[k] = v
        undo.clear()


__all__ = [
    "SymArray",
    "SymBool",
    "SymInt",
    "SymReal",
    "Unsupported",
    "symbolic",
]
