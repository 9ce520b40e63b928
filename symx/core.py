"""Symbolic values and path exploration.

A symbolic real is a fraction ``n/d`` of two z3 terms (``d`` is ``None`` for 1), a
symbolic integer wraps a z3 Int term and a symbolic boolean a z3 Bool term.  The code
under test is executed with these values; every time it asks for the truth value of a
symbolic boolean the path explorer decides which side to take (both sides, one after
the other, as long as the solver does not refute them).
"""

import math
import numbers
import time
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


def _short(t):
    """Printed form of a term (error messages of the code under test may quote it)."""
    return str(t) if t.num_args() <= 2 and all(c.num_args() == 0 for c in t.children()) else f"term {t.get_id()}"


class Unsupported(BaseException):
    """The code under test used an operation the engine has no encoding for."""


class NonFinite(BaseException):
    """The code under test divides by zero / takes the root of a negative number."""


class PathStop(BaseException):
    """Abandon the current path (its path condition became unsatisfiable)."""


class Limit(BaseException):
    """An exploration limit was reached."""


# --------------------------------------------------------------------------- context
class Stats:
    def __init__(self):
        self.queries = 0
        self.feas = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.unknown_feas = 0

    def as_dict(self):
        return dict(self.__dict__)


class Ctx:
    """State of one path execution."""

    def __init__(self, prefix, base, stats, feas_ms=1500, div="assume", deadline=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []  # (taken, other side feasible)
        self.pc = []  # path condition incl. side definitions
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", feas_ms)
        self.div = div
        self.fresh_n = 0
        self.memo = {}
        self.notes = set()
        self.deadline = deadline
        self.lin = z3.Solver()  # the linear part of the path condition
        self.lin.set("timeout", feas_ms)
        for b in base:
            self.add(b)

    def add(self, f):
        if z3.is_true(f):
            return
        self.pc.append(f)
        self.solver.add(f)
        if is_linear(f):
            self.lin.add(f)

    def feasible(self, f):
        """False only when the solver refutes `f` on this path."""
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Limit("time limit")
        lin = is_linear(f)
        r = self.lin.check(f) if lin else self.lin.check()
        self.stats.feas += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            return False
        if lin and r == z3.sat:
            return True
        return self.check(f) != z3.unsat

    def fresh(self, name, sort="real"):
        self.fresh_n += 1
        nm = f"{name}!{self.fresh_n}"
        if sort == "real":
            return z3.Real(nm)
        if sort == "int":
            return z3.Int(nm)
        return z3.Bool(nm)

    def check(self, *fs):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Limit("time limit")
        r = self.solver.check(*fs)
        self.stats.feas += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown_feas += 1
        return r

    def decide(self, f):
        """Truth value of z3 Bool `f` on this path."""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, False))
            self.add(f if v else z3.Not(f))
            return v
        t_ok = self.feasible(f)
        f_ok = self.feasible(z3.Not(f))
        self.pos += 1
        if t_ok and f_ok:
            self.stats.decisions += 1
            self.trace.append((True, True))
            self.add(f)
            return True
        if t_ok:
            self.trace.append((True, False))
            self.add(f)
            return True
        if f_ok:
            self.trace.append((False, False))
            self.add(z3.Not(f))
            return False
        raise PathStop()


_LIN = {}


def is_linear(e):
    """No product of two non-constant terms (memoised)."""
    i = e.get_id()
    hit = _LIN.get(i)
    if hit is not None and hit[1].eq(e):
        return hit[0]
    v = True
    if z3.is_app(e) and e.num_args():
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_MUL:
            v = sum(0 if _isnum(x) else 1 for x in ch) <= 1
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            v = _isnum(ch[1])
        elif k == z3.Z3_OP_POWER:
            v = False
        v = v and all(is_linear(x) for x in ch)
    _LIN[i] = (v, e)
    return v


_CTX = [None]


def ctx():
    c = _CTX[0]
    if c is None:
        raise Unsupported("symbolic value used outside of a symbolic run")
    return c


def active():
    return _CTX[0] is not None


def explore(fn, base=(), max_paths=4000, feas_ms=1500, div="assume", time_limit=None):
    """Run `fn` on every feasible path; yields (ctx, outcome, exception)."""
    stats = Stats()
    work = [[]]
    deadline = time.time() + time_limit if time_limit else None
    while work:
        prefix = work.pop()
        c = Ctx(prefix, base, stats, feas_ms, div, deadline)
        _CTX[0] = c
        out = exc = None
        stopped = False
        try:
            out = fn()
        except PathStop:
            stopped = True
        except (Exception, Unsupported, NonFinite) as e:  # the outcome of the path
            exc = e
        for i in range(len(prefix), len(c.trace)):
            taken, other = c.trace[i]
            if other:
                work.append([t for t, _ in c.trace[:i]] + [not taken])
        if not stopped:
            stats.paths += 1
            try:
                yield c, out, exc, stats
            finally:
                _CTX[0] = None
        _CTX[0] = None
        if stats.paths >= max_paths and work:
            raise Limit(f"more than {max_paths} paths")


# --------------------------------------------------------------------------- numbers
_SNAP = {}


def to_fraction(x):
    """Exact rational meant by a concrete number (decimal literals are read exactly)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    r = _SNAP.get(x)
    if r is not None:
        return r
    if math.isnan(x) or math.isinf(x):
        raise NonFinite(f"non finite constant {x}")
    nice = Fraction(x).limit_denominator(100000)
    if nice != 0 and abs(float(nice) - x) <= 8e-16 * abs(x):
        r = nice
    elif x == 0:
        r = Fraction(0)
    else:
        r = Fraction(repr(x))
    _SNAP[x] = r
    return r


def rv(x):
    f = to_fraction(x)
    return z3.RealVal(f)


def is_sym(x):
    return isinstance(x, (SymReal, SymInt, SymBool))


def is_conc(x):
    return isinstance(x, numbers.Number) and not is_sym(x)


_ONE = z3.RealVal(1)
_ZERO = z3.RealVal(0)


def _isnum(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def _val(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


def _mul(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if _isnum(a):
        v = _val(a)
        if v == 0:
            return _ZERO
        if v == 1:
            return b
        if _isnum(b):
            return z3.RealVal(v * _val(b))
    elif _isnum(b):
        return _mul(b, a)
    return a * b


def _add(a, b):
    if _isnum(a):
        if _val(a) == 0:
            return b
        if _isnum(b):
            return z3.RealVal(_val(a) + _val(b))
    elif _isnum(b) and _val(b) == 0:
        return a
    return a + b


def lift(x):
    """Coerce to SymReal."""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.t))
    if isinstance(x, SymBool):
        return SymReal(z3.If(x.t, _ONE, _ZERO))
    if isinstance(x, bool):
        return SymReal(_ONE if x else _ZERO)
    if isinstance(x, numbers.Number) or type(x).__name__ in ("float64", "bool_", "bool"):
        return SymReal(rv(x))
    raise Unsupported(f"cannot lift {type(x)}")


def _numlike(x):
    if is_sym(x):
        return True
    if isinstance(x, numbers.Number):
        return not isinstance(x, complex)
    return type(x).__module__ == "numpy" and getattr(x, "ndim", None) == 0 and getattr(
        x, "dtype", None
    ) is not None and x.dtype.kind in "fiub"


class _ArrayHooks:
    """NumPy protocol entry points shared by all symbolic scalars."""

    ndim = 0
    shape = ()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symx import arr

        return arr.ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from symx import arr

        return arr.function(func, args, kwargs)

    # methods numpy looks up on objects
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return uf("exp", self)

    def log(self):
        return uf("log", self)

    def conjugate(self):
        return self

    def item(self):
        return self

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(_ArrayHooks):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().decide(self.t)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, bt(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t == bt(o))
        return lift(self) == o

    def __ne__(self, o):
        return bnot(self == o)

    __hash__ = object.__hash__

    def _i(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        if isinstance(o, (SymReal, float)):
            return ite(self, o, 0)
        return self._i() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._i() / o

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __neg__(self):
        return -self._i()

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return f"<b {_short(self.t)}>"

    def __format__(self, spec):
        return repr(self)


def bt(x):
    """z3 Bool of a bool-like value."""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, SymInt):
        return x.t != 0
    if isinstance(x, SymReal):
        return x.n != _ZERO
    return z3.BoolVal(bool(x))


def mkb(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def band(*xs):
    ts = []
    for x in xs:
        if not isinstance(x, SymBool) and not is_sym(x):
            if not bool(x):
                return False
            continue
        ts.append(bt(x))
    if not ts:
        return True
    return SymBool(z3.And(ts) if len(ts) > 1 else ts[0])


def bor(*xs):
    ts = []
    for x in xs:
        if not isinstance(x, SymBool) and not is_sym(x):
            if bool(x):
                return True
            continue
        ts.append(bt(x))
    if not ts:
        return False
    return SymBool(z3.Or(ts) if len(ts) > 1 else ts[0])


def bnot(x):
    if isinstance(x, SymBool):
        return mkb(z3.simplify(z3.Not(x.t)))
    if is_sym(x):
        return SymBool(z3.Not(bt(x)))
    return not x


def implies(a, b):
    return bor(bnot(a), b)


class SymInt(_ArrayHooks):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def _c(o):
        if isinstance(o, SymInt):
            return o.t
        if isinstance(o, SymBool):
            return z3.If(o.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, numbers.Integral):
            return z3.IntVal(int(o))
        if isinstance(o, float) and o.is_integer():
            return None
        return None

    def _bin(self, o, f, rev=False):
        if not _numlike(o):
            return NotImplemented
        c = self._c(o)
        if c is None:
            a, b = lift(self), lift(o)
            return f(b, a) if rev else f(a, b)
        return SymInt(z3.simplify(f(c, self.t) if rev else f(self.t, c)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _numlike(o):
            return NotImplemented
        return lift(self) / lift(o)

    def __rtruediv__(self, o):
        if not _numlike(o):
            return NotImplemented
        return lift(o) / lift(self)

    def __floordiv__(self, o):
        if not _numlike(o):
            return NotImplemented
        c = self._c(o)
        if c is None:
            return floor(lift(self) / lift(o))
        return _floordiv(self.t, c)

    def __rfloordiv__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        return _floordiv(c, self.t)

    def __mod__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        return self - SymInt(_floordiv(self.t, c).t) * SymInt(c)

    def __rmod__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        return SymInt(c) - SymInt(_floordiv(c, self.t).t) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, k):
        return lift(self) ** k if not (isinstance(k, int) and k >= 0) else _ipow(self, k)

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, f):
        if not _numlike(o):
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            return f(0, 1 if o > 0 else -1)
        c = self._c(o)
        if c is None:
            return f(lift(self), lift(o))
        return mkb(z3.simplify(f(self.t, c)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not _numlike(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not _numlike(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(int(self))

    def __bool__(self):
        return ctx().decide(self.t != 0)

    def __index__(self):
        return concretize(self.t)

    def __int__(self):
        return concretize(self.t)

    def __float__(self):
        return float(concretize(self.t))

    def __round__(self, n=None):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def __repr__(self):
        return f"<i {_short(self.t)}>"

    def __format__(self, spec):
        return repr(self)


def _ipow(x, k):
    r = 1
    for _ in range(k):
        r = r * x
    return r


def _floordiv(a, b):
    """Python floor division on z3 Ints (z3 div rounds so that the rest is >= 0)."""
    c = ctx()
    if _isnum(b):
        v = _val(b)
        if v == 0:
            raise ZeroDivisionError
        if v > 0:
            return SymInt(z3.simplify(a / b))
        return SymInt(z3.simplify((-a) / (-b)))
    if c.decide(b == 0):
        raise ZeroDivisionError
    if c.decide(b > 0):
        return SymInt(a / b)
    return SymInt((-a) / (-b))


def concretize(t):
    """Fork over the feasible values of Int term `t`."""
    c = ctx()
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    for _ in range(10000):
        v = _candidate(c, t)
        if c.decide(t == v):
            return v
    raise Limit("concretisation")


def _candidate(c, t):
    """Deterministic candidate: the smallest feasible value (so replays agree)."""
    r = c.check()
    if r == z3.unsat:
        raise PathStop()
    if r != z3.sat:
        raise Unsupported("cannot concretise an integer (solver unknown)")
    v = c.solver.model().eval(t, model_completion=True).as_long()
    # minimise
    for _ in range(200):
        r = c.check(t < v)
        if r == z3.sat:
            v = c.solver.model().eval(t, model_completion=True).as_long()
        else:
            break
    return v


class SymReal(_ArrayHooks):
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d

    # -- helpers
    @property
    def term(self):
        return self.n if self.d is None else self.n / self.d

    def is_const(self):
        return self.d is None and _isnum(self.n)

    def __add__(self, o):
        if not _numlike(o):
            return NotImplemented
        o = lift(o)
        if self.d is None and o.d is None:
            return SymReal(_add(self.n, o.n))
        if self.d is not None and o.d is not None and self.d.eq(o.d):
            return SymReal(_add(self.n, o.n), self.d)
        if o.is_const() and _val(o.n) == 0:
            return self
        if self.is_const() and _val(self.n) == 0:
            return o
        return SymReal(
            _add(_mul(self.n, o.d), _mul(o.n, self.d)), _mul(self.d, o.d)
        )

    __radd__ = __add__

    def __neg__(self):
        if _isnum(self.n):
            return SymReal(z3.RealVal(-_val(self.n)), self.d)
        return SymReal(_mul(z3.RealVal(-1), self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not _numlike(o):
            return NotImplemented
        return self + (-lift(o))

    def __rsub__(self, o):
        if not _numlike(o):
            return NotImplemented
        return lift(o) + (-self)

    def __mul__(self, o):
        if not _numlike(o):
            return NotImplemented
        if isinstance(o, SymBool):
            return ite(o, self, 0)
        o = lift(o)
        a, b = self, o
        if (a.is_const() and _val(a.n) == 0) or (b.is_const() and _val(b.n) == 0):
            return SymReal(_ZERO)
        if a.d is None and b.d is None and a.n.eq(b.n) and active():
            sq = ctx().memo.get(("sq", a.n.get_id()))
            if sq is not None:
                return sq[0]
        # cheap cancellation
        if b.d is not None and a.n.eq(b.d):
            return SymReal(b.n, a.d)
        if a.d is not None and b.n.eq(a.d):
            return SymReal(a.n, b.d)
        return SymReal(_mul(a.n, b.n), _mul(a.d, b.d))

    __rmul__ = __mul__

    def inv(self):
        c = ctx()
        n = self.n
        if _isnum(n):
            v = _val(n)
            if v == 0:
                raise NonFinite("division by zero")
            return SymReal(_mul(self.d, z3.RealVal(1 / v)) if self.d is not None else z3.RealVal(1 / v))
        if c.div == "assume":
            if ("nz", n.get_id()) not in c.memo:
                c.memo[("nz", n.get_id())] = n
                c.add(n != 0)
                c.notes.add("divisors are non-zero")
        else:
            if c.decide(n == 0):
                raise NonFinite("division by zero")
        return SymReal(self.d if self.d is not None else _ONE, n)

    def __truediv__(self, o):
        if not _numlike(o):
            return NotImplemented
        o = lift(o)
        if o.is_const():
            v = _val(o.n)
            if v == 0:
                raise NonFinite("division by zero")
            return self * SymReal(z3.RealVal(1 / v))
        if self.d is None and o.d is None and self.n.eq(o.n):
            o.inv()
            return SymReal(_ONE)
        return self * o.inv()

    def __rtruediv__(self, o):
        if not _numlike(o):
            return NotImplemented
        return lift(o) / self

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(o / self)

    def __mod__(self, o):
        return self - floor(self / o) * o

    def __pow__(self, k):
        return power(self, k)

    def __rpow__(self, b):
        return power(lift(b), self)

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def _cmp(self, o, f, pyf):
        if not _numlike(o):
            return NotImplemented
        if isinstance(o, float):
            if math.isnan(o):
                return False
            if math.isinf(o):
                return pyf(0, 1 if o > 0 else -1)
        o = lift(o)
        if self.d is None and o.d is None:
            return mkb(z3.simplify(f(self.n, o.n)))
        if self.d is not None and o.d is not None and self.d.eq(o.d):
            diff, d = self.n - o.n, self.d
        else:
            s = self - o
            diff, d = s.n, s.d
        if d is None:
            return mkb(z3.simplify(f(diff, _ZERO)))
        s = sign_of(d)
        if s > 0:
            return mkb(z3.simplify(f(diff, _ZERO)))
        if s < 0:
            return mkb(z3.simplify(f(_ZERO, diff)))
        return mkb(z3.simplify(f(diff * d, _ZERO)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        if not _numlike(o):
            return NotImplemented
        if isinstance(o, float) and (math.isnan(o) or math.isinf(o)):
            return False
        o = lift(o)
        if self.d is None and o.d is None:
            return mkb(z3.simplify(self.n == o.n))
        if self.d is not None and o.d is not None and self.d.eq(o.d):
            return mkb(z3.simplify(self.n == o.n))
        return mkb(z3.simplify(_mul(self.n, o.d) == _mul(o.n, self.d)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r)

    def __hash__(self):
        return hash((self.n.hash(), 0 if self.d is None else self.d.hash()))

    def __bool__(self):
        return ctx().decide(self.n != _ZERO)

    def __float__(self):
        if self.is_const():
            return float(_val(self.n))
        s = z3.simplify(self.n)
        if self.d is None and _isnum(s):
            return float(_val(s))
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        return concretize(trunc(self).t)

    __trunc__ = __int__

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __round__(self, ndigits=None):
        return rint(self) if not ndigits else rint(self * 10**ndigits) / 10**ndigits

    def is_integer(self):
        return SymBool(z3.IsInt(self.term))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __repr__(self):
        return f"<r {_short(self.n)}" + (f" / {_short(self.d)}>" if self.d is not None else ">")

    def __format__(self, spec):
        return repr(self)


numbers.Number.register(SymReal)
numbers.Real.register(SymReal)
numbers.Number.register(SymInt)
numbers.Integral.register(SymInt)


def _struct_sign(d, memo):
    """Sign of a term from its structure: +1, -1, or 0 when unknown."""
    if _isnum(d):
        v = _val(d)
        return (v > 0) - (v < 0)
    i = d.get_id()
    if ("sq", i) in memo and ("nz", i) in memo:
        return 1
    if ("pos", i) in memo:
        return 1
    if not z3.is_app(d):
        return 0
    k = d.decl().kind()
    if k == z3.Z3_OP_MUL:
        ch = d.children()
        if len(ch) == 2 and ch[0].eq(ch[1]):
            return 1 if ("nz", ch[0].get_id()) in memo else 0
        r = 1
        for x in ch:
            r *= _struct_sign(x, memo)
        return r
    if k == z3.Z3_OP_ADD:
        ss = {_struct_sign(x, memo) for x in d.children()}
        return ss.pop() if len(ss) == 1 else 0
    if k == z3.Z3_OP_UMINUS:
        return -_struct_sign(d.arg(0), memo)
    return 0


def sign_of(d):
    """+1/-1 when the sign of z3 term `d` is known on this path, else 0."""
    c = ctx()
    key = ("sgn", d.get_id())
    hit = c.memo.get(key)
    if hit is not None:
        return hit[1]
    s = _struct_sign(d, c.memo)
    if not s:
        if not c.feasible(d <= 0):
            s = 1
        elif not c.feasible(d >= 0):
            s = -1
    if s:
        c.memo[key] = (d, s)
    return s


# --------------------------------------------------------------------------- functions
def _nan_safe(f):
    """Arithmetic with a missing value gives a missing value."""

    def g(self, o):
        if isinstance(o, float) and o != o:
            return math.nan
        return f(self, o)

    return g


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv"):
    setattr(SymReal, f"__{_n}__", _nan_safe(getattr(SymReal, f"__{_n}__")))


def ite(cnd, a, b):
    if not isinstance(cnd, SymBool):
        return a if bool(cnd) else b
    if a is b:
        return a
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkb(z3.simplify(z3.If(cnd.t, bt(a), bt(b))))
    if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)):
        return SymInt(z3.If(cnd.t, SymInt._c(a), SymInt._c(b)))
    a, b = lift(a), lift(b)
    if a.d is None and b.d is None:
        if a.n.eq(b.n):
            return a
        return SymReal(z3.If(cnd.t, a.n, b.n))
    if a.d is not None and b.d is not None and a.d.eq(b.d):
        return SymReal(z3.If(cnd.t, a.n, b.n), a.d)
    ad = a.d if a.d is not None else _ONE
    bd = b.d if b.d is not None else _ONE
    return SymReal(z3.If(cnd.t, a.n, b.n), z3.If(cnd.t, ad, bd))


FORK_MAX = [False]  # maxima split the path instead of becoming if-then-else terms


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, float) and math.isinf(x):
            return x if x > 0 else y
    if FORK_MAX[0]:
        return a if bool(a >= b) else b
    return ite(a >= b, a, b)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, float) and math.isinf(x):
            return y if x > 0 else x
    if FORK_MAX[0]:
        return a if bool(a <= b) else b
    return ite(a <= b, a, b)


def sabs(a):
    return abs(a)


def floor(x):
    if not is_sym(x):
        return math.floor(x)
    if isinstance(x, SymInt):
        return x
    return SymInt(z3.ToInt(lift(x).term))


def ceil(x):
    if not is_sym(x):
        return math.ceil(x)
    if isinstance(x, SymInt):
        return x
    return SymInt(-z3.ToInt((-lift(x)).term))


def trunc(x):
    return ite(x >= 0, floor(x), ceil(x))


def rint(x):
    """Round half to even."""
    if not is_sym(x):
        return round(x)
    if isinstance(x, SymInt):
        return x
    f = floor(x)
    r = x - f
    half = Fraction(1, 2)
    even = SymBool(f.t % 2 == 0)
    return ite(r < half, f, ite(r > half, f + 1, ite(even, f, f + 1)))


def sqrt(x):
    if not is_sym(x):
        x = float(x) if not isinstance(x, (Fraction, int)) else x
        if x < 0:
            return float("nan")
        f = to_fraction(x)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return Fraction(a, b) if isinstance(x, Fraction) else a / b
        if not active():
            return math.sqrt(x)
        x = SymReal(z3.RealVal(f))
    c = ctx()
    x = lift(x)
    n = z3.simplify(x.n, som=True)
    d = None if x.d is None else z3.simplify(x.d, som=True)
    if d is None and _isnum(n):
        f = _val(n)
        if f < 0:
            raise NonFinite("square root of a negative number")
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return SymReal(z3.RealVal(Fraction(a, b)))
    key = ("sqrt", n.get_id(), None if d is None else d.get_id())
    if key in c.memo:
        return c.memo[key][0]
    if (x >= 0) is False:
        raise NonFinite("square root of a negative number")
    if c.div == "assume":
        cond = x >= 0
        if cond is not True:
            c.add(cond.t)
    else:
        if x < 0:
            raise NonFinite("square root of a negative number")
    r = c.fresh("sqrt")
    c.add(r >= 0)
    c.add(r * r == n if d is None else r * r * d == n)
    if _isnum(n) is False:
        nn = n if d is None else n * d
        c.add(z3.Implies(nn > 0, r > 0))
    res = SymReal(r)
    c.memo[key] = (res, n, d)
    c.memo[("sq", r.get_id())] = (SymReal(n, d), r)
    return res


_UFS = {}


def uf(name, *args):
    """Uninterpreted real function (exp, log, ...) with a few sound instance axioms."""
    c = ctx()
    args = [lift(a) for a in args]
    if name not in _UFS:
        _UFS[name] = z3.Function(
            name, *([z3.RealSort()] * len(args)), z3.RealSort()
        )
    f = _UFS[name]
    ts = [z3.simplify(a.term, som=True) for a in args]
    if name == "exp":
        t = ts[0]
        if _isnum(t) and _val(t) == 0:
            return SymReal(_ONE)
        if z3.is_app(t) and t.decl().eq(_UFS.get("log", f)) and "log" in _UFS:
            return SymReal(t.arg(0))
    if name == "log":
        t = ts[0]
        if _isnum(t) and _val(t) == 1:
            return SymReal(_ZERO)
        if "exp" in _UFS and z3.is_app(t) and t.decl().eq(_UFS["exp"]):
            return SymReal(t.arg(0))
        if c.div == "assume":
            c.add(t > 0)
    r = f(*ts)
    if name == "exp":
        key = ("expax", r.get_id())
        if key not in c.memo:
            c.memo[key] = r
            c.add(r > 0)
    return SymReal(r)


def power(x, k):
    if is_sym(k) and not (isinstance(k, SymReal) and k.is_const()):
        if not is_sym(x) and x == 1:
            return 1
        if isinstance(k, SymInt):
            return power(x, int(k))
        return uf("pow", x, k)
    if isinstance(k, SymReal):
        k = _val(k.n)
    kf = to_fraction(k)
    if kf.denominator == 1:
        kk = int(kf)
        if kk < 0:
            return 1 / power(x, -kk)
        if kk == 0:
            return 1
        x0 = x
        if isinstance(x, SymReal) and x.d is None:
            sq = ctx().memo.get(("sq", x.n.get_id()))
            if sq is not None and kk >= 2:
                half = power(sq[0], kk // 2)
                return half * x if kk % 2 else half
        r = x0
        for _ in range(kk - 1):
            r = r * x0
        return r
    if kf.denominator == 2:
        s = sqrt(x)
        return power(s, kf.numerator)
    return root(x, kf)


def root(x, kf):
    """x ** (p/q) for x >= 0 through a fresh q-th root."""
    c = ctx()
    x = lift(x)
    p, q = kf.numerator, kf.denominator
    n = z3.simplify(x.term, som=True)
    key = ("root", n.get_id(), q)
    if key in c.memo:
        r = c.memo[key][0]
    else:
        c.add(n >= 0)
        t = c.fresh("root")
        c.add(t >= 0)
        m = _ONE
        for _ in range(q):
            m = _mul(m, t)
        c.add(m == n)
        c.add(z3.Implies(n > 0, t > 0))
        r = SymReal(t)
        c.memo[key] = (r, n)
    return power(r, p)


def sign(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0))
