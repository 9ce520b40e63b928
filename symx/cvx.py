"""A stand-in for cvxpy that records the problem handed to the numerical solver.

Expressions are evaluated eagerly on symbolic arrays: a ``Variable`` is an array of fresh
solver constants, an atom is its definition.  ``Problem.solve`` does not optimise: it
records the feasible set and the objective as formulas over the variables, and the
harness asks the SMT solver whether that problem is the documented one (for every weight
vector, and every value of the auxiliary variables).  The replay runs the real cvxpy.
"""

import cvxpy as _cp
import numpy as np
import z3

from symx import arr, core, patch
from symx.arr import SymArray
from symx.core import SymBool, SymReal, Unsupported, is_sym, lift

RECORDS = []
_N = [0]


def _fresh(name, boolean=False):
    _N[0] += 1
    return z3.Real(f"{name}!{_N[0]}")


def reset():
    RECORDS.clear()
    _N[0] = 0
    EXP.update(outer=None, inner=None)


def _raw(x):
    if isinstance(x, Expression):
        return x.v
    if hasattr(x, "to_numpy"):
        x = x.to_numpy()
    if isinstance(x, (list, tuple)):
        x = np.array([_raw(i) for i in x], dtype=object)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return x.item()
        return SymArray(x.astype(object)) if not isinstance(x, SymArray) else x
    return x


def _scalar(v):
    return not isinstance(v, np.ndarray)


def _shape(v):
    return () if _scalar(v) else v.shape


def _sign(v):
    """+1 / -1 when every entry of the constant is known non-negative / non-positive, else None."""
    es = [lift(x) for x in (arr._obj(v).reshape(-1) if not _scalar(v) else [v])]
    c = core.ctx()
    for s_, cond in ((1, [e >= 0 for e in es]), (-1, [e <= 0 for e in es])):
        if all(_surely(c, x) for x in cond):
            return s_
    return None


def _surely(c, x):
    t = z3.simplify(core.bt(x))
    if z3.is_true(t) or z3.is_false(t):
        return z3.is_true(t)
    return not c.feasible(z3.Not(t))


def _flip(k):
    return {"convex": "concave", "concave": "convex"}.get(k, k)


def _join(a, b):
    """Curvature of a sum."""
    if a == b:
        return a
    for lo in ("const", "affine"):
        if a == lo:
            return b
        if b == lo:
            return a
    return "unknown"


class DCPError(_cp.error.DCPError):
    pass


class Expression:
    """A numeric expression with its curvature (constant, affine, convex, concave, unknown)."""

    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, v, kind="affine", defs=()):
        self.v = v
        self.kind = kind
        self.defs = tuple(defs)

    # -- structure
    @property
    def shape(self):
        return _shape(self.v)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return int(np.prod(self.shape)) if self.shape else 1

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __getitem__(self, k):
        return Expression(self.v[k], self.kind, self.defs)

    @property
    def T(self):
        return Expression(self.v if _scalar(self.v) else self.v.T, self.kind, self.defs)

    def is_affine(self):
        return self.kind in ("const", "affine")

    def is_constant(self):
        return self.kind == "const"

    def is_dcp(self, *a, **k):
        return True

    @property
    def value(self):
        return RESULT(self.v)

    def flatten(self, order="F"):
        return vec(self, order=order)

    # -- arithmetic
    def _lin(self, o, f):
        e = as_expr(o)
        return Expression(f(self.v, e.v), _join(self.kind, e.kind), self.defs + e.defs)

    def __add__(self, o):
        return self._lin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._lin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self + (-as_expr(o))

    def __rsub__(self, o):
        return as_expr(o) + (-self)

    def __neg__(self):
        return Expression(-self.v, _flip(self.kind), self.defs)

    def _prod(self, e, f):
        if self.kind == "const":
            k, c = e.kind, self.v
        elif e.kind == "const":
            k, c = self.kind, e.v
        else:
            k, c = "unknown", 1
        if k in ("convex", "concave"):
            sg = _sign(c)
            k = k if sg == 1 else _flip(k) if sg == -1 else "unknown"
        return Expression(f(self.v, e.v), k, self.defs + e.defs)

    def __mul__(self, o):
        e = as_expr(o)
        if not _scalar(self.v) and not _scalar(e.v) and self.size > 1 and e.size > 1:
            return self @ e  # cvxpy: product of arrays is the matrix product
        return self._prod(e, lambda a, b: a * b)

    def __rmul__(self, o):
        return as_expr(o) * self

    def __truediv__(self, o):
        return self._prod(as_expr(o), lambda a, b: a / b)

    def __rtruediv__(self, o):
        return as_expr(o) / self

    def __matmul__(self, o):
        return self._prod(as_expr(o), lambda a, b: a @ b)

    def __rmatmul__(self, o):
        return as_expr(o)._prod(self, lambda a, b: a @ b)

    def __pow__(self, k):
        if k == 2:
            return square(self)
        return Expression(self.v**k, "const" if self.kind == "const" else "unknown", self.defs)

    def __abs__(self):
        return abs_(self)

    # -- constraints
    def _rel(self, o, op):
        e = as_expr(o)
        if op == "eq":
            dcp = self.is_affine() and e.is_affine()
        else:
            dcp = self.kind in ("const", "affine", "convex") and e.kind in ("const", "affine", "concave")
        a, b = self.v, e.v
        if not _scalar(a) or not _scalar(b):
            a, b = np.broadcast_arrays(arr._obj(a), arr._obj(b))
            pairs = [(a[i], b[i]) for i in np.ndindex(*a.shape)]
        else:
            pairs = [(a, b)]
        return Constraint([(op, lift(x), lift(y)) for x, y in pairs], self.defs + e.defs, dcp)

    def __le__(self, o):
        return self._rel(o, "le")

    def __ge__(self, o):
        return as_expr(o)._rel(self, "le")

    def __eq__(self, o):
        return self._rel(o, "eq")

    def __lt__(self, o):
        raise NotImplementedError("Strict inequalities are not allowed.")

    __gt__ = __lt__

    def __rshift__(self, o):
        e = as_expr(o)
        d = self - e
        return PSDConstraint(d)

    __hash__ = object.__hash__


def as_expr(x):
    return x if isinstance(x, Expression) else Expression(_raw(x), "const")


class Constant(Expression):
    def __init__(self, v):
        super().__init__(_raw(v), "const")


class Leaf(Expression):
    pass


class Variable(Leaf):
    def __init__(self, shape=(), name=None, nonneg=False, nonpos=False, pos=False, boolean=False, integer=False, symmetric=False, PSD=False, **k):
        if k and any(v for v in k.values()):
            raise Unsupported(f"variable attributes {k}")
        shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
        self.boolean = boolean
        self.nonneg = nonneg or pos
        self.consts = []
        if shape == ():
            t = _fresh(name or "x")
            self.consts.append(t)
            v = SymReal(t)
        else:
            o = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                if symmetric and len(i) == 2 and i[0] > i[1]:
                    o[i] = o[i[1], i[0]]
                    continue
                t = _fresh(name or "x")
                self.consts.append(t)
                o[i] = SymReal(t)
            v = SymArray(o)
        super().__init__(v, "affine")
        dom = []
        for t in self.consts:
            if nonneg or pos:
                dom.append(t >= 0)
            if nonpos:
                dom.append(t <= 0)
            if integer:
                raise Unsupported("integer variable")
        self.defs = (Domain(self, dom),)


class Domain:
    """Implicit constraints carried by a variable or an atom."""

    def __init__(self, owner, fs, aux=()):
        self.owner, self.fs, self.aux = owner, list(fs), list(aux)


class Parameter(Leaf):
    def __init__(self, shape=(), nonneg=False, value=None, **k):
        if shape not in ((), 1, (1,)):
            raise Unsupported("array parameter")
        self.t = _fresh("param")
        self._value = value
        self.nonneg = nonneg
        super().__init__(SymReal(self.t), "const")
        self.defs = (Domain(self, []),)

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, x):
        if self.nonneg and not bool(x >= 0):
            raise ValueError("Parameter value must be nonnegative.")
        self._value = x


class Constraint:
    """Conjunction of scalar relations (op, a, b)."""

    dcp = True

    def __init__(self, rels, defs=(), dcp=True):
        self.rels = rels
        self.defs = tuple(defs)
        self.dcp = dcp

    def formulas(self):
        out = []
        for op, a, b in self.rels:
            f = (a <= b) if op == "le" else (a == b)
            out.append(core.bt(f))
        return out

    def is_dcp(self, *a, **k):
        return True


class SOCConstraint(Constraint):
    def __init__(self, t, x):
        t, x = as_expr(t), as_expr(x)
        self.t, self.x = t, x
        self.rels = []
        self.dcp = t.is_affine() and x.is_affine()
        self.defs = t.defs + x.defs

    def formulas(self):
        t = lift(self.t.v)
        xs = [lift(i) for i in arr._obj(self.x.v).reshape(-1)]
        s = xs[0] * xs[0]
        for i in xs[1:]:
            s = s + i * i
        return [core.bt(t >= 0), core.bt(s <= t * t)]


class ExpConeConstraint(Constraint):
    """{(x, y, z) : y > 0, y exp(x / y) <= z}."""

    def __init__(self, x, y, z):
        x, y, z = as_expr(x), as_expr(y), as_expr(z)
        self.args = (x, y, z)
        self.aux = []
        self.rels = []
        self.dcp = all(a.is_affine() for a in self.args)
        self.defs = x.defs + y.defs + z.defs

    def formulas(self):
        out = []
        for x, y, z in zip(*(arr._obj(a.v).reshape(-1) for a in self.args), strict=True):
            x, y, z = lift(x), lift(y), lift(z)
            out += [core.bt(y >= 0), core.bt(z >= 0)]
            if EXP["outer"] is not None:
                # tangents: y exp(x / y) >= c (x + (1 - log c) y) for every c > 0
                for c, lc in EXP["outer"]:
                    out.append(core.bt(c * (x + (1 - lc) * y) <= z))
            elif EXP["inner"] is not None:
                # conic combinations of points (u, 1, exp u) of the cone
                lam = [_fresh("lam") for _ in EXP["inner"]]
                self.aux += lam
                ls = [SymReal(t) for t in lam]
                out += [t >= 0 for t in lam]
                out.append(core.bt(y == _total(ls)))
                out.append(core.bt(x <= _total([l * u for l, (u, _) in zip(ls, EXP["inner"])])))
                out.append(core.bt(z >= _total([l * e for l, (_, e) in zip(ls, EXP["inner"])])))
            else:
                raise Unsupported("exponential cone without an approximation")
        return out


# the exponential cone is replaced by a polyhedron: containing it ("outer", to show that the
# problem is never better than documented) or inside it ("inner", to show that it is reached)
EXP = {"outer": None, "inner": None}


class PSDConstraint(Constraint):
    """Positive semidefinite, as the non-negativity of every principal minor."""

    def __init__(self, e):
        self.e = e
        self.rels = []
        self.dcp = e.is_affine()
        self.defs = e.defs

    def formulas(self):
        import itertools

        m = arr._obj(self.e.v)
        n = m.shape[0]
        out = []
        for i in range(n):
            for j in range(i):
                out.append(core.bt(lift(m[i, j]) == lift(m[j, i])))
        for k in range(1, n + 1):
            for ix in itertools.combinations(range(n), k):
                out.append(core.bt(_det([[lift(m[i, j]) for j in ix] for i in ix]) >= 0))
        return out


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    s = 0
    for j in range(n):
        sub = [[r[k] for k in range(n) if k != j] for r in m[1:]]
        s = s + (1 if j % 2 == 0 else -1) * m[0][j] * _det(sub)
    return s


# --------------------------------------------------------------------------- atoms
def _flat(e):
    return [lift(i) for i in arr._obj(e.v).reshape(-1)]


def _total(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def sum_(e, axis=None, keepdims=False):
    e = as_expr(e)
    if axis is not None:
        return Expression(e.v.sum(axis=axis, keepdims=keepdims), e.kind, e.defs)
    return Expression(_total(_flat(e)), e.kind, e.defs)


def multiply(a, b):
    return as_expr(a)._prod(as_expr(b), lambda x, y: x * y)


def _nonneg(e):
    return getattr(e, "nonneg", False)


def _map(f, rule):
    def g(e):
        e = as_expr(e)
        k = "const" if e.kind == "const" else rule(e)
        if _scalar(e.v):
            return Expression(f(lift(e.v)), k, e.defs)
        o = arr._obj(e.v)
        r = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            r[i] = f(lift(o[i]))
        return Expression(SymArray(r), k, e.defs)

    return g


_AFF = lambda e: "convex" if e.is_affine() or (e.kind == "convex" and _nonneg(e)) else "unknown"  # noqa: E731
pos = _map(lambda x: core.smax(x, 0), lambda e: "convex" if e.is_affine() or e.kind == "convex" else "unknown")
neg = _map(lambda x: core.smax(-x, 0), lambda e: "convex" if e.is_affine() or e.kind == "concave" else "unknown")
abs_ = _map(core.sabs, _AFF)
square = _map(lambda x: x * x, _AFF)
_log = _map(lambda x: core.uf("log", x), lambda e: "concave" if e.is_affine() or e.kind == "concave" else "unknown")
exp = _map(lambda x: core.uf("exp", x), lambda e: "convex" if e.is_affine() or e.kind == "convex" else "unknown")


def log(e):
    e = as_expr(e)
    r = _log(e)
    if e.kind != "const":
        r.defs = (*r.defs, Domain(r, [core.bt(x > 0) for x in _flat(e)]))
    return r


def sqrt(e):
    e = as_expr(e)
    if e.kind == "const":
        return Expression(core.sqrt(lift(e.v)), "const", e.defs)
    raise Unsupported("sqrt of a variable")


def sum_squares(e):
    e = as_expr(e)
    return Expression(_total([x * x for x in _flat(e)]), "const" if e.kind == "const" else _AFF(e), e.defs)


def maximum(a, b):
    a, b = as_expr(a), as_expr(b)
    return Expression(arr._obj(a.v) if False else np.vectorize(core.smax, otypes=[object])(arr._obj(a.v), arr._obj(b.v)).view(SymArray), "convex" if all(x.is_affine() or x.kind == "convex" for x in (a, b)) else "unknown", a.defs + b.defs)


def max_(e):
    xs = _flat(as_expr(e))
    m = xs[0]
    for x in xs[1:]:
        m = core.smax(m, x)
    e = as_expr(e)
    return Expression(m, "convex" if e.is_affine() or e.kind == "convex" else "unknown", e.defs)


def norm(e, p=2, axis=None):
    e = as_expr(e)
    if axis is not None:
        raise Unsupported("norm along an axis")
    kind = "const" if e.kind == "const" else _AFF(e)
    xs = _flat(e)
    if p == 1:
        return Expression(_total([core.sabs(x) for x in xs]), kind, e.defs)
    if p in ("inf", np.inf):
        return max_(abs_(e))
    if p in (2, "fro"):
        if e.ndim == 2 and p == 2 and min(e.shape) > 1:
            raise Unsupported("spectral norm")
        t = _fresh("norm")
        s = core.bt(_total([x * x for x in xs]) == SymReal(t) * SymReal(t))
        return Expression(SymReal(t), kind, (*e.defs, Domain(NormAtom(t, xs), [t >= 0, s], [t])))
    raise Unsupported(f"norm {p}")


class NormAtom:
    def __init__(self, t, xs):
        self.t, self.xs = t, xs


def pnorm(e, p=2, axis=None):
    return norm(e, p, axis)


def norm1(e):
    return norm(e, 1)


def quad_form(x, P, **k):
    x = as_expr(x)
    return Expression(x.v @ _raw(P) @ x.v, _AFF(x), x.defs)


def reshape(e, shape, order="F"):
    e = as_expr(e)
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    v = arr._obj(e.v).reshape(shape, order=order)
    return Expression(SymArray(v), e.kind, e.defs)


def vec(e, order="F"):
    e = as_expr(e)
    return Expression(SymArray(arr._obj(e.v).reshape(-1, order=order)), e.kind, e.defs)


def _stack(f):
    def g(xs):
        es = [as_expr(x) for x in xs]
        k = "affine" if all(e.is_affine() for e in es) else "unknown"
        return Expression(SymArray(f([np.atleast_1d(arr._obj(e.v)) for e in es])), k, sum((e.defs for e in es), ()))

    return g


vstack = _stack(np.vstack)
hstack = _stack(np.hstack)


def trace(e):
    e = as_expr(e)
    v = arr._obj(e.v)
    return Expression(_total([lift(v[i, i]) for i in range(v.shape[0])]), e.kind, e.defs)


def diag(e, k=0):
    e = as_expr(e)
    return Expression(SymArray(np.diag(arr._obj(e.v), k)), e.kind, e.defs)


# --------------------------------------------------------------------------- problem
class Objective:
    sense = 1

    def __init__(self, e):
        self.expr = as_expr(e)

    @property
    def args(self):
        return [self.expr]


class Minimize(Objective):
    pass


class Maximize(Objective):
    sense = -1


class Record:
    """The problem given to the solver: constraints and (minimised) objective."""

    def __init__(self, objective, constraints):
        self.sense = objective.sense
        self.objective = lift(objective.expr.v)
        self.cost = self.objective if self.sense == 1 else -self.objective
        fs, aux, leaves, seen = [], [], [], set()
        self.norms = []
        self.booleans = []
        for d in sum((c.defs for c in constraints), ()) + objective.expr.defs:
            if id(d) in seen:
                continue
            seen.add(id(d))
            fs += d.fs
            aux += d.aux
            o = d.owner
            if isinstance(o, Variable):
                aux += o.consts
                leaves.append(o)
                if o.boolean:
                    self.booleans += o.consts
            elif isinstance(o, NormAtom):
                self.norms.append(o)
            elif isinstance(o, Parameter):
                leaves.append(o)
                aux.append(o.t)
                if o._value is None:
                    raise ValueError("A Parameter must have a value")
                fs.append(core.bt(SymReal(o.t) == lift(o._value)))
        self.soc = [c for c in constraints if isinstance(c, SOCConstraint)]
        for c in constraints:
            fs += c.formulas()
            aux += getattr(c, "aux", [])
        self.aux = list({t.get_id(): t for t in aux}.values())
        self.leaves = leaves
        self.formulas = [z3.simplify(f) for f in fs]
        self.constraints = constraints

    def feasible(self):
        """Every auxiliary variable takes a value allowed by the constraints."""
        return z3.And(*self.formulas, *[z3.Or(b == 0, b == 1) for b in self.booleans])


CURRENT = [None]
PIN = [None]  # value given to the only variable of its shape (problems without extra constraints)


def RESULT(v):
    return v


class Problem:
    def __init__(self, objective, constraints=None):
        self.objective = objective
        self.constraints = []
        for c in constraints or []:
            if isinstance(c, (bool, np.bool_)):
                raise Unsupported("constant constraint")
            self.constraints.append(c)
        self.status = None
        self.value = None

    def parameters(self):
        seen, out = set(), []
        for d in sum((c.defs for c in self.constraints), ()) + self.objective.expr.defs:
            if isinstance(d.owner, Parameter) and id(d.owner) not in seen:
                seen.add(id(d.owner))
                out.append(d.owner)
        return out

    def variables(self):
        seen, out = set(), []
        for d in sum((c.defs for c in self.constraints), ()) + self.objective.expr.defs:
            if isinstance(d.owner, Variable) and id(d.owner) not in seen:
                seen.add(id(d.owner))
                out.append(d.owner)
        return out

    def is_dcp(self, *a, **k):
        return True

    def solve(self, solver=None, **k):
        good = ("const", "affine", "convex" if self.objective.sense == 1 else "concave")
        if self.objective.expr.kind not in good or not all(c.dcp for c in self.constraints):
            raise DCPError("Problem does not follow DCP rules")
        cons = self.constraints
        if PIN[0] is not None:
            (v,) = [v for v in self.variables() if v.shape == np.shape(PIN[0])]
            cons = [*cons, v == PIN[0]]
        r = Record(self.objective, cons)
        r.problem = self
        RECORDS.append(r)
        self.status = _cp.OPTIMAL
        self.value = r.objective
        return self.value


class _Constraints:
    ExpCone = ExpConeConstraint
    SOC = SOCConstraint
    Constraint = Constraint


CP = patch._Mod(
    _cp,
    {
        "Expression": Expression,
        "Constant": Constant,
        "Variable": Variable,
        "Parameter": Parameter,
        "Problem": Problem,
        "Minimize": Minimize,
        "Maximize": Maximize,
        "SOC": SOCConstraint,
        "constraints": _Constraints,
        "sum": sum_,
        "multiply": multiply,
        "pos": pos,
        "neg": neg,
        "abs": abs_,
        "square": square,
        "log": log,
        "exp": exp,
        "sqrt": sqrt,
        "sum_squares": sum_squares,
        "maximum": maximum,
        "max": max_,
        "norm": norm,
        "norm1": norm1,
        "norm2": norm,
        "pnorm": pnorm,
        "quad_form": quad_form,
        "reshape": reshape,
        "vec": vec,
        "vstack": vstack,
        "hstack": hstack,
        "trace": trace,
        "diag": diag,
    },
    wrap=False,
)


def extra():
    return {_cp: CP}


# --------------------------------------------------------------------------- questions
def consts_of(fs):
    seen, out, stack = set(), [], list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        elif z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())
    return out


def implied(rec, cond):
    """Every point of the recorded problem satisfies `cond`."""
    return SymBool(z3.Implies(rec.feasible(), core.bt(cond)))


def attained(rec, cond, value=None, cost=None):
    """Whenever `cond` holds, the auxiliary variables can be completed (with cost <= value):
    the list of facts to prove."""
    cost = rec.cost if cost is None else cost
    goal = rec.formulas + ([core.bt(cost <= value)] if value is not None else [])
    goal, sub = _witness(rec, goal)
    free = [t for t in rec.aux if t.get_id() not in sub and not any(t.eq(b) for b in rec.booleans)]
    bools = [b for b in rec.booleans if b.get_id() not in sub]
    known = {t.get_id() for t in rec.aux}
    if free and not bools and all(t.get_id() in known for t in consts_of([*goal, core.bt(cond)])):
        # nothing symbolic but the auxiliary variables: the solver picks the witness
        sol = z3.Solver()
        sol.add(*goal)
        if sol.check() == z3.sat:
            m = sol.model()
            goal = [z3.simplify(z3.substitute(g, *[(t, m.eval(t, model_completion=True)) for t in free])) for g in goal]
            return [SymBool(z3.And(*goal))]
    body = z3.And(*goal)
    opts = [body]
    for b in bools:
        opts = [z3.simplify(z3.substitute(o, (b, z3.RealVal(v)))) for o in opts for v in (0, 1)]
        opts = [o for o in opts if not z3.is_false(o)]
    outs = []
    for o in opts:
        cs = {c.get_id() for c in consts_of([o])}
        q = [t for t in free if t.get_id() in cs]
        outs.append(z3.Exists(q, o) if q else o)
    if not free and not bools:  # a complete witness: each constraint on its own
        goal = [z3.simplify(g) for g in goal]
        return [SymBool(z3.Implies(core.bt(cond), g)) for g in goal if not z3.is_true(g)]
    return [SymBool(z3.Implies(core.bt(cond), z3.Or(*outs)))]


def _nonlinear(f):
    stack = [f]
    while stack:
        e = stack.pop()
        if z3.is_mul(e) and sum(not z3.is_rational_value(c) for c in e.children()) > 1:
            return True
        stack.extend(e.children())
    return False


def lower_parts(rec, parts):
    """Facts D <= x for the entries x of the recorded norm or cone with as many entries as
    `parts`, when the linear constraints alone imply them; their squares follow."""
    c = core.ctx()
    lists = [o.xs for o in rec.norms] + [[lift(x) for x in arr._obj(k.x.v).reshape(-1)] for k in rec.soc]
    late = {o.t.get_id() for o in rec.norms}
    pins, forms = [], list(rec.formulas)
    aux = {t.get_id() for t in rec.aux}
    for f in rec.formulas:
        cs = [t for t in consts_of([f]) if t.get_id() in aux]
        if len(cs) == 1 and (a := _atom(f)) and a[0] == "eq" and (l := _linear_in(a[1], cs[0])) and l[0] != 0:
            pins.append((cs[0], z3.simplify(l[1] * z3.RealVal(-1 / core.Fraction(l[0])), som=True)))
    sub = lambda f: z3.simplify(z3.substitute(f, *pins), som=True) if pins else f  # noqa: E731
    lists = [[SymReal(sub(x.n), None if x.d is None else sub(x.d)) for x in xs] for xs in lists]
    forms = [sub(f) for f in rec.formulas]
    lin = [f for f in forms if not any(t.get_id() in late for t in consts_of([f])) and not _nonlinear(f)]
    for xs in lists:
        if len(xs) != len(parts):
            continue
        ds = [lift(d) for d in parts]
        facts = [core.band(d >= 0, d <= x) for d, x in zip(ds, xs, strict=True)]
        if all(not c.feasible(z3.And(*lin, z3.Not(core.bt(f)))) for f in facts):
            squares = [core.bt(d * d <= x * x) for d, x in zip(ds, xs, strict=True)]
            return z3.And(*lin), facts, [f for f in forms if not any(f.eq(g) for g in lin)] + squares
    return None


def _linear_in(f, t):
    """(coefficient, rest) of the linear term f in t, or None."""
    a = z3.simplify(z3.substitute(f, (t, z3.RealVal(0))), som=True)
    b = z3.simplify(z3.substitute(f, (t, z3.RealVal(1))), som=True)
    c = z3.simplify(b - a, som=True)
    if not z3.is_rational_value(c):
        return None
    return core._val(c), a


def _atom(f):
    """f as (op, lhs - rhs) with op in le/eq, or None."""
    neg_ = False
    if z3.is_not(f):
        f, neg_ = f.arg(0), True
    if not z3.is_app(f) or f.num_args() != 2 or not z3.is_arith(f.arg(0)):
        return None
    k = f.decl().kind()
    a, b = f.children()
    if neg_:
        return None
    if k == z3.Z3_OP_LE:
        return "le", a - b
    if k == z3.Z3_OP_GE:
        return "le", b - a
    if k == z3.Z3_OP_EQ:
        return "eq", a - b
    return None


def _witness(rec, goal):
    """Candidate values: equalities are solved, pure lower bounds are made tight, norms and
    cones are evaluated.  Only a witness: whatever is left stays existentially quantified."""
    sub = {}
    aux = {t.get_id(): t for t in rec.aux}
    for b in rec.booleans:
        aux.pop(b.get_id(), None)
    goal = list(goal)
    norms = {o.t.get_id(): o for o in rec.norms}
    soc = {}
    for c in rec.soc:
        t = lift(c.t.v)
        cs = [x for x in consts_of([t.n]) if x.get_id() in aux]
        if len(cs) == 1:
            soc[cs[0].get_id()] = c
    progress = True
    while progress and aux:
        progress = False
        occ = {}
        atoms = []
        for f in goal:
            cs = [c for c in consts_of([f]) if c.get_id() in aux]
            atoms.append((f, cs))
            for c in cs:
                occ.setdefault(c.get_id(), []).append((f, cs))
        for i, t in list(aux.items()):
            if i not in occ:
                aux.pop(i)
                continue
            val = None
            if i in norms and all(c.get_id() not in aux for x in norms[i].xs for c in _cs(x, sub)):
                xs = [_sub(x, sub) for x in norms[i].xs]
                val = core.sqrt(_total([x * x for x in xs])).term
            elif i in soc:
                c = soc[i]
                xs = [lift(x) for x in arr._obj(c.x.v).reshape(-1)]
                if all(k.get_id() not in aux for x in xs for k in _cs(x, sub)):
                    xs = [_sub(x, sub) for x in xs]
                    lin = _linear_in(lift(c.t.v).term, t)
                    if lin and lin[0] > 0:
                        val = (core.sqrt(_total([x * x for x in xs])) - SymReal(lin[1])) / lift(core.Fraction(lin[0]))
                        val = val.term
            else:
                lows, eqs, ok = [], [], True
                for f, cs in occ[i]:
                    if len(cs) == 1 and (a := _atom(f)) and a[0] == "eq" and (l := _linear_in(a[1], t)) and l[0] != 0:
                        eqs.append(z3.simplify(l[1] * z3.RealVal(-1 / core.Fraction(l[0])), som=True))
                for f, cs in [] if eqs else occ[i]:
                    a = _atom(f)
                    l = _linear_in(a[1], t) if a else None
                    others = [c for c in cs if not c.eq(t)]
                    if any(c.get_id() in norms or c.get_id() in soc for c in others):
                        continue  # a norm or cone evaluated later
                    if l is None or others:
                        if l is not None and a[0] == "le" and l[0] > 0:
                            continue  # an upper bound on t through variables set later
                        ok = False
                        break
                    co, rest = l
                    if co == 0:
                        continue
                    bound = z3.simplify(rest * z3.RealVal(-1 / core.Fraction(co)), som=True)
                    if a[0] == "eq" or co < 0:
                        lows.append(bound)
                # `cost <= value` couples everything: it is only an upper bound
                if eqs:
                    val = eqs[0]
                elif ok and lows:
                    v = SymReal(lows[0])
                    for b in lows[1:]:
                        v = core.smax(v, SymReal(b))
                    val = v.term
            if val is not None:
                sub[i] = (t, val)
                aux.pop(i)
                goal = [z3.simplify(z3.substitute(f, (t, val))) for f in goal]
                progress = True
                break
    return goal, sub


def _cs(x, sub):
    return consts_of([_sub(x, sub).n])


def _sub(x, sub):
    for t, v in sub.values():
        x = SymReal(z3.substitute(x.n, (t, v)), None if x.d is None else z3.substitute(x.d, (t, v)))
    return x
