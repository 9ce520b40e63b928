"""Deciding whether the problem an optimizer hands to its solver is the documented one."""

import cvxpy as cp
import numpy as np
from skfolio.prior import BasePrior, PriorModel

from symx import core, cvx, prove
from symx.arr import SymArray

ASSUME = [
    "the numerical solver is trusted: the recorded problem (feasible set and objective over the weights and the auxiliary variables) is compared with the documented one for every weight vector; the replay and the validation points run the real cvxpy with the weights pinned",
    "floats are treated as reals",
]
DATA = {}


class FixedPrior(BasePrior):
    """A prior with given moments and scenarios."""

    def __init__(self, key="x"):
        self.key = key

    def fit(self, X, y=None, **k):
        self.prior_model_ = PriorModel(**DATA[self.key])
        return self


def prior(S, returns, mu=None, covariance=None, cholesky=None, key="x"):
    """Prior with the given (nested list) moments, numbers or symbols."""
    T = len(returns)
    n = len(returns[0])
    if mu is None:
        mu = [S.sum(r[i] for r in returns) * S.frac(1, T) for i in range(n)]
    if covariance is None:
        covariance = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    DATA[key] = dict(
        mu=S.array(mu),
        covariance=S.array(covariance),
        returns=S.array(returns),
        cholesky=None if cholesky is None else S.array(cholesky),
    )
    return FixedPrior(key)


def pin(S, w, ratio=False):
    """Constraint fixing the weights through the public `add_constraints`."""
    if ratio:  # homogeneous form of v / factor == w, for weights summing to one
        return lambda v: [v == cvx.sum_(v) * w] if S.symbolic else [v == cp.sum(v) * np.asarray(w, dtype=float)]
    return lambda v: [v == w]


def decide(S, make, X, w, D, V=None, y=None, ratio=False, tag="", tol=1e-5, sense=1, pinned=True, value=None, root=False, parts=None):
    """The optimizer allows exactly the weights with every g <= 0 (or == 0) of `D`, at the
    documented objective value `V` (minimised for sense=1, maximised for sense=-1).
    With root=True, `V` is the square of a non-negative documented value."""
    kw = {"add_constraints": pin(S, w, ratio)} if pinned else {}
    if not S.symbolic:
        return _replay(S, make, X, w, D, np.sqrt(V) if root else V, y, tag, kw, tol, value)
    cvx.reset()
    est = make(**kw)
    est.fit(X) if y is None else est.fit(X, y)
    rec = cvx.RECORDS[-1]
    feas = core.SymBool(rec.feasible())
    ok = []
    inside = []
    for name, kind, g in D:
        if kind == "le":
            S.le(f"{tag}allowed only if {name}", core.ite(feas, g, 0), 0)
            ok.append(g <= 0)
            inside.append(g <= core.Fraction(-1, 100))
        elif kind == "eq":
            S.le(f"{tag}allowed only if {name} (at most)", core.ite(feas, g, 0), 0)
            S.le(f"{tag}allowed only if {name} (at least)", core.ite(feas, -g, 0), 0)
            ok.append(g == 0)
            inside.append(g == 0)
        else:
            S.true(f"{tag}allowed only if {name}", core.implies(feas, g))
            ok.append(g)
            inside.append(g)
    ok, inside = S.all(ok), S.all(inside)
    obj = est.problem_values_["objective"] if value is None else value(est)
    if root:
        S.le(f"{tag}objective not negative", core.ite(feas, -obj, 0), 0)
        v, o = V, obj * obj
        lemma = cvx.lower_parts(rec, parts) if parts is not None else None
        if lemma is not None:
            lin, facts, squares = lemma
            for i, f in enumerate(facts):
                S.true(f"{tag}entry {i} of the norm bounds the documented one", core.implies(core.SymBool(lin), f))
            small = core.implies(core.SymBool(core.z3.And(*squares)), v <= o)
            if prove.linearized([core.z3.Not(core.bt(small))], prove.QStats()):
                # the remaining step follows from the entries alone, whatever the path
                S.claims.append(prove.Claim(f"{tag}objective not better than documented", "true", small, None, []))
            else:
                lemma = None
        if lemma is None:
            S.le(f"{tag}objective not better than documented", core.ite(core.band(feas, ok), v, o), o)
        cost = o
    elif V is not None:
        v, o = (V, obj) if sense == 1 else (-V, -obj)
        S.le(f"{tag}objective not better than documented", core.ite(core.band(feas, ok), v, o), o)
        cost = o
    else:
        v = cost = None
    for t, c in (("inside", inside), ("limits met exactly or not", ok)):
        for i, f in enumerate(cvx.attained(rec, c, v, cost)):
            S.true(f"{tag}allowed and valued as documented, {t} ({i})", f)
        if not D:
            break
    return est, rec


def _replay(S, make, X, w, D, V, y, tag, kw, tol, value=None):
    est = make(**kw)
    try:
        est.fit(X) if y is None else est.fit(X, y)
        feas = True
    except cp.SolverError:
        feas = False
    worst = -1.0
    for _, kind, g in D:
        worst = max(worst, g if kind == "le" else abs(g) if kind == "eq" else (-1.0 if g else 1.0))
        if kind == "eq" and abs(g) < 1e-9:
            continue
    strict = all((g < -1e-5) if k == "le" else (abs(g) < 1e-10) if k == "eq" else bool(g) for _, k, g in D)
    if worst > 1e-4:
        S.true(f"{tag}infeasible when a documented limit is exceeded", not feas)
    elif strict:
        S.true(f"{tag}feasible when every documented limit is met", feas)
    if feas and worst < 1e-6:
        S.le(f"{tag}weights respected", float(np.max(np.abs(np.asarray(est.weights_) - np.asarray(w, dtype=float)))), 1e-4)
        if V is not None:
            o = est.problem_values_["objective"] if value is None else value(est)
            S.le(f"{tag}objective value", abs(float(o) - float(V)), tol * max(1.0, abs(float(V))))
    return None


def ratio_level(S, make, X, y, rf):
    """Excess return (in the homogeneous variables) at which a ratio problem is normalised."""
    z3 = core.z3
    cvx.reset()
    est = make()
    est.fit(X) if y is None else est.fit(X, y)
    rec = cvx.RECORDS[-1]
    f = core.lift(est.problem_values_["factor"])
    e = core.lift(est.problem_values_["expected_return"]) * f - core.lift(rf) * f
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(*core.ctx().pc, rec.feasible())
    if s.check() != z3.sat:
        raise core.Unsupported("no point of the ratio problem found")
    m = s.model()
    if e.d is None:
        # the level is the smallest one allowed: found with the linear restrictions alone,
        # then checked against all of them
        o = z3.Optimize()
        o.set("timeout", 5000)
        o.add(*core.ctx().pc, *[x for x in rec.formulas if not cvx._nonlinear(x)])
        low = o.minimize(e.n)
        if o.check() == z3.sat and z3.is_rational_value(o.lower(low)):
            s.add(e.n == o.lower(low))
            if s.check() == z3.sat:
                m = s.model()
    val = lambda t: core._val(m.eval(t, model_completion=True))  # noqa: E731
    return core.Fraction(val(e.n)) / (1 if e.d is None else core.Fraction(val(e.d)))


def decide_ratio(S, make, X, n, mu, D, V=None, y=None, rf=0, tag="", cost=None, **k):
    """As `decide` for the maximisation of a ratio, with budget one: the homogeneous
    variables are v = f w with f > 0 such that the excess return of v has a fixed level.
    `D(v, f)` and `V(v, f)` are homogeneous."""
    v = S.reals("v", n, -50, 50)
    f = S.sum(v)
    excess = S.sum(mu[i] * v[i] for i in range(n)) - rf * f - (cost(v, f) if cost else 0)
    if S.symbolic:
        S.assume(f >= S.frac(1, 10))
        h = ratio_level(S, make, X, y, rf)
        if V is not None:
            cvx.reset()
            est = make(add_constraints=pin(S, v))
            est.fit(X) if y is None else est.fit(X, y)
            feas = core.SymBool(cvx.RECORDS[-1].feasible())
            S.le(f"{tag}every portfolio is scaled to the same excess return", core.ite(feas, h - excess, 0), 0)
        S.assume(excess == h)
        return decide(S, make, X, v, D(v, f), None if V is None else V(v, f), y=y, tag=tag, **k)
    S.assume(f >= 0.1)
    S.assume(excess >= 1e-3)
    w = np.asarray(v, dtype=float) / f
    # the level is not documented, but it is the same for every portfolio: the objective
    # is the documented risk over the documented excess return, times a constant
    if V is not None:
        V = (lambda u, g, V=V: float(V(u, g)) ** 0.5) if k.get("root") else V
        exc = lambda u: float(np.dot(np.asarray(mu, dtype=float), u) - rf - (cost(u, 1.0) if cost else 0))  # noqa: E731
        level = lambda u: _level(make, X, y, u, S) * exc(u) / float(V(u, 1.0))  # noqa: E731
        good = lambda u: exc(u) > 1e-3 and float(V(u, 1.0)) > 1e-3 and all((g < -1e-5) if t == "le" else (abs(g) < 1e-10) if t == "eq" else bool(g) for _, t, g in D(u, 1.0))  # noqa: E731
        ref = [u for u in (np.full(n, 1.0 / n), *np.eye(n)) if good(u)]
        if ref and good(w):
            a, b = level(ref[0]), level(w)
            S.le(f"{tag}every portfolio is scaled to the same excess return", abs(a - b), 1e-3 * max(abs(a), abs(b)))
    kw = {"add_constraints": pin(S, w, True)}
    return _replay(S, make, X, w, D(w, 1.0), None, y, tag, kw, k.get("tol", 1e-5))


def _level(make, X, y, u, S):
    est = make(add_constraints=pin(S, u, True))
    est.fit(X) if y is None else est.fit(X, y)
    return float(est.problem_values_["objective"])
