"""C30: uncertainty sets inside the mean-risk optimizer give the worst case over the set."""

import math
from contextlib import contextmanager

import numpy as np
from skfolio import RiskMeasure as RM
from skfolio.optimization import MeanRisk
from skfolio.optimization import ObjectiveFunction as OF
from skfolio.uncertainty_set import BaseCovarianceUncertaintySet, BaseMuUncertaintySet, UncertaintySet

from checks import convex
from checks.c13_convex_risk import absv
from checks.common import replaced
from symx import core, cvx
from symx.harness import case

META = {
    "bounds": "every weight vector of 2 assets for the worst-case expected return (three shapes and every size k of the ellipsoid at fixed shape) in each objective and as a floor; worst-case variance for every weight of 1 asset and every size and shape, and for fixed weights of 2 assets",
    "outside": "more assets; worst-case variance of 2 assets at weights and shapes other than the listed ones, in particular when the worst matrix of the ellipsoid is not positive semidefinite; the size and shape of the set (C35); the matrix square root of the linear algebra library (a stand-in returns the exact rational root)",
    "assumptions": [*convex.ASSUME, "a positive semidefinite matrix M has v'Mv >= 0 and a norm is at least its projection on a unit vector (definitions, used as instances at the listed vectors)"],
}
R = [[2, -1], [-3, 1], [1, 1]]
COV = [[4, -2], [-2, 2]]
FREE = dict(min_weights=None, max_weights=None, budget=None)
# symmetric positive semidefinite square roots of the shapes
ROOTS = {
    "diagonal": [["1/10", 0], [0, "1/5"]],
    "full": [["1/5", "1/10"], ["1/10", "3/10"]],
    "one direction": [["1/10", "1/5"], ["1/5", "2/5"]],
}
SET = {}


def q(S, x):
    if isinstance(x, str):
        a, b = x.split("/")
        return S.frac(int(a), int(b))
    return x


def matrix(S, m):
    return [[q(S, x) for x in r] for r in m]


def square(S, m):
    n = len(m)
    return [[S.sum(m[i][k] * m[k][j] for k in range(n)) for j in range(n)] for i in range(n)]


class MuSet(BaseMuUncertaintySet):
    def __init__(self, prior_estimator=None):
        super().__init__(prior_estimator=prior_estimator)

    def fit(self, X, y=None, **p):
        self.uncertainty_set_ = UncertaintySet(k=SET["k"], sigma=SET["sigma"])
        return self


class CovSet(BaseCovarianceUncertaintySet):
    def __init__(self, prior_estimator=None):
        super().__init__(prior_estimator=prior_estimator)

    def fit(self, X, y=None, **p):
        self.uncertainty_set_ = UncertaintySet(k=SET["k"], sigma=SET["sigma"])
        return self


@contextmanager
def given(S, k, root):
    """The set of size k and shape root root', with the exact root in the symbolic run."""
    sigma = square(S, root)
    SET.update(k=k, sigma=S.array(sigma))

    def sqrtm(a, *args, **kw):
        n = len(root)
        for i in range(n):
            for j in range(n):
                S.eq(f"shape of the set {i}{j}", a[i, j], sigma[i][j])
        return S.array(root)

    if S.symbolic:
        with replaced("scipy.linalg.sqrtm", sqrtm):
            yield
    else:
        yield


def mu_(S):
    return [S.frac(3, 10), S.frac(1, 5)]


def norm(S, root, v):
    n = len(v)
    return S.sqrt(S.sum(S.sum(root[i][j] * v[j] for j in range(n)) ** 2 for i in range(n)))


def worst(S, k, root, v):
    return S.sum(a * b for a, b in zip(mu_(S), v, strict=True)) - k * norm(S, root, v)


def prior(S):
    return convex.prior(S, R, mu=mu_(S), covariance=COV, key="c30")


def costs(S):
    tc, fee = [S.frac(1, 50), S.frac(1, 20)], [S.frac(1, 100), S.frac(3, 100)]
    return dict(transaction_costs=S.array(tc), management_fees=S.array(fee)), lambda v: S.sum(tc[i] * absv(S, v[i]) + fee[i] * v[i] for i in range(2))


def var(S, v):
    return S.sum(v[i] * v[j] * COV[i][j] for i in range(2) for j in range(2))


for _name, _root in ROOTS.items():

    @case("C30", f"maximum worst-case return, {_name}", extra=cvx.extra, points=1, budget_ms=40000)
    def _(S, root=_root):
        w = S.reals("w", 2, -2, 2)
        root = matrix(S, root)
        with given(S, S.frac(3, 2), root):
            convex.decide(S, lambda **k: MeanRisk(objective_function=OF.MAXIMIZE_RETURN, prior_estimator=prior(S), mu_uncertainty_set_estimator=MuSet(), **{**FREE, **k}), S.frame(R), w, [], worst(S, S.frac(3, 2), root, w), sense=-1)

    @case("C30", f"floor on the worst-case return, {_name}", extra=cvx.extra, points=1, budget_ms=40000)
    def _(S, root=_root):
        w = S.reals("w", 2, -2, 2)
        root = matrix(S, root)
        with given(S, S.frac(3, 2), root):
            convex.decide(S, lambda **k: MeanRisk(prior_estimator=prior(S), min_return=S.frac(1, 20), mu_uncertainty_set_estimator=MuSet(), **{**FREE, **k}), S.frame(R), w, [("the worst-case return reaches the floor", "le", S.frac(1, 20) - worst(S, S.frac(3, 2), root, w))], var(S, w))


@case("C30", "every size of the set", extra=cvx.extra, points=1, budget_ms=40000)
def _(S):
    k = S.real("k", 0, 5)
    w = S.reals("w", 2, -2, 2)
    root = matrix(S, ROOTS["diagonal"])
    with given(S, k, root):
        convex.decide(S, lambda **kw: MeanRisk(objective_function=OF.MAXIMIZE_RETURN, prior_estimator=prior(S), mu_uncertainty_set_estimator=MuSet(), **{**FREE, **kw}), S.frame(R), w, [], worst(S, k, root, w), sense=-1)


@case("C30", "worst-case return net of costs and fees", extra=cvx.extra, points=1, budget_ms=40000)
def _(S):
    w = S.reals("w", 2, -2, 2)
    root = matrix(S, ROOTS["full"])
    kw, c = costs(S)
    with given(S, 2, root):
        convex.decide(S, lambda **k: MeanRisk(objective_function=OF.MAXIMIZE_RETURN, prior_estimator=prior(S), mu_uncertainty_set_estimator=MuSet(), **{**FREE, **kw, **k}), S.frame(R), w, [], worst(S, 2, root, w) - c(w), sense=-1)


for _rm in (RM.VARIANCE, RM.MEAN_ABSOLUTE_DEVIATION):

    @case("C30", f"utility of the worst-case return, {_rm.name}", extra=cvx.extra, points=1, budget_ms=40000)
    def _(S, rm=_rm):
        w = S.reals("w", 2, -2, 2)
        root = matrix(S, ROOTS["full"])
        lam = 3
        g = [S.sum(r[i] * w[i] for i in range(2)) - S.sum(mu_(S)[i] * w[i] for i in range(2)) for r in R]
        risk = var(S, w) if rm is RM.VARIANCE else S.sum(absv(S, x) for x in g) * S.frac(1, 3)
        with given(S, S.frac(1, 2), root):
            convex.decide(S, lambda **k: MeanRisk(objective_function=OF.MAXIMIZE_UTILITY, risk_measure=rm, risk_aversion=lam, prior_estimator=prior(S), mu_uncertainty_set_estimator=MuSet(), **{**FREE, **k}), S.frame(R), w, [], worst(S, S.frac(1, 2), root, w) - lam * risk, sense=-1)


@case("C30", "no member of the set does worse", extra=cvx.extra, novalidate=True, points=1, budget_ms=40000)
def _(S):
    w = S.reals("w", 2, -2, 2)
    z = S.reals("z", 2, -3, 3)
    root = matrix(S, ROOTS["diagonal"])
    k = S.frac(3, 2)
    S.assume(S.sum(x * x for x in z) <= k * k)
    member = [mu_(S)[i] + S.sum(root[i][j] * z[j] for j in range(2)) for i in range(2)]
    got = S.sum(a * b for a, b in zip(member, w, strict=True))
    X = S.frame(R)
    make = lambda **kw: MeanRisk(objective_function=OF.MAXIMIZE_RETURN, prior_estimator=prior(S), mu_uncertainty_set_estimator=MuSet(), **{**FREE, **kw})  # noqa: E731
    with given(S, k, root):
        if S.symbolic:
            cvx.reset()
            est = make(add_constraints=convex.pin(S, w)).fit(X)
            feas = core.SymBool(cvx.RECORDS[-1].feasible())
            S.le("promised return", core.ite(feas, est.problem_values_["objective"], got), got)
        else:
            est = make(add_constraints=convex.pin(S, w)).fit(X)
            S.le("promised return", est.problem_values_["objective"], got + 1e-5)


def ratio_case(S, kw, rf):
    root = matrix(S, ROOTS["diagonal"])
    k = S.frac(1, 2)
    with given(S, k, root):
        convex.decide_ratio(
            S,
            lambda **a: MeanRisk(objective_function=OF.MAXIMIZE_RATIO, risk_measure=RM.MEAN_ABSOLUTE_DEVIATION, risk_free_rate=rf, min_weights=None, max_weights=None, budget=1, prior_estimator=prior(S), mu_uncertainty_set_estimator=MuSet(), **{**kw, **a}),
            S.frame(R),
            2,
            mu_(S),
            lambda v, f: [],
            lambda v, f: S.sum(absv(S, S.sum((r[i] - mu_(S)[i]) * v[i] for i in range(2))) for r in R) * S.frac(1, 3),
            rf=rf,
            cost=lambda v, f: k * norm(S, root, v),
        )


@case("C30", "ratio of the worst-case return", extra=cvx.extra, points=1, budget_ms=40000)
def _(S):
    ratio_case(S, {}, 0)


# ---------------------------------------------------------------- worst-case variance
@case("C30", "worst-case variance of one asset", extra=cvx.extra, points=1, budget_ms=40000)
def _(S):
    w = S.reals("w", 1, -3, 3)
    c, s, k = S.real("c", S.frac(1, 10), 5), S.real("s", 0, 2), S.real("k", 0, 3)
    p = convex.prior(S, [[1], [-1]], mu=[S.frac(1, 10)], covariance=[[c]], key="c30one")
    with given(S, k, [[s]]):
        convex.decide(S, lambda **a: MeanRisk(prior_estimator=p, covariance_uncertainty_set_estimator=CovSet(), **{**FREE, **a}), S.frame([[1], [-1]]), w, [], (c + k * s) * w[0] * w[0])


@case("C30", "limit on the worst-case variance of one asset", extra=cvx.extra, points=1, budget_ms=40000)
def _(S):
    w = S.reals("w", 1, -3, 3)
    c, s, k, m = S.real("c", S.frac(1, 10), 5), S.real("s", 0, 2), S.frac(3, 2), S.frac(1, 2)
    p = convex.prior(S, [[1], [-1]], mu=[S.frac(1, 10)], covariance=[[c]], key="c30lim")
    with given(S, k, [[s]]):
        convex.decide(S, lambda **a: MeanRisk(objective_function=OF.MAXIMIZE_RETURN, max_variance=m, prior_estimator=p, covariance_uncertainty_set_estimator=CovSet(), **{**FREE, **a}), S.frame([[1], [-1]]), w, [("the worst-case variance is within the limit", "le", (c + k * s) * w[0] * w[0] - m)], w[0] * S.frac(1, 10), sense=-1)


def ldl(m):
    """Rational d, l with m = sum d l l' (2 by 2, m11 > 0)."""
    (a, b), (_, c) = m
    return [(a, (1, b / a)), (c - b * b / a, (0, 1))]


# weights, root of the shape of the vectorised covariance (its diagonal, or in full), exact
# norm of root * vec(ww')
FIXED = {
    "sphere": ((1, 2), (1, 1, 1), 5),
    "sphere, short": ((2, -1), (1, 1, 1), 5),
    "unequal variances": ((1, 2), (3, 0, 1), 5),
    "with covariance": ((1, 2), (2, 1, "1/2"), 4),
    "first asset only": ((1, 0), (2, 1, 3), 2),
    "second asset only": ((0, -1), (2, 1, 3), 3),
    "correlated errors, first asset": ((1, 0), ((4, 0, 0, 3), (0, 1, 0, 0), (0, 0, 1, 0), (3, 0, 0, 4)), 5),
    "correlated errors, both assets": ((1, 1), ((4, 0, 0, 3), (0, 1, 0, 0), (0, 0, 1, 0), (3, 0, 0, 4)), 10),
    "correlated errors, second asset": ((0, 1), ((4, 0, 0, 3), (0, 1, 0, 0), (0, 0, 1, 0), (3, 0, 0, 4)), 5),
}


def worst_case(S, key, k, f):
    """Weights, root of the shape, worst covariance of the set and its variance."""
    F = core.Fraction
    wt, root, nrm = FIXED[key]
    if len(root) == 3:
        d = (root[0], root[1], root[1], root[2])
        root = [[d[i] if i == j else 0 for j in range(4)] for i in range(4)]
    root = [[F(x) for x in r] for r in root]
    w = [F(x) for x in wt]
    k = F(k)
    vec = [w[i] * w[j] for j in range(2) for i in range(2)]
    u = [sum(a * b for a, b in zip(r, vec, strict=True)) / nrm for r in root]  # unit vector
    assert sum(x * x for x in u) == 1
    shift = [sum(a * b for a, b in zip(r, u, strict=True)) for r in root]
    worst_ = [[COV[i][j] + k * shift[i + 2 * j] for j in range(2)] for i in range(2)]
    # the oracle below is exact when the worst matrix of the ellipsoid is itself a covariance
    assert worst_[0][0] > 0 and worst_[0][0] * worst_[1][1] >= worst_[0][1] ** 2
    value = sum(worst_[i][j] * w[i] * w[j] for i in range(2) for j in range(2))
    return w, root, u, worst_, value


def fl(S, x):
    return S.frac(x.numerator, x.denominator)


def sdp(S, key, make, k, V, sense=1, value=None):
    """`decide` at fixed weights for the semidefinite form of the worst-case variance."""
    w, full, u, worst_, val = worst_case(S, key, k, 1)
    wv = [fl(S, x) for x in w]
    z = S.real("unused", 0, 1)
    S.eq("reached", z * 0, 0)
    root = [[fl(S, x) for x in r] for r in full]
    X = S.frame(R)
    with given(S, fl(S, core.Fraction(k)), root):
        if not S.symbolic:
            return convex._replay(S, make, X, wv, [], V(val), None, "", {"add_constraints": convex.pin(S, wv)}, 1e-4, value)
        cvx.reset()
        est = make(add_constraints=convex.pin(S, wv)).fit(X)
    rec = cvx.RECORDS[-1]
    obj = est.problem_values_["objective"] if value is None else value(est)
    cost, best = (obj, V(val)) if sense == 1 else (-obj, -V(val))
    z3 = core.z3
    cuts = [x for x in rec.formulas if not cvx._nonlinear(x)]
    square_ = [v for v in rec.leaves if getattr(v, "shape", None) == (2, 2)]
    fills = []
    for one in range(len(square_)):
        sub = [(t, z3.RealVal(str(x))) for t, x in _pins(rec, w)]
        for i, v in enumerate(square_):
            for ix in np.ndindex(2, 2):
                sub.append((core.lift(cvx.arr._obj(v.v)[ix]).term, z3.RealVal(str(w[ix[0]] * w[ix[1]] if i == one else 0))))
        fills.append(sub)
    for c in rec.constraints:
        if not isinstance(c, cvx.PSDConstraint):
            continue
        m = cvx.arr._obj(c.e.v)
        for _, (l0, l1) in ldl(worst_):
            v = [l0, l1, -(l0 * w[0] + l1 * w[1])][: len(m)]
            cuts.append(core.bt(sum(core.lift(m[i, j]) * v[i] * v[j] for i in range(len(m)) for j in range(len(m))) >= 0))
    for o in rec.norms:
        for d in ([u] if len(o.xs) == 4 else []) + [_direction(o, sub) for sub in fills]:
            if d is not None:
                cuts.append(core.bt(core.SymReal(o.t) >= sum(x * y for x, y in zip(o.xs, d, strict=True))))
    S.true("no better than the worst member of the set", core.implies(core.SymBool(z3.And(*cuts)), best <= cost))
    goal = z3.And(*rec.formulas, core.bt(cost <= best))
    opts = []
    for sub in fills:
        g = z3.simplify(z3.substitute(goal, *sub))
        free = [t for t in rec.aux if any(t.eq(c) for c in cvx.consts_of([g]))]
        sol = z3.Solver()
        sol.set("timeout", 20000)
        sol.add(g)
        if sol.check() == z3.sat:
            mod = sol.model()
            opts.append(z3.simplify(z3.substitute(g, *[(t, mod.eval(t, model_completion=True)) for t in free])))
    if opts:
        S.true("the worst member of the set is enough", core.SymBool(z3.Or(*opts)))
        return
    for i, f in enumerate(cvx.attained(rec, core.lift(1) > 0, best, cost)):
        S.true(f"the worst member of the set is enough ({i})", f)


def _direction(o, sub):
    """Unit vector along the entries of a norm at given values, when it is rational."""
    xs = [core.z3.simplify(core.z3.substitute(core.lift(x).term, *sub)) for x in o.xs]
    if not all(core.z3.is_rational_value(x) for x in xs):
        return None
    xs = [core.Fraction(x.numerator_as_long(), x.denominator_as_long()) for x in xs]
    t = sum(x * x for x in xs)
    r = core.Fraction(math.isqrt(t.numerator), math.isqrt(t.denominator))
    return [x / r for x in xs] if t > 0 and r * r == t else None


def _pins(rec, w):
    for v in rec.leaves:
        if getattr(v, "shape", None) == (2,):
            for i in range(2):
                yield core.lift(cvx.arr._obj(v.v)[i]).term, w[i]


for _key in FIXED:

    @case("C30", f"worst-case variance, {_key}", extra=cvx.extra, points=1, budget_ms=40000)
    def _(S, key=_key):
        for k in (1, 0, 3):
            sdp(S, key, lambda **a: MeanRisk(prior_estimator=prior(S), covariance_uncertainty_set_estimator=CovSet(), **{**FREE, **a}), k, lambda v: fl(S, v))

    @case("C30", f"utility with the worst-case variance, {_key}", extra=cvx.extra, points=1, budget_ms=40000)
    def _(S, key=_key):
        w = worst_case(S, key, 2, 1)[0]
        ret = S.sum(mu_(S)[i] * fl(S, w[i]) for i in range(2))
        sdp(S, key, lambda **a: MeanRisk(objective_function=OF.MAXIMIZE_UTILITY, risk_aversion=3, prior_estimator=prior(S), covariance_uncertainty_set_estimator=CovSet(), **{**FREE, **a}), 2, lambda v: ret - 3 * fl(S, v), sense=-1)


@case("C30", "reported worst-case variance of the best ratio, one asset", extra=cvx.extra, points=1, budget_ms=40000)
def _(S):
    c, s, k = S.real("c", S.frac(1, 10), 5), S.real("s", 0, 2), S.frac(3, 2)
    # the scaled portfolio is not the portfolio itself: excess return 1/10 - 1/20, level 1/10
    p = convex.prior(S, [[1], [-1]], mu=[S.frac(1, 10)], covariance=[[c]], key="c30rep")
    with given(S, k, [[s]]):
        convex.decide(S, lambda **a: MeanRisk(objective_function=OF.MAXIMIZE_RATIO, risk_free_rate=S.frac(1, 20), min_weights=None, max_weights=None, budget=1, prior_estimator=p, covariance_uncertainty_set_estimator=CovSet(), **a), S.frame([[1], [-1]]), [1], [], c + k * s, pinned=False, value=lambda e: e.problem_values_["risk"])
