"""C39: a fit depends only on the parameters and the data."""

import numpy as np
from skfolio import RiskMeasure as RM
from skfolio.distance import KendallDistance, PearsonDistance, SpearmanDistance
from skfolio.moments import (
    EWCovariance,
    EWMu,
    EmpiricalCovariance,
    EmpiricalMu,
    EquilibriumMu,
    GerberCovariance,
    ShrunkMu,
    ShrunkMuMethods,
)
from skfolio.optimization import EqualWeighted, InverseVolatility, ObjectiveFunction, RiskBudgeting
from skfolio.pre_selection import DropCorrelated, DropZeroVariance, SelectKExtremes
from skfolio.prior import BlackLitterman, EmpiricalPrior, FactorModel

from checks import c13_convex_risk as c13
from checks import c15_risk_budgeting as c15
from checks import c17_robust_cvar as c17
from checks import convex
from checks.c29_factor_model import DATA as LOADINGS
from checks.c29_factor_model import FixedLoading
from checks.common import REAL
from symx import cvx, pdproxy
from symx.harness import case

META = {
    "bounds": "a second fit of the same object, after a fit that failed or succeeded with other data and parameters: every weight vector of 2 assets for each scenario risk measure (fixed scenarios), every second data set of 3 observations of 2 assets for the other estimators",
    "outside": "longer histories of fits, more assets and observations, the numerical solver",
    "assumptions": [*convex.ASSUME, REAL],
}

OLD = [[1, 3], [-2, 1], [-1, -4], [3, 0], [0, -2]]


CALLED = []


def stop(w):
    CALLED.append(w)
    raise RuntimeError


def after(make, old, how, X):
    """Factory of models that were already fitted once with other scenarios: the first fit
    breaks off late (a user function raises) or has no solution, or succeeds."""

    def made(**k):
        est = make(**k)
        now = est.get_params(deep=False)
        est.set_params(prior_estimator=old, add_constraints=None)
        if how == "broken":
            est.set_params(**{"add_objective" if "add_objective" in now else "add_constraints": stop})
        elif how == "parameters":
            est.set_params(risk_free_rate=0.25, min_weights=0, budget=1)
        CALLED.clear()
        try:
            est.fit(X)
        except Exception:
            if not CALLED:
                raise
        assert bool(CALLED) == (how == "broken")
        est.set_params(**now)
        return est

    return made


def old_prior(S):
    return convex.prior(S, OLD, covariance=[[1, 0], [0, 2]], cholesky=[[1, 0], [0, S.frac(3, 2)]], key="old")


for rm in c13.LINEAR | c13.SQUARED:
    name, R = ("5x2", c13.SETS["5x2"]) if rm == RM.SEMI_DEVIATION else ("4x2", c13.SETS["4x2"]) if rm == RM.ULCER_INDEX else ("3x2", c13.SETS["3x2"])
    for how in ("broken", "solved", "parameters"):
        if how != "broken" and rm in (RM.SEMI_DEVIATION, RM.SEMI_VARIANCE):
            continue

        @case("C39", f"mean risk, {rm.value}, after a {how} fit", extra=cvx.extra, points=1, budget_ms=40000, fork_max=rm in c13.ROOT)
        def _(S, rm=rm, R=R, how=how):
            w = S.reals("w", 2, -2, 2)
            make, (V, parts) = c13.setting(S, rm, R, w, beta=0.5 if rm in c13.BETA else None)
            convex.decide(S, after(make, old_prior(S), how, np.zeros((5, 2))), np.zeros((len(R), 2)), w, [], V, root=rm in c13.ROOT, parts=parts)


for rm in c15.ALL:

    @case("C39", f"risk budgeting, {rm.value}, after a broken fit", extra=cvx.extra, points=1, budget_ms=40000, fork_max=rm in c15.ROOT)
    def _(S, rm=rm):
        R = c15.ROWS.get(rm, c15.R2)
        pr = convex.prior(S, R, mu=c15.mu_(S, 2), covariance=c15.COV, cholesky=[[2, 0], [-1, 1]], key="rb" + rm.value)
        make = lambda **k: RiskBudgeting(risk_measure=rm, prior_estimator=pr, max_weights=None, **c15.KW.get(rm, {}), **k)  # noqa: E731
        c15.decide(S, after(make, old_prior(S), "broken", np.zeros((5, 2))), np.zeros((len(R), 2)), 2, [1, 1], V=lambda v, f: c15.measure(S, rm, R, c15.COV, v), root=rm in c15.ROOT)


for how in ("broken", "solved"):

    @case("C39", f"robust CVaR, radius zero, after a {how} fit", extra=cvx.extra, points=1)
    def _(S, how=how):
        w = S.reals("w", 2, -1, 2)
        make = c17.maker(S, 3, 0, 1, c17.F(1, 2))
        rows = [[S.frac(x.numerator, x.denominator) for x in r] for r in c17.XI[3]]
        V = c17.utility(S, rows, w, 1, S.frac(1, 2))
        convex.decide(S, after(make, old_prior(S), how, np.zeros((5, 2))), np.zeros((3, 2)), w, [], V)


@case("C39", "mean risk, previous objective and limits are forgotten", extra=cvx.extra, points=1)
def _(S):
    w = S.reals("w", 2, -1, 2)
    R = c13.SETS["3x2"]
    make, (V, parts) = c13.setting(S, RM.CDAR, R, w, beta=0.5)
    old = old_prior(S)

    def made(**k):
        est = make(**k)
        now = est.get_params(deep=False)
        est.set_params(prior_estimator=old, add_constraints=None, objective_function=ObjectiveFunction.MAXIMIZE_RATIO, min_weights=0, budget=1, max_cdar=S.frac(5, 1), max_average_drawdown=S.frac(5, 1))
        est.fit(np.zeros((5, 2)))
        return est.set_params(**now)

    convex.decide(S, made, np.zeros((3, 2)), w, [], V, parts=parts)


# ------------------------------------------------------------------- other estimators
def copy(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(copy(v) for v in x)
    return x


def same(S, label, a, b):
    if isinstance(a, np.ndarray):
        S.true(f"{label}: same shape", np.shape(a) == np.shape(b))
        S.eq(label, a, b)
    elif isinstance(a, dict):
        S.true(f"{label}: same keys", list(a) == list(b))
        for k in a:
            same(S, f"{label} {k}", a[k], b[k])
    elif isinstance(a, (list, tuple)):
        S.true(f"{label}: same length", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(S, f"{label} {i}", x, y)
    elif hasattr(a, "prior_model_") or a is None or isinstance(a, (str, bool)):
        S.true(label, a is b or a == b)
    elif hasattr(a, "get_params"):
        S.true(label, a is b)
    else:
        S.eq(label, a, b)


def compare(S, make, attrs, rows, old, how="solved", y=None, yold=None, label=""):
    """The second fit of one object gives what the first fit of a new object gives, and
    neither the data nor the parameters are changed."""
    one, two = make(), make()
    for e in (one,):
        params = e.get_params(deep=False)
        kept = {k: copy(v) for k, v in params.items()}
    inner = {k: v for k, v in one.get_params(deep=True).items() if hasattr(v, "get_params") and not isinstance(v, type)}
    state = {k: sorted(vars(v)) for k, v in inner.items()}
    args = (S.array(old),) if yold is None else (S.array(old), S.array(yold))
    S.attempt(lambda: one.fit(*args))
    X = S.array(rows)
    before = X.copy()
    fit = (X,) if y is None else (X, S.array(y))
    _, e1 = S.attempt(lambda: one.fit(*fit))
    _, e2 = S.attempt(lambda: two.fit(S.array(rows), *fit[1:]))
    S.true(f"{label}same outcome", e1 == e2)
    if e1 is None and e2 is None:
        for a in attrs:
            u, v = one, two
            for part in a.split("."):
                u, v = getattr(u, part), getattr(v, part)
            if u is None or v is None:
                S.true(f"{label}{a}", u is v)
            elif np.asarray(u).dtype == bool:
                S.true(f"{label}{a}", bool(np.array_equal(u, v)))
            else:
                S.eq(f"{label}{a}", u, v)
    S.eq(f"{label}data unchanged", X, before)
    for k, v in kept.items():
        same(S, f"{label}parameter {k} unchanged", one.get_params(deep=False)[k], v)
    for k, v in inner.items():
        S.true(f"{label}estimator {k} passed in is not fitted", sorted(vars(v)) == state[k])


def data(S, T=3, n=2, vary=True):
    x = [[S.real(f"x{t}{i}", -1, 1) for i in range(n)] for t in range(T)]
    if vary:
        for i in range(n):
            m = S.sum(r[i] for r in x) * S.frac(1, T)
            S.assume(S.sum((r[i] - m) * (r[i] - m) for r in x) >= S.frac(1, 16))
    return x


def q(S, rows):
    return [[S.frac(v, 8) for v in r] for r in rows]


O5 = [[1, 3], [-2, 1], [-1, -4], [3, 0], [0, -2]]
PRIOR = ["prior_model_.mu", "prior_model_.covariance", "prior_model_.returns"]


def views(S):
    return ["x0 == 0.1", "x0 - x1 == 0.05"]


PLAIN = {
    "mean": (lambda S: EmpiricalMu(window_size=2), ["mu_"]),
    "exponential mean": (lambda S: EWMu(alpha=S.frac(1, 4)), ["mu_"]),
    "equilibrium": (lambda S: EquilibriumMu(weights=S.array([S.frac(1, 4), S.frac(3, 4)]), covariance_estimator=EmpiricalCovariance(nearest=False)), ["mu_"]),
    "equilibrium, equal weights": (lambda S: EquilibriumMu(covariance_estimator=EmpiricalCovariance(nearest=False)), ["mu_"]),
    "shrinkage": (lambda S: ShrunkMu(vol_weighted_target=True, method=ShrunkMuMethods.BAYES_STEIN, covariance_estimator=EmpiricalCovariance(nearest=False)), ["mu_", "alpha_", "beta_"]),
    "covariance": (lambda S: EmpiricalCovariance(window_size=3, nearest=False), ["covariance_"]),
    "exponential covariance": (lambda S: EWCovariance(alpha=S.frac(1, 4), nearest=False), ["covariance_"]),
    "empirical prior": (lambda S: EmpiricalPrior(covariance_estimator=EmpiricalCovariance(nearest=False)), PRIOR),
    "equal weights": (lambda S: EqualWeighted(), ["weights_"]),
    "inverse volatility": (lambda S: InverseVolatility(prior_estimator=EmpiricalPrior(covariance_estimator=EmpiricalCovariance(nearest=False))), ["weights_"]),
    "Pearson distance": (lambda S: PearsonDistance(), ["codependence_", "distance_"]),
    "drop zero variance": (lambda S: DropZeroVariance(threshold=S.frac(1, 8)), ["to_keep_"]),
}
for name, (make, attrs) in PLAIN.items():
    for kind, old in (("other", O5), ("failed", [[1, 1], [1, 1]])):

        if (name, kind) == ("Pearson distance", "failed"):
            continue

        @case("C39", f"{name}, after a fit on {kind} data", points=2, extra=pdproxy.extra)
        def _(S, make=make, attrs=attrs, old=old):
            compare(S, lambda: make(S), attrs, data(S), q(S, old))


FEW = {
    "Kendall distance": (lambda S: KendallDistance(absolute=True, power=2), ["codependence_", "distance_"]),
    "Spearman distance": (lambda S: SpearmanDistance(), ["codependence_", "distance_"]),
    "drop correlated": (lambda S: DropCorrelated(threshold=S.frac(1, 4)), ["to_keep_"]),
    "select extremes": (lambda S: SelectKExtremes(k=1, measure=RM.WORST_REALIZATION), ["to_keep_"]),
    "Gerber covariance": (lambda S: GerberCovariance(nearest=False), ["covariance_"]),
}
for name, (make, attrs) in FEW.items():

    @case("C39", f"{name}, after another fit", points=2, extra=pdproxy.extra, max_paths=600)
    def _(S, make=make, attrs=attrs):
        x = [[S.frac(1, 2), S.real("a", -1, 1)], [S.frac(-1, 4), S.real("b", -1, 1)], [S.frac(1, 8), S.frac(-1, 8)]]
        compare(S, lambda: make(S), attrs, x, q(S, O5))


@case("C39", "Black and Litterman, after another fit", points=2)
def _(S):
    pr = convex.prior(S, [[0, 0]] * 3, mu=[S.real("m0", -1, 1), S.real("m1", -1, 1)], covariance=[[S.frac(1, 4), S.frac(1, 8)], [S.frac(1, 8), S.frac(1, 2)]], key="bl")
    v = ["x0 == 0.125", "x0 - x1 == 0.25"]
    g = {"x0": ["A", "B"], "x1": ["A", "C"]}
    conf = [S.frac(1, 2), S.frac(1, 4)]
    compare(S, lambda: BlackLitterman(views=v, groups=g, prior_estimator=pr, view_confidences=conf), [*PRIOR[:2], "picking_matrix_", "views_"], [[0, 0], [1, 0], [0, 1]], [[1, 0], [1, 1], [0, 1]])


@case("C39", "factor model, after another fit", points=2)
def _(S):
    pr = convex.prior(S, [[S.real(f"f{t}", -1, 1)] for t in range(3)], mu=[S.real("m", -1, 1)], covariance=[[S.frac(1, 4)]], key="fm")
    LOADINGS["r"] = (S.array([[S.real("b0", -2, 2)], [S.frac(1, 2)]]), S.array([S.real("a0", -1, 1), S.frac(1, 4)]))
    kept = [v.copy() for v in LOADINGS["r"]]
    y = [[S.frac(t * t - 2, 4)] for t in range(3)]
    b, a = LOADINGS["r"]
    d = [S.frac(1, 2), S.frac(3, 4)]
    rows = [[a[i] + b[i][0] * y[t][0] + s * d[i] for i in range(2)] for t, s in enumerate((1, -1, 0))]
    compare(S, lambda: FactorModel(loading_matrix_estimator=FixedLoading("r"), factor_prior_estimator=pr), PRIOR[:2], rows, q(S, O5[:3]), y=y, yold=[[S.frac(1, 8)], [S.frac(1, 2)], [S.frac(-1, 2)]])
    for i in range(2):
        S.eq(f"loadings {i} unchanged", LOADINGS["r"][i], kept[i])
