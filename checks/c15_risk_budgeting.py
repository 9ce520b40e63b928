"""C15: risk budgeting gives every asset its share of the risk."""

import numpy as np
import pandas as pd
from skfolio import RiskMeasure as RM
from skfolio.optimization import RiskBudgeting

from checks import convex
from checks.c13_convex_risk import absv, drawdowns, gini, mean_, series, tail
from symx import core, cvx
from symx.harness import case

META = {
    "bounds": "every positive weight vector of 2 or 3 assets (scenario sets of 3 or 5 observations fixed, expected returns different from the sample means), every positive risk budget where stated; each risk measure, each restriction",
    "outside": "more assets and observations; entropic measures",
    "assumptions": [
        *convex.ASSUME,
        "the minimum of a convex risk under a weighted sum of logarithms bounded from below is, after rescaling, the portfolio whose risk contributions are proportional to the weights of the logarithms (first order conditions); the logarithm is an uninterpreted function of the weight",
    ],
}

R2 = [[2, -1], [-3, 1], [1, 1]]
R5 = [[2, -1], [-3, 1], [1, 1], [0, 1], [-1, 0]]  # T - 1 = 4: rational root
R4 = [[2, -1], [-3, 1], [1, 1], [0, -2]]  # T = 4: rational root
COV = [[4, -2], [-2, 2]]
R3 = [[2, -1, 1], [-3, 1, -1], [1, 1, -2]]
COV3 = [[4, 1, 0], [1, 3, -1], [0, -1, 2]]


def log(S, x):
    return core.uf("log", x) if S.symbolic else float(np.log(float(x)))


def barrier(S, b, v):
    return S.sum(x * log(S, y) for x, y in zip(b, v))


def decide(S, make, X, n, b, D=lambda v, f: [], V=None, **k):
    """`b` are the budgets; `D` and `V` are homogeneous in v = f w, f = sum(v)."""
    v = S.reals("v", n, 0.01, 50)
    f = S.sum(v)
    lim = D(v, f)
    if S.symbolic:
        return convex.decide(S, make, X, v, [("weighted logarithms", "le", -barrier(S, b, v)), *lim], V(v, f), **k)
    w = np.asarray(v, dtype=float) / float(f)
    # the portfolio is scaled until the weighted logarithms vanish
    t = float(np.exp(-float(barrier(S, b, w)) / float(sum(b))))
    val = float(V(w * t, t))
    if k.get("root"):
        val = float(np.sqrt(val))
    return convex._replay(S, make, X, w, D(w, 1.0), val, None, "", {"add_constraints": convex.pin(S, w, True)}, 1e-4)


def mu_(S, n):
    return [S.frac(3, 10), S.frac(1, 5), S.frac(1, 4)][:n]


def var(S, v, C):
    return S.sum(v[i] * v[j] * C[i][j] for i in range(len(v)) for j in range(len(v)))


def measure(S, rm, R, C, v, cost=0, mar=None):
    g = series(S, R, v)
    net = [x - cost for x in g]
    m = S.sum(a * b for a, b in zip(mu_(S, len(v)), v)) if mar is None else mar * S.sum(v)
    T = len(R)
    return {
        RM.VARIANCE: lambda: var(S, v, C),
        RM.STANDARD_DEVIATION: lambda: var(S, v, C),
        RM.SEMI_VARIANCE: lambda: S.sum(S.max(m - x, 0) ** 2 for x in g) * S.frac(1, T - 1),
        RM.SEMI_DEVIATION: lambda: S.sum(S.max(m - x, 0) ** 2 for x in g) * S.frac(1, T - 1),
        RM.MEAN_ABSOLUTE_DEVIATION: lambda: mean_(S, [absv(S, x - m) for x in g]),
        RM.FIRST_LOWER_PARTIAL_MOMENT: lambda: mean_(S, [S.max(m - x, 0) for x in g]),
        RM.WORST_REALIZATION: lambda: S.max([-x for x in net]),
        RM.CVAR: lambda: tail(S, [-x for x in net], S.frac(1, 2)),
        RM.MAX_DRAWDOWN: lambda: S.max(drawdowns(S, net)),
        RM.AVERAGE_DRAWDOWN: lambda: mean_(S, drawdowns(S, net)),
        RM.CDAR: lambda: tail(S, drawdowns(S, net), S.frac(1, 2)),
        RM.ULCER_INDEX: lambda: S.sum(x * x for x in drawdowns(S, net)) * S.frac(1, T),
        RM.GINI_MEAN_DIFFERENCE: lambda: gini(S, g),
    }[rm]()


KW = {RM.CVAR: {"cvar_beta": 0.5}, RM.CDAR: {"cdar_beta": 0.5}}
ROOT = (RM.STANDARD_DEVIATION, RM.SEMI_DEVIATION, RM.ULCER_INDEX)
ROWS = {RM.SEMI_DEVIATION: R5, RM.ULCER_INDEX: R4}
NET = (RM.WORST_REALIZATION, RM.CVAR, RM.MAX_DRAWDOWN, RM.AVERAGE_DRAWDOWN, RM.CDAR)
ALL = [RM.VARIANCE, RM.STANDARD_DEVIATION, RM.SEMI_VARIANCE, RM.SEMI_DEVIATION, RM.MEAN_ABSOLUTE_DEVIATION, RM.FIRST_LOWER_PARTIAL_MOMENT, *NET, RM.ULCER_INDEX, RM.GINI_MEAN_DIFFERENCE]

for rm in ALL:

    @case("C15", f"{rm.value}, equal budgets", extra=cvx.extra, points=1, budget_ms=40000, fork_max=rm in ROOT)
    def _(S, rm=rm):
        R = ROWS.get(rm, R2)
        pr = convex.prior(S, R, mu=mu_(S, 2), covariance=COV, cholesky=[[2, 0], [-1, 1]], key="rb" + rm.value)
        make = lambda **k: RiskBudgeting(risk_measure=rm, prior_estimator=pr, max_weights=None, **KW.get(rm, {}), **k)  # noqa: E731
        decide(S, make, np.zeros((len(R), 2)), 2, [1, 1], V=lambda v, f: measure(S, rm, R, COV, v), root=rm in ROOT)


def costs(S, names, v, f):
    kw, c = {}, 0
    tc, prev, fee = [S.frac(1, 50), S.frac(1, 20)], [S.frac(1, 4), S.frac(1, 2)], [S.frac(1, 100), S.frac(3, 100)]
    if "costs" in names:
        kw.update(transaction_costs=S.array(tc), previous_weights=S.array(prev))
        c = c + S.sum(tc[i] * absv(S, v[i] - prev[i] * f) for i in range(2))
    if "new" in names:
        kw.update(transaction_costs=tc[1])
        c = c + S.sum(tc[1] * v[i] for i in range(2))
    if "fees" in names:
        kw.update(management_fees=S.array(fee))
        c = c + S.sum(fee[i] * v[i] for i in range(2))
    return kw, c


for rm in NET:
    for names in (("costs",), ("new", "fees")):

        @case("C15", f"{rm.value}, net of {' and '.join(names)}", extra=cvx.extra, points=1, budget_ms=40000)
        def _(S, rm=rm, names=names):
            pr = convex.prior(S, R2, mu=mu_(S, 2), covariance=COV, key="rbn")
            kw = costs(S, names, [0, 0], 0)[0]
            make = lambda **k: RiskBudgeting(risk_measure=rm, prior_estimator=pr, max_weights=None, **kw, **KW.get(rm, {}), **k)  # noqa: E731
            decide(S, make, np.zeros((3, 2)), 2, [1, 1], V=lambda v, f: measure(S, rm, R2, COV, v, costs(S, names, v, f)[1]))


for how in ("array", "names", "some names", "array with a zero", "default"):

    @case("C15", f"budgets as {how}", extra=cvx.extra, points=1)
    def _(S, how=how):
        n = 3
        pr = convex.prior(S, R3, mu=mu_(S, n), covariance=COV3, key="rbb")
        X = pd.DataFrame(np.zeros((3, n)), columns=list("abc"))
        if how == "array":
            b = S.reals("b", n, 0.1, 2)
            arg = S.array(b)
        elif how == "names":
            b = [S.frac(1, 4), S.frac(1, 2), S.frac(5, 4)]
            arg = {"c": 1.25, "a": 0.25, "b": 0.5}
        elif how == "some names":
            b = [S.frac(1, 4), 1e-10, S.frac(5, 4)]
            arg = {"c": 1.25, "a": 0.25}
        elif how == "array with a zero":
            b = [S.frac(1, 4), S.frac(5, 4), 1e-10]
            arg = np.array([0.25, 1.25, 0.0])
        else:
            b, arg = [1, 1, 1], None
        # a fresh copy each time
        make = lambda **k: RiskBudgeting(prior_estimator=pr, risk_budget=arg if not hasattr(arg, "copy") else arg.copy(), max_weights=None, **k)  # noqa: E731
        decide(S, make, X, n, b, V=lambda v, f: var(S, v, COV3))


@case("C15", "budgets given are unchanged", extra=cvx.extra, points=1)
def _(S):
    pr = convex.prior(S, R3, mu=mu_(S, 3), covariance=COV3, key="rbb")
    b = np.array([0.25, 1.25, 0.0])
    RiskBudgeting(prior_estimator=pr, risk_budget=b).fit(np.zeros((3, 3)))
    S.true("unchanged", bool(b[0] == 0.25 and b[1] == 1.25 and b[2] == 0))


@case("C15", "minimum acceptable return", extra=cvx.extra, points=1)
def _(S):
    m = S.frac(1, 8)
    pr = convex.prior(S, R2, mu=mu_(S, 2), covariance=COV, key="rbm")
    make = lambda **k: RiskBudgeting(risk_measure=RM.FIRST_LOWER_PARTIAL_MOMENT, prior_estimator=pr, min_acceptable_return=m, max_weights=None, **k)  # noqa: E731
    decide(S, make, np.zeros((3, 2)), 2, [1, 1], V=lambda v, f: measure(S, RM.FIRST_LOWER_PARTIAL_MOMENT, R2, COV, v, mar=m))


def fr(S, *xs):
    return [S.frac(*x) if isinstance(x, tuple) else S.frac(x) for x in xs]


LIMITS = {
    "bounds": lambda S: (
        dict(min_weights={"a": 0.125, "c": 0.25}, max_weights=S.array(fr(S, (1, 2), (1, 4), (3, 4)))),
        lambda v, f: [(f"lower {i}", "le", lo * f - v[i]) for i, lo in enumerate(fr(S, (1, 8), 0, (1, 4)))] + [(f"upper {i}", "le", v[i] - hi * f) for i, hi in enumerate(fr(S, (1, 2), (1, 4), (3, 4)))],
    ),
    "default bounds": lambda S: ({}, lambda v, f: []),
    "sentence": lambda S: (dict(linear_constraints=["2 * a + b <= c + 0.5"]), lambda v, f: [("sentence", "le", 2 * v[0] + v[1] - v[2] - S.frac(1, 2) * f)]),
    "equality": lambda S: (dict(linear_constraints=["a == 2 * b"]), lambda v, f: [("sentence", "eq", v[0] - 2 * v[1])]),
    "matrix": lambda S: (
        dict(left_inequality=S.array([[1, -2, 0], [0, 1, -1]]), right_inequality=S.array(fr(S, (1, 4), (-1, 8)))),
        lambda v, f: [("row 0", "le", v[0] - 2 * v[1] - S.frac(1, 4) * f), ("row 1", "le", v[1] - v[2] + S.frac(1, 8) * f)],
    ),
    "minimum return": lambda S: (
        dict(min_return=S.frac(1, 4), management_fees=S.frac(1, 100), transaction_costs=S.frac(1, 50), previous_weights=S.array(fr(S, (1, 2), (1, 4), (1, 4)))),
        lambda v, f: [("return", "le", S.frac(26, 100) * f + S.frac(1, 50) * S.sum(absv(S, v[i] - p * f) for i, p in enumerate(fr(S, (1, 2), (1, 4), (1, 4)))) - S.sum(a * b for a, b in zip(mu_(S, 3), v)))],
    ),
}
for name, spec in LIMITS.items():

    @case("C15", f"limits: {name}", extra=cvx.extra, points=1, budget_ms=40000)
    def _(S, spec=spec):
        n = 3
        kw, D = spec(S)
        pr = convex.prior(S, R3, mu=mu_(S, n), covariance=COV3, key="rbl")
        X = pd.DataFrame(np.zeros((3, n)), columns=list("abc"))
        make = lambda **k: RiskBudgeting(prior_estimator=pr, **kw, **k)  # noqa: E731
        decide(S, make, X, n, [1, 1, 1], D, lambda v, f: var(S, v, COV3))


@case("C15", "reported weights are normalised", extra=cvx.extra, points=1)
def _(S):
    pr = convex.prior(S, R3, mu=mu_(S, 3), covariance=COV3, key="rbw")
    est = RiskBudgeting(prior_estimator=pr)
    cvx.reset()
    est.fit(np.zeros((3, 3)))
    if not S.symbolic:
        w = est.weights_
        S.le("sum", abs(float(np.sum(w)) - 1), 1e-5)
        c = w * (np.array(COV3) @ w)
        S.le("equal contributions", float(np.ptp(c)), 1e-3)
        return
    feas = core.SymBool(cvx.RECORDS[-1].feasible())
    tot = core.lift(sum(est.weights_))
    S.eq("sum", core.ite(feas, tot, 1), 1)
    for i in range(3):
        S.le(f"weight {i} positive", core.ite(feas, -est.weights_[i], 0), 0)


@case("C15", "negative minimum weights are refused", extra=cvx.extra, nowitness=True, points=1)
def _(S):
    pr = convex.prior(S, R2, mu=mu_(S, 2), covariance=COV, key="rbr")
    m = S.reals("m", 2, -1, 1)
    cvx.reset()
    neg = bool(S.any([x < 0 for x in m]))
    S.assume(S.any([neg, S.sum(S.max(x, 0) for x in m) <= S.frac(9, 10)]))
    r, e = S.attempt(lambda: RiskBudgeting(prior_estimator=pr, min_weights=S.array(m)).fit(np.zeros((3, 2))))
    S.eq("refused exactly when negative", e, "ValueError" if neg else None)
