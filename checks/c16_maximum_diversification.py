"""C16: maximum diversification maximises the documented ratio."""

import numpy as np
import pandas as pd
from skfolio.optimization import MaximumDiversification

from checks import convex
from checks.c13_convex_risk import absv
from symx import core, cvx
from symx.harness import case

META = {
    "bounds": "every weight vector of 2 and 3 assets with budget one and positive weighted volatility, fixed covariances with rational volatilities; each kind of cost, penalty and limit",
    "outside": "more assets; the numerical solver",
    "assumptions": convex.ASSUME,
}

COV = {2: [[4, -2], [-2, 9]], 3: [[4, 1, 0], [1, 9, -2], [0, -2, 1]]}
VOL = {2: [2, 3], 3: [2, 3, 1]}
R = {2: [[2, -1], [-3, 1], [1, 1]], 3: [[2, -1, 1], [-3, 1, -1], [1, 1, -2]]}


def prior(S, n):
    # expected returns are not involved: arbitrary, with both signs
    return convex.prior(S, R[n], mu=[S.frac(-3, 10), S.frac(1, 5), S.frac(1, 4)][:n], covariance=COV[n], key=f"md{n}")


def var(S, v, C):
    return S.sum(v[i] * v[j] * C[i][j] for i in range(len(v)) for j in range(len(v)))


def fr(S, *xs):
    return [S.frac(*x) if isinstance(x, tuple) else S.frac(x) for x in xs]


CASES = {
    "plain": lambda S, n: ({}, None, 0, lambda v, f: []),
    "risk-free rate": lambda S, n: ({"risk_free_rate": S.frac(1, 4)}, None, S.frac(1, 4), lambda v, f: []),
    "costs": lambda S, n: (
        {"transaction_costs": S.frac(1, 10), "previous_weights": S.array(fr(S, (1, 2), (1, 4), (1, 4))[:n])},
        lambda v, f: S.frac(1, 10) * S.sum(absv(S, v[i] - p * f) for i, p in enumerate(fr(S, (1, 2), (1, 4), (1, 4))[:n])),
        0,
        lambda v, f: [],
    ),
    "fees": lambda S, n: ({"management_fees": S.array(fr(S, (1, 10), (1, 5), (1, 20))[:n])}, lambda v, f: S.sum(x * y for x, y in zip(fr(S, (1, 10), (1, 5), (1, 20)), v)), 0, lambda v, f: []),
    "bounds": lambda S, n: ({"min_weights": S.frac(-1, 4), "max_weights": S.frac(3, 4)}, None, 0, lambda v, f: [(f"lower {i}", "le", -S.frac(1, 4) * f - x) for i, x in enumerate(v)] + [(f"upper {i}", "le", x - S.frac(3, 4) * f) for i, x in enumerate(v)]),
    "turnover": lambda S, n: (
        {"max_turnover": S.frac(1, 4), "previous_weights": S.array(fr(S, (1, 2), (1, 2), (1, 4))[:n])},
        None,
        0,
        lambda v, f: [(f"turnover {i}", "le", absv(S, v[i] - p * f) - S.frac(1, 4) * f) for i, p in enumerate(fr(S, (1, 2), (1, 2), (1, 4))[:n])],
    ),
    "sentence": lambda S, n: ({"linear_constraints": ["2 * a <= b + 0.5"]}, None, 0, lambda v, f: [("sentence", "le", 2 * v[0] - v[1] - S.frac(1, 2) * f)]),
}
for n in (2, 3):
    for name, spec in CASES.items():

        @case("C16", f"{n} assets, {name}", extra=cvx.extra, points=1, tol=1e-4, budget_ms=40000)
        def _(S, n=n, spec=spec):
            kw, cost, rf, D = spec(S, n)
            kw = {"min_weights": None, "max_weights": None, **kw}
            pr = prior(S, n)
            X = pd.DataFrame(np.zeros((3, n)), columns=list("abc")[:n])
            make = lambda **k: MaximumDiversification(prior_estimator=pr, **kw, **k)  # noqa: E731
            convex.decide_ratio(S, make, X, n, VOL[n], D, lambda v, f: var(S, v, COV[n]), rf=rf, cost=cost, root=True)


@case("C16", "penalties", extra=cvx.extra, points=1, tol=1e-4)
def _(S):
    n = 2
    pr = prior(S, n)
    make = lambda **k: MaximumDiversification(prior_estimator=pr, l1_coef=S.frac(1, 10), min_weights=None, max_weights=None, **k)  # noqa: E731
    v = S.reals("v", n, -50, 50)
    f = S.sum(v)
    excess = 2 * v[0] + 3 * v[1]
    pen = S.frac(1, 10) * S.sum(absv(S, x) for x in v)
    if not S.symbolic:
        S.assume(f >= 0.1 and excess >= 1e-2)
        w = np.asarray(v, dtype=float) / f
        lev = lambda u: convex._level(make, np.zeros((3, n)), None, u, S) * (2 * u[0] + 3 * u[1]) / (var(S, u, COV[n]) ** 0.5 + 0.1 * abs(u).sum())  # noqa: E731
        a, b = lev(np.array([0.5, 0.5])), lev(w)
        S.le("penalised ratio", abs(a - b), 1e-3 * max(a, b))
        return
    S.assume(f >= S.frac(1, 10))
    h = convex.ratio_level(S, make, np.zeros((3, n)), None, 0)
    S.assume(excess == h)
    cvx.reset()
    est = make(add_constraints=convex.pin(S, v))
    est.fit(np.zeros((3, n)))
    rec = cvx.RECORDS[-1]
    feas = core.SymBool(rec.feasible())
    d = est.problem_values_["objective"] - pen
    S.le("penalised risk not negative", core.ite(feas, -d, 0), 0)
    S.le("objective not better than documented", core.ite(feas, var(S, v, COV[n]), d * d), d * d)
    for i, x in enumerate(cvx.attained(rec, True, var(S, v, COV[n]), d * d)):
        S.true(f"allowed and valued as documented ({i})", x)


@case("C16", "the expected returns do not matter", extra=cvx.extra, points=1)
def _(S):
    """Two markets with the same covariance and different expected returns."""
    n = 2
    w = S.reals("w", n, -2, 2)
    S.assume(2 * w[0] + 3 * w[1] >= S.frac(1, 10))
    S.assume(S.sum(w) == 1)
    mus = [S.reals("m", n, -1, 1), [S.frac(1, 3), S.frac(1, 7)]]
    vals = []
    for i, m in enumerate(mus):
        pr = convex.prior(S, R[n], mu=m, covariance=COV[n], key=f"mdm{i}")
        cvx.reset()
        est = MaximumDiversification(prior_estimator=pr, min_weights=None, max_weights=None, add_constraints=convex.pin(S, w, True))
        est.fit(np.zeros((3, n)))
        vals.append(est)
    if not S.symbolic:
        for e in vals:
            S.le("weights", float(np.max(abs(e.weights_ - np.array(w, dtype=float)))), 1e-4)
            S.le("diversification", abs(float(e.problem_values_["expected_return"]) - float(2 * w[0] + 3 * w[1])), 1e-4)
        return
    feas = core.SymBool(cvx.RECORDS[-1].feasible())
    e = vals[-1]
    f = core.lift(e.problem_values_["factor"])
    S.true("reported ratio", core.implies(core.band(feas, f > 0), e.problem_values_["expected_return"] == 2 * w[0] + 3 * w[1]))
