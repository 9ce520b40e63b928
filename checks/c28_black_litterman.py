"""C28: the Black-Litterman posterior is the Bayesian update of the prior by the views."""

import numpy as np
from skfolio.prior import BlackLitterman

from checks.common import REAL
from checks.convex import prior
from symx.harness import case

META = {
    "bounds": "2 to 3 assets, 1 to 3 views on assets, differences and groups; every prior mean, positive definite covariance, tau, confidence and risk-free rate",
    "outside": "more assets and views; the reading of the sentences is C10",
    "assumptions": [REAL, "the linear solver is replaced by its defining equations"],
}
NAMES = ["a", "b", "c"]
# sentences, picks (over a, b, c), values
VIEWS = {
    "one asset": (["a = 0.25"], [[1, 0, 0]], [0.25]),
    "difference": (["b - a = 0.125"], [[-1, 1, 0]], [0.125]),
    "negative value": (["b = -0.5"], [[0, 1, 0]], [-0.5]),
    "two assets": (["a = 0.25", "b == 0.5"], [[1, 0, 0], [0, 1, 0]], [0.25, 0.5]),
    "asset and difference": (["a - b = 0.25", "b = 0.5"], [[1, -1, 0], [0, 1, 0]], [0.25, 0.5]),
}


def setting(S, n):
    mu = [S.real(f"mu{i}", -1, 1) for i in range(n)]
    sd = [S.real(f"sd{i}", S.frac(1, 8), 2) for i in range(n)]
    r = S.real("corr", S.frac(-7, 8), S.frac(7, 8))
    corr = [[1 if i == j else r if {i, j} == {0, 1} else S.frac(1, 4) for j in range(n)] for i in range(n)]
    if n == 3:
        S.assume(r >= S.frac(-3, 4))
        S.assume(r <= S.frac(3, 4))
    cov = [[sd[i] * sd[j] * corr[i][j] for j in range(n)] for i in range(n)]
    return mu, cov


def dot(S, a, b):
    return S.sum(x * y for x, y in zip(a, b, strict=True))


def check(S, n, picks, values, mu, cov, tau, rf, alphas, model, label=""):
    """The first-order conditions of the posterior, free of inverses."""
    k = len(picks)
    P = [p[:n] for p in picks]
    om = [tau * alphas[j] * dot(S, P[j], [dot(S, cov[i], P[j]) for i in range(n)]) for j in range(k)]
    d = [model.mu[i] - rf - mu[i] for i in range(n)]
    res = [values[j] - dot(S, P[j], mu) - dot(S, P[j], d) for j in range(k)]
    # d = tau Sigma P' Omega^-1 (q - P mu - P d)
    for i in range(n):
        rhs = S.sum(tau * dot(S, cov[i], P[j]) * res[j] / om[j] for j in range(k))
        S.eq(f"mean {i}{label}", d[i], rhs)
    # M + tau Sigma P' Omega^-1 P M = tau Sigma, with M the posterior minus the prior covariance
    M = [[model.covariance[i, j] - cov[i][j] for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            lhs = M[i][j] + S.sum(
                tau * dot(S, cov[i], P[v]) * dot(S, P[v], [M[h][j] for h in range(n)]) / om[v] for v in range(k)
            )
            S.eq(f"covariance {i} {j}{label}", lhs, tau * cov[i][j])


X = {n: np.arange(4.0 * n).reshape(4, n) / 16 for n in (2, 3)}


def frame(S, n):
    return S.frame([list(map(float, r)) for r in X[n]], columns=NAMES[:n])


def returns(S, n):
    return [[S.frac(t - i, 4) for i in range(n)] for t in range(4)]


for name, (sent, picks, values) in VIEWS.items():
    for n in (2, 3):
        if n == 3 and len(sent) > 1:
            continue

        @case("C28", f"{name}, {n} assets", points=2)
        def _(S, sent=sent, picks=picks, values=values, n=n):
            mu, cov = setting(S, n)
            tau = S.real("tau", S.frac(1, 64), 1)
            rf = S.real("rf", -1, 1)
            R = returns(S, n)
            m = (
                BlackLitterman(views=sent, prior_estimator=prior(S, R, mu, cov), tau=tau, risk_free_rate=rf)
                .fit(frame(S, n))
                .prior_model_
            )
            check(S, n, picks, values, mu, cov, tau, rf, [1] * len(sent), m)
            S.eq("scenarios", m.returns, R)

    @case("C28", f"{name}, confidences", points=2)
    def _(S, sent=sent, picks=picks, values=values):
        mu, cov = setting(S, 2)
        c = [S.real(f"confidence{j}", S.frac(1, 64), S.frac(63, 64)) for j in range(len(sent))]
        given = S.array(c)
        m = (
            BlackLitterman(views=sent, prior_estimator=prior(S, returns(S, 2), mu, cov), view_confidences=given, tau=0.0625)
            .fit(frame(S, 2))
            .prior_model_
        )
        check(S, 2, picks, values, mu, cov, S.frac(1, 16), 0, [1 / x - 1 for x in c], m)
        S.eq("confidences given are unchanged", given, c)


@case("C28", "default tau", points=2)
def _(S):
    mu, cov = setting(S, 2)
    m = BlackLitterman(views=["a = 0.25"], prior_estimator=prior(S, returns(S, 2), mu, cov)).fit(frame(S, 2)).prior_model_
    check(S, 2, [[1, 0]], [0.25], mu, cov, 0.05, 0, [1], m)


@case("C28", "a group view averages its assets", points=2)
def _(S):
    mu, cov = setting(S, 3)
    m = (
        BlackLitterman(
            views=["g - h = 0.25"], groups={"a": ["g"], "b": ["h"], "c": ["g"]}, prior_estimator=prior(S, returns(S, 3), mu, cov)
        )
        .fit(frame(S, 3))
        .prior_model_
    )
    check(S, 3, [[S.frac(1, 2), -1, S.frac(1, 2)]], [0.25], mu, cov, 0.05, 0, [1], m)


for kind in ("float", "integer"):

    @case("C28", f"certain and empty views, {kind} confidences", points=2)
    def _(S, kind=kind):
        mu, cov = setting(S, 2)
        given = np.array([1, 0], dtype=float if kind == "float" else int)
        m = (
            BlackLitterman(views=["a = 0.25", "b = 0.5"], prior_estimator=prior(S, returns(S, 2), mu, cov), view_confidences=given)
            .fit(frame(S, 2))
            .prior_model_
        )
        S.eq("the certain view holds", m.mu[0], 0.25)
        # the other asset only moves with the first one
        gap = (m.mu[1] - mu[1]) * cov[0][0] - cov[0][1] * (S.frac(1, 4) - mu[0])
        S.le("the empty view has no effect (above)", gap, 1e-6)
        S.le("the empty view has no effect (below)", -gap, 1e-6)
        S.true("confidences given are unchanged", bool(given[0] == 1 and given[1] == 0))


@case("C28", "confidences outside zero and one are refused", points=3)
def _(S):
    mu, cov = setting(S, 2)
    c = S.real("confidence", -2, 2)
    _, exc = S.attempt(
        lambda: BlackLitterman(
            views=["a = 0.25", "b = 0.5"], prior_estimator=prior(S, returns(S, 2), mu, cov), view_confidences=S.array([0.5, c])
        ).fit(frame(S, 2))
    )
    bad = S.any([c < 0, c > 1])
    S.true("refused exactly then", bad if exc == "ValueError" else S.all([c >= 0, c <= 1]) if exc is None else False)


@case("C28", "refused views", points=1)
def _(S):
    mu, cov = setting(S, 2)
    for k, (views, groups) in enumerate(
        [(["a >= 0.25"], None), (["a = 0.25", "b <= 1"], None), (["z = 0.25"], None), ([["a = 0.25"]], None)]
    ):
        _, exc = S.attempt(
            lambda: BlackLitterman(views=views, groups=groups, prior_estimator=prior(S, returns(S, 2), mu, cov)).fit(frame(S, 2))
        )
        S.true(f"refused {k}", exc in ("ValueError", "GroupNotFoundError"))
    _, exc = S.attempt(lambda: BlackLitterman(views=["a = 0.25"], prior_estimator=prior(S, returns(S, 2), mu, cov)).fit(X[2]))
    S.true("names needed", exc == "ValueError")
