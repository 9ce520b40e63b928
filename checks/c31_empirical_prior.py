"""C31: the empirical prior joins the estimated moments, projected when log-normal."""

from skfolio.moments.covariance import BaseCovariance
from skfolio.moments.expected_returns import BaseMu
from skfolio.prior import EmpiricalPrior

from checks.common import REAL, mean
from symx.harness import case

META = {
    "bounds": "2 assets, 3 observations; every return, estimated moment and investment horizon",
    "outside": "more assets and observations; the estimators themselves are C26",
    "assumptions": [REAL, "logarithm and exponential are uninterpreted functions"],
}
DATA = {}


class FixedMu(BaseMu):
    def __init__(self, key="mu"):
        self.key = key

    def fit(self, X, y=None, **k):
        DATA["mu saw"] = (X, y)
        self.mu_ = DATA[self.key].copy()
        return self


class FixedCov(BaseCovariance):
    def __init__(self, key="cov"):
        super().__init__()
        self.key = key

    def fit(self, X, y=None, **k):
        DATA["cov saw"] = (X, y)
        self.covariance_ = DATA[self.key].copy()
        return self


def moments(S):
    mu = [S.real(f"mu{i}", S.frac(-1, 4), S.frac(1, 4)) for i in range(2)]
    cov = [[S.real(f"c{i}{j}", S.frac(-1, 8), S.frac(1, 8)) for j in range(2)] for i in range(2)]
    cov[1][0] = cov[0][1]
    DATA["mu"], DATA["cov"] = S.array(mu), S.array(cov)
    return mu, cov


def observations(S):
    x = [[S.real(f"x{t}{i}", S.frac(-1, 2), 1) for i in range(2)] for t in range(3)]
    y = [[S.real(f"y{t}", S.frac(-1, 2), 1)] for t in range(3)]
    return x, y


for with_y in (False, True):

    @case("C31", f"linear returns, y {with_y}", points=3)
    def _(S, with_y=with_y):
        mu, cov = moments(S)
        x, y = observations(S)
        e = EmpiricalPrior(mu_estimator=FixedMu(), covariance_estimator=FixedCov())
        e.fit(S.array(x), S.array(y) if with_y else None)
        m = e.prior_model_
        S.eq("mean", m.mu, mu)
        S.eq("covariance", m.covariance, cov)
        S.eq("scenarios", m.returns, x)
        S.true("no factor of the covariance", m.cholesky is None)
        for k in ("mu", "cov"):
            S.eq(f"{k} estimated on the returns", DATA[f"{k} saw"][0], x)
            S.true(f"{k} target passed", (DATA[f"{k} saw"][1] is not None) == with_y)

    @case("C31", f"log-normal, y {with_y}", points=3)
    def _(S, with_y=with_y):
        mu, cov = moments(S)
        x, y = observations(S)
        h = S.real("horizon", S.frac(1, 4), 8)
        e = EmpiricalPrior(mu_estimator=FixedMu(), covariance_estimator=FixedCov(), is_log_normal=True, investment_horizon=h)
        e.fit(S.array(x), S.array(y) if with_y else None)
        m = e.prior_model_
        g = [S.exp(h * mu[i] + h * cov[i][i] / 2) for i in range(2)]
        for i in range(2):
            S.eq(f"expected return {i}", m.mu[i], g[i] - 1)
            if S.symbolic:
                S.true(f"expected growth {i}", S.any([m.mu[i] == g[i] - 1, m.mu[i] == g[i]]))
            else:
                S.true(f"expected growth {i}", min(abs(m.mu[i] - g[i] + 1), abs(m.mu[i] - g[i])) < 1e-9 * max(1, g[i]))
            for j in range(2):
                S.eq(f"covariance {i} {j}", m.covariance[i, j], g[i] * g[j] * (S.exp(h * cov[i][j]) - 1))
        S.eq("scenarios", m.returns, x)
        for k in ("mu", "cov"):
            S.eq(f"{k} estimated on the log returns", DATA[f"{k} saw"][0], [[S.log(1 + v) for v in r] for r in x])
            S.true(f"{k} target passed", (DATA[f"{k} saw"][1] is not None) == with_y)
        if with_y:
            S.eq("target in log returns", DATA["mu saw"][1], [[S.log(1 + v) for v in r] for r in y])
        S.eq("the fitted mean estimator keeps its estimate", e.mu_estimator_.mu_, mu)
        S.eq("the fitted covariance estimator keeps its estimate", e.covariance_estimator_.covariance_, cov)


@case("C31", "default estimators", points=3)
def _(S):
    x = [[S.real(f"x{t}{i}", -1, 1) for i in range(2)] for t in range(3)]
    m = [mean(S, [r[i] for r in x]) for i in range(2)]
    cov = [[S.sum((r[i] - m[i]) * (r[j] - m[j]) for r in x) * S.frac(1, 2) for j in range(2)] for i in range(2)]
    S.assume(cov[0][0] * cov[1][1] - cov[0][1] * cov[0][1] >= S.frac(1, 64))
    p = EmpiricalPrior().fit(S.array(x)).prior_model_
    S.eq("mean", p.mu, m)
    S.eq("covariance", p.covariance, cov)
    S.eq("scenarios", p.returns, x)


@case("C31", "horizon and log-normal go together", points=1)
def _(S):
    mu, cov = moments(S)
    x, _y = observations(S)
    for k, kw in enumerate([dict(is_log_normal=True), dict(investment_horizon=2), dict(is_log_normal=False, investment_horizon=1)]):
        _, exc = S.attempt(lambda: EmpiricalPrior(mu_estimator=FixedMu(), covariance_estimator=FixedCov(), **kw).fit(S.array(x)))
        S.true(f"refused {k}", exc == "ValueError")
