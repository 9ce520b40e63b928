"""C29: the factor model maps factor moments to assets."""

import importlib

import numpy as np
import sklearn.base as skb
from skfolio.prior import FactorModel, LoadingMatrixRegression
from skfolio.prior._factor_model import BaseLoadingMatrix

from checks.common import REAL
from checks.convex import prior
from symx.harness import case
from symx.patch import _Mod

META = {
    "bounds": "2 to 3 assets, 1 to 2 factors, 3 to 4 observations; every loading, intercept, residual size and factor moment",
    "outside": "more assets, factors and observations; the numerical regression of the loadings (a stand-in is used); covariances that need a repair (C27)",
    "assumptions": [REAL, "logarithm and exponential are uninterpreted functions; Cholesky factors and square roots are replaced by their defining equations"],
}
DATA = {}


class FixedLoading(BaseLoadingMatrix):
    def __init__(self, key="x"):
        self.key = key

    def fit(self, X, y=None, **k):
        DATA["loading saw"] = (X, y)
        self.loading_matrix_, self.intercepts_ = DATA[self.key]
        return self


def factor_moments(S, k):
    mu = [S.real(f"fmu{i}", -1, 1) for i in range(k)]
    sd = [S.real(f"fsd{i}", S.frac(1, 8), 2) for i in range(k)]
    r = S.real("fcorr", S.frac(-7, 8), S.frac(7, 8)) if k == 2 else None
    cov = [[sd[i] * sd[j] * (1 if i == j else r) for j in range(k)] for i in range(k)]
    return mu, cov


for n, k, T, TF in ((2, 1, 3, 3), (2, 2, 3, 3), (3, 1, 3, 3), (2, 1, 3, 5)):
    for residual in (True, False):
        if not residual and n > k:
            continue

        @case("C29", f"{n} assets, {k} factors, {TF} scenarios, residual variance {residual}", points=2)
        def _(S, n=n, k=k, T=T, TF=TF, residual=residual):
            fmu, fcov = factor_moments(S, k)
            F = [[S.real(f"scen{t}{i}", -1, 1) for i in range(k)] for t in range(TF)]
            B = [[S.real(f"b{i}{j}", -2, 2) for j in range(k)] for i in range(n)]
            if k == 2:
                B[0][1], B[1][0] = S.frac(1, 2), S.frac(-1, 2)
                S.assume(B[0][0] * B[1][1] + S.frac(1, 4) >= S.frac(1, 8))
            if n == 3:
                B, fcov = [[S.frac(1, 4)], [S.frac(1, 2)], [S.frac(-3, 2)]], [[S.frac(9, 4)]]
            a = [S.real(f"a{i}", -1, 1) for i in range(n)]
            DATA["x"] = (S.array(B), S.array(a))
            y = [[S.frac((t * t) % 5 - 2 * i, 4) for i in range(k)] for t in range(T)]
            # residuals (s + d, s - d, s): their variance is d squared
            d = [S.real(f"d{i}", S.frac(1, 8), 2) for i in range(n)]
            if n == 3:
                d[1], d[2] = S.frac(1, 2), S.frac(3, 4)
            s = [S.real(f"s{i}", -1, 1) for i in range(n)]
            res = [[s[i] + d[i], s[i] - d[i], s[i]] for i in range(n)]
            x = [[a[i] + S.sum(B[i][j] * y[t][j] for j in range(k)) + res[i][t] for i in range(n)] for t in range(T)]
            rv = [d[i] * d[i] if residual else 0 for i in range(n)]
            out = (
                FactorModel(
                    loading_matrix_estimator=FixedLoading(), factor_prior_estimator=prior(S, F, fmu, fcov), residual_variance=residual
                )
                .fit(S.array(x), S.array(y))
                .prior_model_
            )
            S.eq("mean", out.mu, [a[i] + S.sum(B[i][j] * fmu[j] for j in range(k)) for i in range(n)])
            S.eq("scenarios", out.returns, [[a[i] + S.sum(B[i][j] * F[t][j] for j in range(k)) for i in range(n)] for t in range(TF)])
            want = [
                [
                    S.sum(B[i][u] * fcov[u][v] * B[j][v] for u in range(k) for v in range(k)) + (rv[i] if i == j else 0)
                    for j in range(n)
                ]
                for i in range(n)
            ]
            S.eq("covariance", out.covariance, want)
            L = out.cholesky
            S.eq("factorised covariance", L @ L.T, want)
            S.eq("loadings fitted on the assets", DATA["loading saw"][0], x)
            S.eq("loadings fitted on the factors", DATA["loading saw"][1], y)


class Recorder(skb.BaseEstimator):
    def fit(self, X, y):
        self.coef_ = np.array([y[0], X[0, 1]]) if X.shape[1] == 2 else np.array([y[0]])
        self.intercept_ = y[-1] - X[-1, 0]
        return self


class OnePerColumn:
    def __init__(self, estimator, n_jobs=None):
        self.estimator = estimator

    def fit(self, X, y, **k):
        self.estimators_ = [skb.clone(self.estimator).fit(X, y[:, i]) for i in range(y.shape[1])]
        return self


fm = importlib.import_module("skfolio.prior._factor_model")


def reg_extra():
    return {fm.skmo: _Mod(fm.skmo, {"MultiOutputRegressor": OnePerColumn}, wrap=False)}


@case("C29", "regression of the loadings, asset by asset", points=2, extra=reg_extra)
def _(S):
    x = [[S.real(f"x{t}{i}", -1, 1) for i in range(3)] for t in range(3)]
    y = [[S.real(f"y{t}{i}", -1, 1) for i in range(2)] for t in range(3)]
    e = LoadingMatrixRegression(linear_regressor=Recorder())
    S.true("fit returns the estimator", e.fit(S.array(x), S.array(y)) is e)
    S.eq("loadings", e.loading_matrix_, [[x[0][i], y[0][1]] for i in range(3)])
    S.eq("intercepts", e.intercepts_, [x[-1][i] - y[-1][0] for i in range(3)])


@case("C29", "wrong shapes are refused", points=1)
def _(S):
    fmu, fcov = factor_moments(S, 1)
    X, y = S.array([[0.5, 0.25], [0.25, 1.0], [0.0, 0.5]]), S.array([[0.5], [0.25], [1.0]])
    for k, (B, a) in enumerate([([[1.0], [2.0], [3.0]], [0.0, 0.0]), ([[1.0, 2.0]], [0.0, 0.0]), ([[1.0], [2.0]], [0.0])]):
        DATA["x"] = (S.array(B), S.array(a))
        _, exc = S.attempt(
            lambda: FactorModel(
                loading_matrix_estimator=FixedLoading(), factor_prior_estimator=prior(S, [[0.5], [1.0]], fmu, fcov)
            ).fit(X, y)
        )
        S.true(f"refused {k}", exc == "ValueError")
