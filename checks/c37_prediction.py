"""C37: predictions, scores and scorers evaluate the fitted weights."""

import numpy as np
import sklearn.model_selection as sks
from skfolio import ExtraRiskMeasure, PerfMeasure, Population, Portfolio, RatioMeasure
from skfolio import RiskMeasure as RM
from skfolio.metrics import make_scorer
from skfolio.optimization import (
    BaseOptimization,
    DistributionallyRobustCVaR,
    EqualWeighted,
    HierarchicalEqualRiskContribution,
    HierarchicalRiskParity,
    InverseVolatility,
    MaximumDiversification,
    MeanRisk,
    NestedClustersOptimization,
    RiskBudgeting,
)

from checks.c20_cross_val_predict import TrainMean
from checks.common import REAL, div, mean
from checks.convex import prior
from symx.harness import case

META = {
    "bounds": "2 assets and 3 observations (naive weights: 1 to 4 assets, cross-validated scores: 6 observations in 2 or 3 folds), every weight, return, cost, fee, previous weight and risk-free rate; every optimizer class; up to 3 portfolios per prediction",
    "outside": "more assets and observations; random weights; parallel workers",
    "assumptions": [REAL, "square roots are replaced by their defining equations"],
}


def absv(S, x):
    return S.max(x, -x)


def sample(S, T=3, n=2):
    x = [[S.real(f"x{t}{i}", -1, 1) for i in range(n)] for t in range(T)]
    return x, S.array(x)


def params(S, n=2, tag=""):
    return dict(
        transaction_costs=S.array([S.real(f"tc{tag}{i}", 0, 1) for i in range(n)]),
        management_fees=S.array([S.real(f"fee{tag}{i}", 0, 1) for i in range(n)]),
        previous_weights=S.array([S.real(f"prev{tag}{i}", -1, 1) for i in range(n)]),
    )


def net(S, x, w, k):
    """Documented net returns of the weights."""
    n = len(w)
    tc, fee, prev = (k.get(a, [0] * n) for a in ("transaction_costs", "management_fees", "previous_weights"))
    c = S.sum(tc[i] * absv(S, w[i] - prev[i]) + fee[i] * w[i] for i in range(n))
    return [S.sum(r[i] * w[i] for i in range(n)) - c for r in x]


COSTS = (MeanRisk, RiskBudgeting, MaximumDiversification, HierarchicalRiskParity, HierarchicalEqualRiskContribution)
RATE = (MeanRisk, RiskBudgeting, DistributionallyRobustCVaR)
CLASSES = (*COSTS, DistributionallyRobustCVaR, NestedClustersOptimization, EqualWeighted, InverseVolatility)

for _cls in CLASSES:
    for _how in ("model", "given"):

        @case("C37", f"{_cls.__name__}, parameters of the {'model' if _how == 'model' else 'portfolio'}", points=2)
        def _(S, cls=_cls, how=_how):
            x, X = sample(S)
            w = [S.real(f"w{i}", -1, 2) for i in range(2)]
            own = params(S) if cls in COSTS else {}
            rf = S.real("rf", 0, 1) if cls in RATE else 0
            kw = {**own, **({"risk_free_rate": rf} if cls in RATE else {})}
            p = None
            if how == "given":
                over = params(S, tag="p")
                p = {"transaction_costs": over["transaction_costs"], "management_fees": over["management_fees"], "risk_free_rate": S.real("prf", 0, 1), "name": "mine", "min_acceptable_return": S.frac(1, 8)}
            est = cls(**kw, portfolio_params=p)
            est.weights_ = S.array(w)
            kept = None if p is None else dict(p)
            ptf = est.predict(X)
            eff = {**own, **(p or {})}
            S.true("a portfolio", type(ptf) is Portfolio)
            S.eq("weights", ptf.weights, w)
            S.eq("returns", ptf.returns, net(S, x, w, eff))
            S.eq("risk-free rate", ptf.risk_free_rate, eff.get("risk_free_rate", rf))
            S.true("name", ptf.name == ("mine" if p else cls.__name__))
            if p:
                S.eq("acceptable return", ptf.min_acceptable_return, S.frac(1, 8))
                S.true("portfolio parameters kept", list(p) == list(kept) and all(p[k] is kept[k] for k in p))
            S.eq("weights kept", est.weights_, w)


class Fixed(BaseOptimization):
    def __init__(self, transaction_costs=0, management_fees=0, previous_weights=None, risk_free_rate=0, portfolio_params=None):
        super().__init__(portfolio_params=portfolio_params)
        self.transaction_costs = transaction_costs
        self.management_fees = management_fees
        self.previous_weights = previous_weights
        self.risk_free_rate = risk_free_rate

    def fit(self, X, y=None):
        self.weights_ = DATA["w"]
        return self


DATA = {}

for _m in (1, 2, 3):

    @case("C37", f"{_m} portfolios", points=2)
    def _(S, m=_m):
        x, X = sample(S)
        w = [[S.real(f"w{j}{i}", -1, 2) for i in range(2)] for j in range(m)]
        DATA["w"] = S.array(w)
        k = params(S)
        pop = Fixed(**k, risk_free_rate=S.frac(1, 8)).fit_predict(X)
        S.true("a population", type(pop) is Population and len(pop) == m)
        S.true("different names", len({p.name for p in pop}) == m)
        for j, p in enumerate(pop):
            S.eq(f"weights {j}", p.weights, w[j])
            S.eq(f"returns {j}", p.returns, net(S, x, w[j], k))
            S.eq(f"risk-free rate {j}", p.risk_free_rate, S.frac(1, 8))


def sharpe(S, r, rf, name):
    m = mean(S, r)
    v = div(S, S.sum((a - m) * (a - m) for a in r), len(r) - 1)
    S.assume(v >= S.frac(1, 16))
    return (m - rf) / S.sqrt(v)


@case("C37", "score of a portfolio", points=2)
def _(S):
    x, X = sample(S)
    w = [S.frac(3, 2), S.frac(-1, 2)]
    DATA["w"] = S.array(w)
    rf, fee = S.real("rf", 0, 1), S.real("fee", 0, 1)
    want = sharpe(S, net(S, x, w, {"management_fees": [fee, fee]}), rf, "s")
    est = Fixed(risk_free_rate=rf, management_fees=fee).fit(X)
    S.eq("score", est.score(X), want)
    S.eq("with a target", est.score(X, S.array([[0], [0], [1]])), want)


@case("C37", "score of several portfolios", points=2)
def _(S):
    x, X = sample(S)
    w = [[S.frac(3, 2), S.frac(-1, 2)], [1, 0], [0, 1]]
    DATA["w"] = S.array(w)
    rf = S.real("rf", 0, 1)
    each = [sharpe(S, net(S, x, v, {}), rf, f"s{j}") for j, v in enumerate(w)]
    S.eq("score", Fixed(risk_free_rate=rf).fit(X).score(X), div(S, S.sum(each), 3))


MEASURES = [
    *PerfMeasure,
    RM.VARIANCE, RM.SEMI_VARIANCE, RM.MEAN_ABSOLUTE_DEVIATION, RM.FIRST_LOWER_PARTIAL_MOMENT, RM.WORST_REALIZATION, RM.CVAR, RM.MAX_DRAWDOWN, RM.AVERAGE_DRAWDOWN, RM.CDAR, RM.GINI_MEAN_DIFFERENCE, RM.ANNUALIZED_VARIANCE,
    ExtraRiskMeasure.VALUE_AT_RISK, ExtraRiskMeasure.DRAWDOWN_AT_RISK, ExtraRiskMeasure.FOURTH_CENTRAL_MOMENT, ExtraRiskMeasure.FOURTH_LOWER_PARTIAL_MOMENT, ExtraRiskMeasure.SKEW, ExtraRiskMeasure.KURTOSIS,
    RatioMeasure.MEAN_ABSOLUTE_DEVIATION_RATIO, RatioMeasure.WORST_REALIZATION_RATIO, RatioMeasure.CVAR_RATIO, RatioMeasure.GINI_MEAN_DIFFERENCE_RATIO, RatioMeasure.CALMAR_RATIO,
]  # fmt: skip
for _measure in MEASURES:

    @case("C37", f"scorer, {_measure}", points=2, max_paths=200)
    def _(S, measure=_measure):
        a = S.real("a", S.frac(1, 8), 1)
        w = [S.frac(1, 2), S.frac(3, 4)]
        DATA["w"] = S.array(w)
        X = S.array([[a, S.frac(-1, 2)], [S.frac(-1, 2), S.frac(1, 8)], [S.frac(1, 4), S.frac(1, 4)]])
        est = Fixed().fit(X)
        v = getattr(Portfolio(X=X, weights=S.array(w)), measure.value)
        good = 1 if isinstance(measure, (PerfMeasure, RatioMeasure)) else -1
        S.eq("default sign", make_scorer(measure)(est, X), v if good == 1 else -v)
        S.eq("greater is better", make_scorer(measure, greater_is_better=True)(est, X), v)
        S.eq("less is better", make_scorer(measure, greater_is_better=False)(est, X), -v)


@case("C37", "scorer of a function", points=2)
def _(S):
    x, X = sample(S)
    w = [S.real(f"w{i}", -1, 2) for i in range(2)]
    DATA["w"] = S.array(w)
    est = Fixed().fit(X)
    k = S.real("k", -2, 2)
    f = lambda pred, scale=1: scale * pred.mean + pred.weights[0]  # noqa: E731
    m = mean(S, net(S, x, w, {}))
    S.eq("plain", make_scorer(f)(est, X), m + w[0])
    S.eq("with parameters", make_scorer(f, scale=k)(est, X), k * m + w[0])
    S.eq("loss", make_scorer(f, greater_is_better=False, scale=k)(est, X), -(k * m + w[0]))
    _, e = S.attempt(lambda: make_scorer("mean"))
    S.true("anything else is refused", e == "TypeError")


for _folds in (2, 3):

    @case("C37", f"cross-validated scores, {_folds} folds", points=2)
    def _(S, folds=_folds):
        x, X = sample(S, 6, 2)
        got = sks.cross_val_score(TrainMean(), X, cv=sks.KFold(folds), scoring=make_scorer(PerfMeasure.MEAN), error_score="raise")
        loss = sks.cross_val_score(TrainMean(), X, cv=sks.KFold(folds), scoring=make_scorer(RM.WORST_REALIZATION), error_score="raise") if folds == 3 else None
        k = 6 // folds
        for f in range(folds):
            test = x[f * k : (f + 1) * k]
            train = x[: f * k] + x[(f + 1) * k :]
            w = [mean(S, [r[i] for r in train]) for i in range(2)]
            r = net(S, test, w, {})
            S.eq(f"fold {f}", got[f], mean(S, r))
            if loss is not None:
                S.eq(f"loss {f}", loss[f], S.min(r))


for _n in (1, 2, 3, 4):

    @case("C37", f"naive weights, {_n} assets", points=2)
    def _(S, n=_n):
        x, X = sample(S, 2, n)
        e = EqualWeighted().fit(X)
        S.eq("equal", e.weights_, [S.frac(1, n)] * n)
        sd = [S.real(f"sd{i}", S.frac(1, 8), 4) for i in range(n)]
        rho = S.real("rho", S.frac(-1, 4), S.frac(3, 4))
        pr = prior(S, x, covariance=[[sd[i] * sd[j] * (1 if i == j else rho) for j in range(n)] for i in range(n)], key="iv")
        w = InverseVolatility(prior_estimator=pr).fit(X).weights_
        for i in range(1, n):
            S.eq(f"same stand-alone risk {i}", w[i] * sd[i], w[0] * sd[0])
        S.eq("sum", S.sum(w), 1)
        S.le("positive", 0, S.min(list(w)))
