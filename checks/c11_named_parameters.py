"""C11: parameters given by asset name equal the same parameters in the order of the assets."""

import itertools

import numpy as np
from skfolio import Portfolio
from skfolio import RiskMeasure as RM
from skfolio.optimization import HierarchicalRiskParity, InverseVolatility, MeanRisk, RiskBudgeting
from skfolio.optimization import ObjectiveFunction as OF
from skfolio.prior import BlackLitterman

from checks import convex
from checks.c13_convex_risk import absv
from checks.c21_hierarchical import distance
from checks.common import REAL
from symx import core, cvx
from symx.harness import case

META = {
    "bounds": "3 assets in every order of their columns, dictionaries in another order with and without missing assets; every weight, cost, fee, previous weight, bound and return within the stated ranges (hierarchical optimizers: every variance)",
    "outside": "more assets; bounds of hierarchical equal risk contribution (see C22); names that are not strings; dictionaries with names that are no asset",
    "assumptions": [*convex.ASSUME, REAL],
}
NAMES = "bca"
ORDERS = list(itertools.permutations(range(3)))
R = [[2, -1, 1], [-3, 1, 0], [1, 1, -2]]
COV = [[4, -2, 1], [-2, 3, 0], [1, 0, 2]]


def named(S, prefix, lo, hi, missing=None):
    """Values per name in alphabetical (not column) order, without the missing one."""
    return {n: S.real(f"{prefix}_{n}", lo, hi) for n in sorted(NAMES) if n != missing}


def fr(S, a, b=1):
    """Constant that stays exact inside a dictionary of the symbolic run."""
    return core.lift(S.frac(a, b)) if S.symbolic else S.frac(a, b)


def full(d, fill=0):
    return [d.get(n, fill) for n in NAMES]


def permuted(rows, o):
    return [[r[i] for i in o] for r in rows]


for _missing in (None, "b", "c", "a"):
    for _what in ("weights", "previous_weights", "transaction_costs", "management_fees"):

        @case("C11", f"portfolio, {_what} by name" + (f" without {_missing}" if _missing else ""), points=2)
        def _(S, missing=_missing, what=_what):
            X = [[S.real(f"x{t}{i}", -1, 1) for i in range(3)] for t in range(2)]
            given = named(S, "p", S.frac(1, 100), 1, missing)
            base = dict(weights=[S.frac(1, 2), S.frac(1, 4), S.frac(1, 4)], previous_weights=[S.frac(1, 8), S.frac(3, 8), S.frac(1, 2)], transaction_costs=[S.frac(1, 10), S.frac(1, 5), S.frac(1, 20)], management_fees=[S.frac(1, 50), S.frac(1, 25), S.frac(1, 100)])
            spec = {**base, what: full(given)}
            w, p, tc, mf = (spec[k] for k in ("weights", "previous_weights", "transaction_costs", "management_fees"))
            cost = S.sum(tc[i] * absv(S, w[i] - p[i]) for i in range(3))
            fee = S.sum(mf[i] * w[i] for i in range(3))
            for o in ORDERS[:: 2 if missing else 1]:
                kw = {k: S.array([v[i] for i in o]) for k, v in base.items()}
                ptf = Portfolio(X=S.frame(permuted(X, o), columns=[NAMES[i] for i in o]), **{**kw, what: given})
                for t in range(2):
                    S.eq(f"return {t} {o}", ptf.returns[t], S.sum(X[t][i] * w[i] for i in range(3)) - cost - fee)
                for j, i in enumerate(o):
                    S.eq(f"weight {j} {o}", ptf.weights[j], w[i])


def mu_(S):
    return [S.frac(3, 10), S.frac(1, 5), S.frac(2, 5)]


def problem(S, kw, D, V, o, sense=-1):
    w = S.reals("w", 3, -3, 3)
    perm = lambda v: [v[i] for i in o]  # noqa: E731
    prior = convex.prior(S, permuted(R, o), mu=perm(mu_(S)), covariance=[[COV[i][j] for j in o] for i in o], key=f"c11{o}")
    free = dict(min_weights=None, max_weights=None, budget=None, prior_estimator=prior, objective_function=OF.MAXIMIZE_RETURN)
    convex.decide(S, lambda **k: MeanRisk(**{**free, **kw, **k}), S.frame(permuted(R, o), columns=[NAMES[i] for i in o]), perm(w), D(w), V(w), sense=sense, tag=f"{o} ")


def gain(S, w):
    return S.sum(a * b for a, b in zip(mu_(S), w, strict=True))


for _o in ORDERS:
    for _missing in (None, "c"):
        _t = f", columns {''.join(NAMES[i] for i in _o)}" + (f" without {_missing}" if _missing else "")

        @case("C11", f"bounds{_t}", extra=cvx.extra, points=1, budget_ms=40000)
        def _(S, o=_o, missing=_missing):
            lo, hi = named(S, "lo", -2, 0, missing), named(S, "hi", 1, 2, missing)
            L, H = full(lo), full(hi, 1)
            problem(S, dict(min_weights=lo, max_weights=hi), lambda w: [(f"lower bound {i}", "le", L[i] - w[i]) for i in range(3)] + [(f"upper bound {i}", "le", w[i] - H[i]) for i in range(3)], lambda w: gain(S, w), o)

        @case("C11", f"costs and fees{_t}", extra=cvx.extra, points=1, budget_ms=40000)
        def _(S, o=_o, missing=_missing):
            q = lambda a, b: dict(zip(sorted(NAMES), [fr(S, x, b) for x in a], strict=True))  # noqa: E731
            tc, pw, fee = q((5, 2, 3), 100), q((1, -2, 3), 8), q((1, 4, 2), 100)
            for d, n in ((tc, missing), (pw, "a" if missing else None), (fee, "b" if missing else None)):
                d.pop(n, None)
            T, P, F = full(tc), full(pw), full(fee)
            problem(S, dict(transaction_costs=tc, previous_weights=pw, management_fees=fee), lambda w: [], lambda w: gain(S, w) - S.sum(T[i] * absv(S, w[i] - P[i]) + F[i] * w[i] for i in range(3)), o)

        @case("C11", f"turnover{_t}", extra=cvx.extra, points=1, budget_ms=40000)
        def _(S, o=_o, missing=_missing):
            pw = named(S, "pw", -1, 1, missing)
            P = full(pw)
            problem(S, dict(previous_weights=pw, max_turnover=S.frac(1, 4)), lambda w: [(f"turnover {i}", "le", absv(S, w[i] - P[i]) - S.frac(1, 4)) for i in range(3)], lambda w: gain(S, w), o)

        @case("C11", f"groups{_t}", extra=cvx.extra, points=1, budget_ms=40000)
        def _(S, o=_o, missing=_missing):
            groups = {"a": ["x", "u"], "b": ["y", "u"], "c": ["x", "v"]}
            if missing:
                groups["c"] = ["x"]
            x = [i for i in range(3) if NAMES[i] in "ac"]
            u = [i for i in range(3) if NAMES[i] in "ab"]
            D = lambda w: [("x", "le", S.sum(w[i] for i in x) - S.frac(1, 2)), ("u", "le", S.frac(1, 4) - S.sum(w[i] for i in u)), ("c", "le", w[NAMES.index("c")] - S.frac(3, 4))]  # noqa: E731
            problem(S, dict(groups=groups, linear_constraints=["x <= 0.5", "u >= 0.25", "c <= 0.75"]), D, lambda w: gain(S, w), o)


for _cls in (HierarchicalRiskParity,):
    for _o in ORDERS[1:5:3]:

        @case("C11", f"{_cls.__name__}, columns {''.join(NAMES[i] for i in _o)}", points=2, max_paths=400, time_limit=200)
        def _(S, cls=_cls, o=_o):
            v = [S.real(f"v{i}", S.frac(1, 2), 4) for i in range(3)]
            cov = [[v[o[i]] if i == j else 0 for j in range(3)] for i in range(3)]
            prior = convex.prior(S, [[0] * 3] * 2, mu=[0] * 3, covariance=cov, key=f"c11h{o}{cls.__name__}")
            X = S.frame([[0.0, 0.1, 0.2], [0.1, 0.0, 0.1], [0.3, 0.2, 0.0]], columns=[NAMES[i] for i in o])
            lo, hi = {"c": fr(S, 1, 5), "a": fr(S, 1, 10)}, {"b": fr(S, 1, 2), "a": fr(S, 9, 20)}
            row = lambda d, fill: S.array([d.get(NAMES[i], S.frac(fill)) for i in o])  # noqa: E731
            a = cls(prior_estimator=prior, distance_estimator=distance(3), min_weights=lo, max_weights=hi).fit(X).weights_
            b = cls(prior_estimator=prior, distance_estimator=distance(3), min_weights=row(lo, 0), max_weights=row(hi, 1)).fit(X).weights_
            for j in range(3):
                S.eq(f"weight {j}", a[j], b[j])
                S.le(f"lower bound {j}", row(lo, 0)[j], a[j] + S.frac(1, 10**9))
                S.le(f"upper bound {j}", a[j], row(hi, 1)[j] + S.frac(1, 10**9))


@case("C11", "hierarchical costs", points=2, max_paths=400)
def _(S):
    m = {n: S.real(f"fee_{n}", 0, S.frac(1, 10)) for n in "ab"}
    ret = [[0, 1, 2], [1, -1, 0], [2, 0, 1]]
    X = S.frame([[0.0, 0.1, 0.2], [0.1, 0.0, 0.1], [0.3, 0.2, 0.0]], columns=list(NAMES))
    prior = convex.prior(S, ret, mu=[1] * 3, covariance=COV, key="c11c")
    kw = dict(prior_estimator=prior, distance_estimator=distance(3), risk_measure=RM.WORST_REALIZATION)
    a = HierarchicalRiskParity(management_fees=m, **kw)
    b = HierarchicalRiskParity(management_fees=S.array([m.get(n, S.frac(0)) for n in NAMES]), **kw)
    (_, ea), (_, eb) = S.attempt(lambda: a.fit(X)), S.attempt(lambda: b.fit(X))
    S.true("same outcome", ea == eb)
    if ea is None:
        for j in range(3):
            S.eq(f"weight {j}", a.weights_[j], b.weights_[j])


for _o in ORDERS:

    @case("C11", f"inverse volatility, columns {''.join(NAMES[i] for i in _o)}", points=2)
    def _(S, o=_o):
        s = [S.real(f"s{i}", S.frac(1, 4), 4) for i in range(3)]
        cov = [[s[o[i]] ** 2 if i == j else 0 for j in range(3)] for i in range(3)]
        prior = convex.prior(S, [[0] * 3] * 2, mu=[0] * 3, covariance=cov, key=f"c11i{o}")
        w = InverseVolatility(prior_estimator=prior).fit(S.frame([[0.0] * 3] * 2, columns=[NAMES[i] for i in o])).weights_
        t = S.sum(1 / x for x in s)
        for j, i in enumerate(o):
            S.eq(f"weight {j}", w[j] * t, 1 / s[i])

    @case("C11", f"views on groups, columns {''.join(NAMES[i] for i in _o)}", points=2)
    def _(S, o=_o):
        mu = [S.real(f"mu{i}", -1, 1) for i in range(3)]
        perm = lambda v: [v[i] for i in o]  # noqa: E731
        X = S.frame(permuted(R, o), columns=[NAMES[i] for i in o])
        out = []
        groups = {"b": ["y"], "c": ["x"], "a": ["x"]}
        for g, order in ((groups, o), ([[NAMES[i] for i in range(3)], ["y", "x", "x"]], (0, 1, 2))):
            perm = lambda v, order=order: [v[i] for i in order]  # noqa: E731
            prior = convex.prior(S, permuted(R, order), mu=perm(mu), covariance=[[COV[i][j] for j in order] for i in order], key=f"c11b{order}{len(g)}{o}")
            X = S.frame(permuted(R, order), columns=[NAMES[i] for i in order])
            m = BlackLitterman(views=["x - y == 0.25", "a == 0.125"], groups=g, prior_estimator=prior).fit(X).prior_model_
            out.append({NAMES[i]: m.mu[j] for j, i in enumerate(order)})
        for n in NAMES:
            S.eq(f"mu {n}", out[0][n], out[1][n])


@case("C11", "names needed", points=1)
def _(S):
    X = np.array([[0.1, 0.2, 0.0], [0.0, -0.1, 0.1], [0.05, 0.0, 0.2]])
    d = {"a": 0.1}
    for kw in (dict(min_weights=d), dict(max_weights=d), dict(transaction_costs=d), dict(management_fees=d), dict(transaction_costs=0.1, previous_weights=d), dict(groups={"a": ["x"]}, linear_constraints=["x <= 1"])):
        S.true(f"optimizer {sorted(kw)}", S.attempt(lambda kw=kw: MeanRisk(**kw).fit(X))[1] == "ValueError")
    S.true("budget", S.attempt(lambda: RiskBudgeting(risk_budget=d).fit(X))[1] == "ValueError")
    for kw in (dict(weights=d), dict(weights=[1.0, 0.0, 0.0], previous_weights=d), dict(weights=[1.0, 0.0, 0.0], transaction_costs=d), dict(weights=[1.0, 0.0, 0.0], management_fees=d)):
        S.true(f"portfolio {sorted(kw)}", S.attempt(lambda kw=kw: Portfolio(X=X, **kw))[1] == "ValueError")
    S.eq("checked", S.real("z", 0, 1) * 0, 0)
