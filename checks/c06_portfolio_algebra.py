"""C06: portfolio arithmetic, copies, serialisation and risk contributions."""

import copy
import pickle

import skfolio.measures as sm
from skfolio import ExtraRiskMeasure, PerfMeasure, Portfolio, RiskMeasure

from checks.common import REAL, mean
from symx import core
from symx.harness import case

META = {
    "bounds": "2..3 assets, 3..4 observations; every real weight, scalar, previous weight, cost, fee, risk-free rate, target and finite-difference step",
    "outside": "more assets/observations; EVaR/EDaR contributions (numeric minimiser)",
    "assumptions": [REAL],
}
NAMES = ["aaa", "bb", "c"]
ARGS = ["risk_free_rate", "annualized_factor", "compounded", "min_acceptable_return", "value_at_risk_beta",
        "entropic_risk_measure_theta", "entropic_risk_measure_beta", "cvar_beta", "evar_beta",
        "drawdown_at_risk_beta", "cdar_beta", "edar_beta"]


def rets(S, T, n):
    v = [[3, -2, 5], [-7, 4, 1], [2, 6, -3], [-1, -5, 8]]
    return S.array([[S.frac(v[t][i], 100) for i in range(n)] for t in range(T)])


def settings(S):
    return dict(
        risk_free_rate=S.real("rf", 0, 1), annualized_factor=S.real("af", 1, 400), compounded=True,
        min_acceptable_return=S.real("mar", -1, 1), value_at_risk_beta=S.frac(1, 4), entropic_risk_measure_theta=S.real("th", 1, 2),
        entropic_risk_measure_beta=S.frac(1, 3), cvar_beta=S.frac(1, 5), evar_beta=S.frac(2, 5), drawdown_at_risk_beta=S.frac(3, 5),
        cdar_beta=S.frac(2, 3), edar_beta=S.frac(4, 5),
    )


def make(S, n, weights, df=True, **k):
    X = rets(S, 3, n)
    if df:
        X = S.frame(X, columns=NAMES[:n])
    return Portfolio(X=X, weights=weights, **k)


def check_result(S, tag, p, w, base, S_set, n, prev, cost, fee):
    R = rets(S, 3, n)
    S.eq(f"{tag} weights", p.weights, S.array(list(w)))
    c = S.sum(cost[i] * abs(prev[i] - w[i]) for i in range(n))
    f = S.sum(fee[i] * w[i] for i in range(n))
    S.eq(f"{tag} returns", p.returns, S.array([S.sum(w[i] * R[t, i] for i in range(n)) - c - f for t in range(3)]))
    for a in ARGS:
        S.eq(f"{tag} keeps {a}", getattr(p, a), S_set[a])
    S.eq(f"{tag} keeps previous weights", p.previous_weights, prev)
    S.eq(f"{tag} keeps costs", p.transaction_costs, cost)
    S.eq(f"{tag} keeps fees", p.management_fees, fee)
    S.true(f"{tag} keeps assets", list(p.assets) == NAMES[:n])
    S.true(f"{tag} keeps fitness measures", p.fitness_measures == [RiskMeasure.CDAR])
    S.true(f"{tag} keeps name and tag", p.name == "nm" and p.tag == "tg")


OPS = {
    "neg": (lambda p, k: -p, lambda S, w, k: -w),
    "abs": (lambda p, k: abs(p), lambda S, w, k: abs(w)),
    "mul": (lambda p, k: p * k, lambda S, w, k: w * k),
    "rmul": (lambda p, k: k * p, lambda S, w, k: w * k),
    "truediv": (lambda p, k: p / k, lambda S, w, k: w / k),
    "mul int": (lambda p, k: p * 3, lambda S, w, k: w * 3),
    "copy": (lambda p, k: copy.copy(p), lambda S, w, k: w),
}

for op, (code, spec) in OPS.items():

    @case("C06", f"operation {op}", max_paths=2000)
    def _(S, op=op, code=code, spec=spec):
        n = 2
        w = S.reals("w", n, -2, 2)
        k = S.real("k", S.frac(1, 8), 3) if op == "truediv" else S.real("k", -3, 3)
        prev, cost, fee = S.reals("p", n, -1, 1), S.reals("c", n, 0, 1), S.reals("f", n, 0, 1)
        st = settings(S)
        p = make(S, n, w, previous_weights=prev, transaction_costs=cost, management_fees=fee,
                 fitness_measures=[RiskMeasure.CDAR], name="nm", tag="tg", **st)
        q = code(p, k)
        check_result(S, op, q, [spec(S, x, k) for x in w], p, st, n, prev, cost, fee)
        S.true("class", type(q) is Portfolio)
        S.eq("operand unchanged", p.weights, w)


@case("C06", "operation round", max_paths=4000)
def _(S):
    w = S.reals("w", 2, -1, 1)
    p = make(S, 2, w)
    for d in (0, 2):
        q = round(p, d)
        for i in range(2):
            s = 10**d
            S.le(f"within half a unit {d} {i}", abs(q.weights[i] - w[i]) * s, S.frac(1, 2))
            if S.symbolic:
                import z3

                t = core.lift(q.weights[i] * s)
                S.true(f"is a multiple {d} {i}", core.SymBool(z3.IsInt(t.n)) if t.d is None else False)
            else:
                v = q.weights[i] * s
                S.true(f"is a multiple {d} {i}", abs(v - round(v)) < 1e-9)


@case("C06", "operation floordiv", max_paths=4000)
def _(S):
    w = S.reals("w", 2, -2, 2)
    for k in (1, 3, -2):
        q = make(S, 2, w) // k
        for i in range(2):
            # floor(w/k) <= w/k < floor(w/k) + 1
            v = w[i] * S.frac(1, k)
            S.le(f"below {k} {i}", q.weights[i], v)
            if S.symbolic:
                S.true(f"above {k} {i}", v < q.weights[i] + 1)


for sub in (False, True):

    @case("C06", f"operation {'sub' if sub else 'add'}", max_paths=3000)
    def _(S, sub=sub):
        n = 2
        w, v = S.reals("w", n, -2, 2), S.reals("v", n, -2, 2)
        prev, cost, fee = S.reals("p", n, -1, 1), S.reals("c", n, 0, 1), S.reals("f", n, 0, 1)
        st = settings(S)
        kw = dict(previous_weights=prev, transaction_costs=cost, management_fees=fee,
                  fitness_measures=[RiskMeasure.CDAR], name="nm", tag="tg")
        X = S.frame(rets(S, 3, n), columns=NAMES[:n])
        p = Portfolio(X=X, weights=w, **kw, **st)
        q = Portfolio(X=X, weights=v, **{**kw, "name": "other"}, **st)
        r = p - q if sub else p + q
        check_result(S, "sub" if sub else "add", r, [a - b if sub else a + b for a, b in zip(w, v)], p, st, n, prev, cost, fee)

    for arg in ("risk_free_rate", "cvar_beta", "min_acceptable_return", "previous_weights", "transaction_costs", "annualized_factor", "X", "management_fees"):

        @case("C06", f"{'sub' if sub else 'add'} requires equal {arg}", max_paths=3000)
        def _(S, sub=sub, arg=arg):
            n = 2
            w, v = S.reals("w", n, -2, 2), S.reals("v", n, -2, 2)
            R = rets(S, 3, n)
            R2 = R.copy()
            if arg in ("previous_weights", "transaction_costs", "management_fees"):
                a, b = S.array([S.frac(1, 10), S.real("a", 0, 1)]), S.array([S.frac(1, 10), S.real("b", 0, 1)])
                same = a[1] == b[1]
            elif arg == "X":
                R2[1, 1] = S.real("a", 0, 1)
                same = R2[1, 1] == R[1, 1]
            else:
                a, b = S.real("a", S.frac(1, 10), 1), S.real("b", S.frac(1, 10), 1)
                same = a == b
            if arg == "X":
                p, q = Portfolio(X=R, weights=w), Portfolio(X=R2, weights=v)
            else:
                p, q = Portfolio(X=R, weights=w, **{arg: a}), Portfolio(X=R, weights=v, **{arg: b})
            r, e = S.attempt(lambda: p - q if sub else p + q)
            if e is None:
                S.true("only with equal settings", same)
                S.eq("weights", r.weights, S.array([x - y if sub else x + y for x, y in zip(w, v)]))
            else:
                S.true("refused only when different", S.ite(same, False, True))
                S.true("a ValueError", e == "ValueError")


@case("C06", "serialisation")
def _(S):
    n = 2
    w = S.reals("w", n, -2, 2)
    prev, cost, fee = S.reals("p", n, -1, 1), S.reals("c", n, 0, 1), S.reals("f", n, 0, 1)
    st = settings(S)
    p = make(S, n, w, previous_weights=prev, transaction_costs=cost, management_fees=fee,
             fitness_measures=[RiskMeasure.CDAR], name="nm", tag="tg", **st)
    if S.symbolic:
        f, a = p.__reduce__()[:2]
        q = f(*a)
    else:
        q = pickle.loads(pickle.dumps(p))
    check_result(S, "unpickled", q, w, p, st, n, prev, cost, fee)


def spec_measure(S, name, r, st):
    key = {"cvar": {"beta": "cvar_beta"}, "value_at_risk": {"beta": "value_at_risk_beta"},
           "cdar": {"beta": "cdar_beta"}, "drawdown_at_risk": {"beta": "drawdown_at_risk_beta"}}.get(name, {})
    kw = {a: st[b] for a, b in key.items()}
    if name in ("semi_variance", "mean_absolute_deviation", "first_lower_partial_moment"):
        kw["min_acceptable_return"] = st["min_acceptable_return"]
    f = getattr(sm, name)
    if name in ("max_drawdown", "average_drawdown", "cdar", "ulcer_index", "drawdown_at_risk"):
        return f(sm.get_drawdowns(r, compounded=st["compounded"]), **kw)
    return f(r, **kw)


MEAS = [PerfMeasure.MEAN, RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION, RiskMeasure.MEAN_ABSOLUTE_DEVIATION, RiskMeasure.SEMI_VARIANCE,
        RiskMeasure.CVAR, ExtraRiskMeasure.VALUE_AT_RISK, RiskMeasure.CDAR, RiskMeasure.MAX_DRAWDOWN, RiskMeasure.WORST_REALIZATION,
        RiskMeasure.FIRST_LOWER_PARTIAL_MOMENT, RiskMeasure.ULCER_INDEX, RiskMeasure.AVERAGE_DRAWDOWN]
for m in MEAS:

    @case("C06", f"contribution to {m.value}", weight=2, budget_ms=8000, sort="fork", max_paths=2500, tol=1e-5, time_limit=100)
    def _(S, m=m):
        n, T = 3, 3
        R = rets(S, T, n)
        small = m.value in ("semi_variance", "mean_absolute_deviation", "first_lower_partial_moment", "cvar", "value_at_risk", "cdar",
                            "max_drawdown", "worst_realization", "ulcer_index", "average_drawdown")
        w = S.array([S.real("w0", 0 if small else -1, 1), S.frac(2, 5), 0])
        st = dict(settings(S), compounded=False)
        st["min_acceptable_return"] = S.frac(1, 100)
        # roots need the sign of every trade to be fixed for the terms to match
        prev = S.array([2 if m.value in ("ulcer_index", "standard_deviation") else S.frac(1, 2), S.frac(1, 10), S.frac(1, 5)])
        fee = S.array([S.real("f0", 0, S.frac(1, 100)), 0, S.frac(1, 100)])
        cost = S.array([S.frac(1, 100), S.frac(1, 50), S.frac(1, 20)])
        h = S.real("h", S.frac(1, 64), S.frac(1, 16))
        S.assume(w[0] >= S.frac(1, 8)) if small else S.assume(w[0] != 0)
        p = Portfolio(X=S.frame(R, columns=NAMES), weights=w, previous_weights=prev, transaction_costs=cost, management_fees=fee, **st)
        got = p.contribution(measure=m, spacing=h)

        def value(i, d):
            ww = [w[j] + (d if j == i else 0) for j in range(n)]
            f = S.sum(fee[j] * ww[j] + cost[j] * abs(prev[j] - ww[j]) for j in range(n))
            return spec_measure(S, m.value, S.array([S.sum(ww[j] * R[t, j] for j in range(n)) - f for t in range(T)]), st)

        exp = [(value(i, h) - value(i, -h)) / (2 * h) * w[i] for i in range(2)] + [0]
        S.eq("contribution", got, S.array(exp))
        S.eq("weights untouched", p.weights, w)


@case("C06", "default contribution of mean and variance", max_paths=200, budget_ms=10000)
def _(S):
    # central differences are exact for linear and quadratic functions, whatever the step
    n, T = 2, 3
    R = rets(S, T, n)
    w = S.reals("w", n, -1, 1)
    p = Portfolio(X=S.frame(R, columns=NAMES[:n]), weights=w)
    cm = p.contribution(measure=PerfMeasure.MEAN)
    S.eq("mean", cm, S.array([w[i] * mean(S, R[:, i]) for i in range(n)]))
    cv = p.contribution(measure=RiskMeasure.VARIANCE)
    mu = [mean(S, R[:, i]) for i in range(n)]
    cov = [[S.sum((R[t, i] - mu[i]) * (R[t, j] - mu[j]) for t in range(T)) * S.frac(1, T - 1) for j in range(n)] for i in range(n)]
    exp = [2 * w[i] * S.sum(cov[i][j] * w[j] for j in range(n)) for i in range(n)]
    S.eq("variance", cv, S.array(exp))
    df = p.contribution(measure=RiskMeasure.VARIANCE, to_df=True)
    names = list(df.index)
    for i in range(n):
        S.true(f"dropped iff zero {i}", (w[i] != 0) if NAMES[i] in names else (w[i] == 0))
        if NAMES[i] in names:
            S.eq(f"frame value {i}", df.loc[NAMES[i]].iloc[0], exp[i])
    col = df.iloc[:, 0].to_numpy()
    for a, b in zip(col, col[1:]):
        S.le("sorted in descending order", b, a)


for n in (1, 2):

    @case("C06", f"diversification n={n}", budget_ms=10000)
    def _(S, n=n):
        T = 3
        R = rets(S, T, n)
        w = S.reals("w", n, S.frac(1, 8), 1)
        p = Portfolio(X=R, weights=w)
        vol = sm.standard_deviation(S.array([S.sum(w[i] * R[t, i] for i in range(n)) for t in range(T)]))
        # the asset volatilities are normalised by T (known finding below)
        S.eq("diversification", p.diversification * vol,
             S.sum(w[i] * S.sqrt(sm.variance(R[:, i]) * S.frac(T - 1, T)) for i in range(n)))
        if n == 1:
            S.eq("a single asset has diversification one", p.diversification, 1)


@case("C06", "sric and effective number of assets", budget_ms=10000)
def _(S):
    n, T = 2, 3
    R = rets(S, T, n)
    w = S.reals("w", n, S.frac(1, 8), 1)
    rf = S.real("rf", 1, 2)
    p = Portfolio(X=R, weights=w, risk_free_rate=rf)
    r = S.array([S.sum(w[i] * R[t, i] for i in range(n)) for t in range(T)])
    sr = (mean(S, r) - rf) / sm.standard_deviation(r)
    S.eq("sric", p.sric, sr - n / (T * sr))
    S.eq("effective number", p.effective_number_assets, 1 / S.sum(x * x for x in w))
