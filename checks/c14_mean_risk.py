"""C14: the mean-risk optimizer solves the documented problem."""

import cvxpy as cp
import numpy as np
import z3
from skfolio import RiskMeasure as RM
from skfolio.optimization import MeanRisk
from skfolio.optimization import ObjectiveFunction as OF

from checks import convex
from checks.c13_convex_risk import absv, drawdowns, gini, mean_, series, tail
from symx import core, cvx
from symx.harness import case

META = {
    "bounds": "every real weight vector of 2 assets (one fixed scenario set of 3 observations, expected returns different from the sample means), each objective with each kind of term, each limit for every limit value or a fixed one; for the ratio, every weight vector with positive excess return and budget one",
    "outside": "more assets and observations; limits on entropic measures",
    "assumptions": convex.ASSUME,
}

R = [[2, -1], [-3, 1], [1, 1]]
# T - 1 = 4 keeps the square roots of sums of squares rational
RT = [[2, -1], [-3, 1], [1, 1], [0, 1], [-1, 0]]
YT = [1, -2, 0, 1, 0]
COV = [[4, -2], [-2, 2]]
N = 2


def mu_(S):
    return [S.frac(3, 10), S.frac(1, 5)]


def prior(S):
    return convex.prior(S, R, mu=mu_(S), covariance=COV, key="c14")


FREE = dict(min_weights=None, max_weights=None, budget=None)


def risk(S, rm, v, R=R):
    """Documented risk of the (homogeneous) weights, without costs."""
    g = series(S, R, v)
    m = S.sum(a * b for a, b in zip(mu_(S), v))
    if rm == RM.VARIANCE:
        return S.sum(v[i] * v[j] * COV[i][j] for i in range(N) for j in range(N))
    if rm == RM.SEMI_VARIANCE:
        return S.sum(S.max(m - x, 0) ** 2 for x in g) * S.frac(1, len(R) - 1)
    return {
        RM.MEAN_ABSOLUTE_DEVIATION: lambda: mean_(S, [absv(S, x - m) for x in g]),
        RM.FIRST_LOWER_PARTIAL_MOMENT: lambda: mean_(S, [S.max(m - x, 0) for x in g]),
        RM.WORST_REALIZATION: lambda: S.max([-x for x in g]),
        RM.CVAR: lambda: tail(S, [-x for x in g], S.frac(1, 2)),
        RM.MAX_DRAWDOWN: lambda: S.max(drawdowns(S, g)),
        RM.AVERAGE_DRAWDOWN: lambda: mean_(S, drawdowns(S, g)),
        RM.CDAR: lambda: tail(S, drawdowns(S, g), S.frac(1, 2)),
        RM.GINI_MEAN_DIFFERENCE: lambda: gini(S, g),
    }[rm]()


BETAS = {RM.CVAR: {"cvar_beta": 0.5}, RM.CDAR: {"cdar_beta": 0.5}}
LIN = [RM.MEAN_ABSOLUTE_DEVIATION, RM.FIRST_LOWER_PARTIAL_MOMENT, RM.WORST_REALIZATION, RM.CVAR, RM.MAX_DRAWDOWN, RM.AVERAGE_DRAWDOWN, RM.CDAR, RM.GINI_MEAN_DIFFERENCE]


def terms(S, names, v, f=1):
    """Arguments, return reduction and penalty of the named terms."""
    kw, cost, pen = {}, 0, 0
    tc, prev, fee = [S.frac(1, 50), S.frac(1, 20)], [S.frac(1, 4), S.frac(-1, 2)], [S.frac(1, 100), S.frac(3, 100)]
    if "costs" in names:
        kw.update(transaction_costs=S.array(tc), previous_weights=S.array(prev))
        cost = cost + S.sum(tc[i] * absv(S, v[i] - prev[i] * f) for i in range(N))
    if "scalar cost" in names:
        kw.update(transaction_costs=tc[0], previous_weights=S.array(prev))
        cost = cost + S.sum(tc[0] * absv(S, v[i] - prev[i] * f) for i in range(N))
    if "cost from nothing" in names:
        kw.update(transaction_costs=tc[0])
        cost = cost + S.sum(tc[0] * absv(S, v[i]) for i in range(N))
    if "fees" in names:
        kw.update(management_fees=S.array(fee))
        cost = cost + S.sum(fee[i] * v[i] for i in range(N))
    if "l1" in names:
        kw["l1_coef"] = S.frac(1, 10)
        pen = pen + S.frac(1, 10) * S.sum(absv(S, x) for x in v)
    if "l2" in names:
        kw["l2_coef"] = S.frac(1, 5)
        pen = pen + S.frac(1, 5) * S.sum(x * x for x in v)
    if "added" in names:
        c = [S.frac(1, 3), S.frac(-1, 7)]
        kw["add_objective"] = (lambda w: S.array(c) @ w) if S.symbolic else (lambda w: np.array(c) @ w)
        pen = pen + S.sum(a * b for a, b in zip(c, v))  # sign fixed by the caller
    return kw, cost, pen


OWN = [(1, 2), (-1, 4)]
MIX = [(), ("costs", "fees"), ("l1",), ("l2",), ("costs", "fees", "l1", "l2"), ("scalar cost",), ("cost from nothing",), ("added",)]
for obj in (OF.MINIMIZE_RISK, OF.MAXIMIZE_RETURN, OF.MAXIMIZE_UTILITY):
    for mix in MIX:

        @case("C14", f"{obj.name.lower()} {' '.join(mix) or 'plain'}", extra=cvx.extra, points=1, budget_ms=40000)
        def _(S, obj=obj, mix=mix):
            w = S.reals("w", N, -2, 2)
            kw, cost, pen = terms(S, mix, w)
            if obj != OF.MINIMIZE_RISK:
                kw["risk_aversion"] = S.frac(3, 2)
            rm = RM.MEAN_ABSOLUTE_DEVIATION
            rk = risk(S, rm, w)
            ret = S.sum(a * b for a, b in zip(mu_(S), w)) - cost
            sign = -1 if "added" in mix and obj != OF.MINIMIZE_RISK else 1
            V = {OF.MINIMIZE_RISK: rk + pen, OF.MAXIMIZE_RETURN: ret - sign * pen, OF.MAXIMIZE_UTILITY: ret - S.frac(3, 2) * rk - sign * pen}[obj]
            pr = prior(S)
            make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=obj, risk_measure=rm, **{**FREE, **kw, **k})  # noqa: E731
            convex.decide(S, make, np.zeros((3, N)), w, [], V, sense=1 if obj == OF.MINIMIZE_RISK else -1)
            if S.symbolic:
                return
            est = make(add_constraints=convex.pin(S, w))
            est.fit(np.zeros((3, N)))
            S.le("reported expected return", abs(float(est.problem_values_["expected_return"]) - float(ret)), 1e-5)


@case("C14", "reported expected return and risk", extra=cvx.extra, points=1)
def _(S):
    w = S.reals("w", N, -2, 2)
    kw, cost, _ = terms(S, ("costs", "fees"), w)
    ret = S.sum(a * b for a, b in zip(mu_(S), w)) - cost
    pr = prior(S)
    make = lambda **k: MeanRisk(prior_estimator=pr, risk_measure=RM.MEAN_ABSOLUTE_DEVIATION, **{**FREE, **kw, **k})  # noqa: E731
    if not S.symbolic:
        return convex.decide(S, make, np.zeros((3, N)), w, [], risk(S, RM.MEAN_ABSOLUTE_DEVIATION, w), value=lambda e: e.problem_values_["risk"])
    est, rec = convex.decide(S, make, np.zeros((3, N)), w, [], risk(S, RM.MEAN_ABSOLUTE_DEVIATION, w), value=lambda e: e.problem_values_["risk"])
    feas = core.SymBool(rec.feasible())
    S.eq("expected return", core.ite(feas, est.problem_values_["expected_return"], ret), ret)


@case("C14", "own expected return", extra=cvx.extra, points=1)
def _(S):
    w = S.reals("w", N, -2, 2)
    own = [S.frac(*x) for x in OWN]
    kw, cost, pen = terms(S, ("costs", "fees", "l1"), w)
    pr = prior(S)
    f = lambda v: S.array(own) @ v  # noqa: E731
    make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=OF.MAXIMIZE_UTILITY, risk_measure=RM.WORST_REALIZATION, risk_aversion=S.frac(2), overwrite_expected_return=f, **{**FREE, **kw, **k})  # noqa: E731
    net = [x - cost for x in series(S, R, w)]
    V = S.sum(a * b for a, b in zip(own, w)) - cost - 2 * S.max([-x for x in net]) - pen
    convex.decide(S, make, np.zeros((3, N)), w, [], V, sense=-1)


# ----------------------------------------------------------------- limits
def limit_case(rm, ratio):
    squared = rm in (RM.VARIANCE, RM.SEMI_VARIANCE)

    @case("C14", f"{'maximum ratio' if ratio else 'maximum return'}, limit on {rm.value}", extra=cvx.extra, points=1, tol=1e-4, budget_ms=40000, fork_max=rm == RM.CDAR)
    def _(S):
        # T - 1 = 4 keeps the root of the semi-variance rational
        pr, rows = (convex.prior(S, RT, mu=mu_(S), covariance=COV, key="te"), RT) if rm == RM.SEMI_VARIANCE and ratio else (prior(S), R)
        kw = BETAS.get(rm, {})
        if not ratio:
            w = S.reals("w", N, -2, 2)
            L = S.real("limit", 0, 3)
            make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=OF.MAXIMIZE_RETURN, **{f"max_{rm.value}": L}, **{**FREE, **kw, **k})  # noqa: E731
            D = [("risk at most the limit", "le", risk(S, rm, w) - L)]
            return convex.decide(S, make, np.zeros((3, N)), w, D, S.sum(a * b for a, b in zip(mu_(S), w)), sense=-1)
        L = S.frac(9, 16) if squared else S.frac(2) if rm == RM.GINI_MEAN_DIFFERENCE else S.frac(1, 2)
        make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=OF.MAXIMIZE_RATIO, risk_measure=RM.WORST_REALIZATION, **{f"max_{rm.value}": L}, **{**FREE, "budget": S.frac(1), **kw, **k})  # noqa: E731
        D = lambda v, f: [("risk at most the limit", "le", risk(S, rm, v, rows) - L * (f * f if squared else f))]  # noqa: E731
        convex.decide_ratio(S, make, np.zeros((len(rows), N)), N, mu_(S), D)


for rm in [*LIN, RM.VARIANCE, RM.SEMI_VARIANCE]:
    limit_case(rm, False)
    limit_case(rm, True)


@case("C14", "maximum return, limits on standard deviation", extra=cvx.extra, points=1, budget_ms=40000)
def _(S):
    w = S.reals("w", N, -2, 2)
    L = S.real("limit", 0, 3)
    pr = prior(S)
    make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=OF.MAXIMIZE_RETURN, max_standard_deviation=L, **{**FREE, **k})  # noqa: E731
    convex.decide(S, make, np.zeros((3, N)), w, [("risk at most the limit", "le", risk(S, RM.VARIANCE, w) - L * L)], S.sum(a * b for a, b in zip(mu_(S), w)), sense=-1)


@case("C14", "maximum ratio, limit on standard deviation", extra=cvx.extra, points=1, budget_ms=40000, tol=1e-4)
def _(S):
    L = S.frac(3, 4)
    pr = prior(S)
    make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=OF.MAXIMIZE_RATIO, risk_measure=RM.WORST_REALIZATION, max_standard_deviation=L, **{**FREE, "budget": S.frac(1), **k})  # noqa: E731
    convex.decide_ratio(S, make, np.zeros((3, N)), N, mu_(S), lambda v, f: [("risk at most the limit", "le", risk(S, RM.VARIANCE, v) - L * L * f * f)])


@case("C14", "several limits and a minimum return", extra=cvx.extra, points=1, budget_ms=40000)
def _(S):
    w = S.reals("w", N, -2, 2)
    a, b, r = S.real("cvar limit", 0, 3), S.real("mdd limit", 0, 3), S.real("min return", -1, 1)
    kw, cost, _ = terms(S, ("costs", "fees"), w)
    pr = prior(S)
    make = lambda **k: MeanRisk(prior_estimator=pr, risk_measure=RM.MEAN_ABSOLUTE_DEVIATION, cvar_beta=0.5, max_cvar=a, max_max_drawdown=b, min_return=r, **{**FREE, **kw, **k})  # noqa: E731
    net = [x - cost for x in series(S, R, w)]
    D = [
        ("tail", "le", tail(S, [-x for x in net], S.frac(1, 2)) - a),
        ("drawdown", "le", S.max(drawdowns(S, net)) - b),
        ("return", "le", r - S.sum(x * y for x, y in zip(mu_(S), w)) + cost),
    ]
    convex.decide(S, make, np.zeros((3, N)), w, D, risk(S, RM.MEAN_ABSOLUTE_DEVIATION, w))


@case("C14", "drawdown limits share their drawdowns", extra=cvx.extra, points=1, budget_ms=40000)
def _(S):
    w = S.reals("w", N, -2, 2)
    a, b = S.real("average limit", 0, 3), S.real("max limit", 0, 3)
    pr = prior(S)
    make = lambda **k: MeanRisk(prior_estimator=pr, risk_measure=RM.CDAR, cdar_beta=0.5, max_average_drawdown=a, max_max_drawdown=b, **{**FREE, **k})  # noqa: E731
    d = drawdowns(S, series(S, R, w))
    D = [("average", "le", mean_(S, d) - a), ("largest", "le", S.max(d) - b)]
    convex.decide(S, make, np.zeros((3, N)), w, D, tail(S, d, S.frac(1, 2)))


@case("C14", "maximum ratio, minimum return with costs", extra=cvx.extra, points=1, tol=1e-4)
def _(S):
    r, rf = S.frac(1, 10), S.frac(1, 20)
    kw = terms(S, ("costs", "fees"), [0, 0])[0]
    pr = prior(S)
    cost = lambda v, f: terms(S, ("costs", "fees"), v, f)[1]  # noqa: E731
    make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=OF.MAXIMIZE_RATIO, risk_measure=RM.WORST_REALIZATION, risk_free_rate=rf, min_return=r, **{**FREE, "budget": S.frac(1), **kw, **k})  # noqa: E731
    D = lambda v, f: [("return", "le", r * f - S.sum(x * y for x, y in zip(mu_(S), v)) + cost(v, f))]  # noqa: E731
    V = lambda v, f: S.max([-(x - cost(v, f)) for x in series(S, R, v)])  # noqa: E731
    convex.decide_ratio(S, make, np.zeros((3, N)), N, mu_(S), D, V, rf=rf, cost=cost)


for rm in LIN:

    @case("C14", f"maximum ratio of {rm.value}", extra=cvx.extra, points=1, tol=1e-4, budget_ms=40000)
    def _(S, rm=rm):
        pr = prior(S)
        rf = S.frac(1, 20)
        make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=OF.MAXIMIZE_RATIO, risk_measure=rm, risk_free_rate=rf, **{**FREE, "budget": S.frac(1), **BETAS.get(rm, {}), **k})  # noqa: E731
        convex.decide_ratio(S, make, np.zeros((3, N)), N, mu_(S), lambda v, f: [], lambda v, f: risk(S, rm, v), rf=rf)


@case("C14", "maximum ratio never returns a negative excess return", extra=cvx.extra, points=1)
def _(S):
    # no bounds on the weights: nothing else fixes the sign
    pr = convex.prior(S, R, mu=[S.frac(-3, 10), S.frac(-1, 5)], covariance=COV, key="neg")
    make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=OF.MAXIMIZE_RATIO, risk_measure=RM.STANDARD_DEVIATION, **{**FREE, "budget": S.frac(1), **k})  # noqa: E731
    if S.symbolic:
        cvx.reset()
        est = make()
        est.fit(np.zeros((3, N)))
        feas = core.SymBool(cvx.RECORDS[-1].feasible())
        S.true("excess return", core.implies(feas, est.problem_values_["expected_return"] >= 0))
        return
    try:
        est = make().fit(np.zeros((3, N)))
    except cp.SolverError:
        return
    S.true("excess return", float(est.problem_values_["expected_return"]) >= -1e-6)


# ----------------------------------------------------------------- tracking error
for ratio in (False, True):

    @case("C14", f"{'maximum ratio' if ratio else 'minimum risk'}, tracking error limit", extra=cvx.extra, points=1, tol=1e-4, budget_ms=40000)
    def _(S, ratio=ratio):
        pr = convex.prior(S, RT, mu=mu_(S), covariance=COV, key="te")
        X, y = np.zeros((5, N)), np.array(YT, dtype=float)
        dev = lambda v, f: S.sum((g - f * t) ** 2 for g, t in zip(series(S, RT, v), YT)) * S.frac(1, 4)  # noqa: E731
        if not ratio:
            w = S.reals("w", N, -2, 2)
            L = S.real("limit", 0, 3)
            make = lambda **k: MeanRisk(prior_estimator=pr, risk_measure=RM.WORST_REALIZATION, max_tracking_error=L, **{**FREE, **k})  # noqa: E731
            return convex.decide(S, make, X, w, [("tracking error", "le", dev(w, 1) - L * L)], y=y)
        L = S.frac(6, 5)
        make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=OF.MAXIMIZE_RATIO, risk_measure=RM.WORST_REALIZATION, max_tracking_error=L, **{**FREE, "budget": S.frac(1), **k})  # noqa: E731
        convex.decide_ratio(S, make, X, N, mu_(S), lambda v, f: [("tracking error", "le", dev(v, f) - L * L * f * f)], y=y)


# ----------------------------------------------------------------- several targets
@case("C14", "one problem for each minimum return", extra=cvx.extra, points=1)
def _(S):
    rs = [S.real(f"r{i}", -1, 1) for i in range(3)]
    w = S.reals("w", N, -2, 2)
    pr = prior(S)
    make = lambda **k: MeanRisk(prior_estimator=pr, risk_measure=RM.WORST_REALIZATION, min_return=S.array(rs), **{**FREE, **k})  # noqa: E731
    ret = S.sum(a * b for a, b in zip(mu_(S), w))
    if not S.symbolic:
        S.assume(all(ret >= r + 1e-4 for r in rs) or all(abs(ret - r) > 1e-3 for r in rs))
        est = make(add_constraints=convex.pin(S, w))
        ok = all(ret >= r for r in rs)
        try:
            est.fit(np.zeros((3, N)))
            S.true("feasible only if every target is met", ok)
            S.eq("one portfolio per target", est.weights_.shape, (3, N))
        except cp.SolverError:
            S.true("infeasible only if a target is not met", not ok)
        return
    cvx.reset()
    est = make(add_constraints=convex.pin(S, w))
    est.fit(np.zeros((3, N)))
    S.eq("one portfolio per target", (len(cvx.RECORDS), est.weights_.shape), (3, (3, N)))
    for i, rec in enumerate(cvx.RECORDS):
        feas = core.SymBool(rec.feasible())
        S.le(f"target {i} respected", core.ite(feas, rs[i] - ret, 0), 0)
        for j, f in enumerate(cvx.attained(rec, ret >= rs[i])):
            S.true(f"target {i} not too strict ({j})", f)


def targets(S, low, high, k):
    """Evenly spaced minimum returns, from just above the least risky portfolio to the highest return."""
    low = S.min(S.max(low, S.frac(1, 10**10)) * S.frac(101, 100), high)
    return [low + (high - low) * S.frac(i, k - 1) for i in range(k)]


for k_, shift in ((2, 0), (3, 0), (4, 0), (3, -1), (3, 20)):

    @case("C14", f"efficient frontier of {k_} portfolios, returns shifted by {shift}", extra=cvx.extra, points=1, nowitness=True)
    def _(S, k=k_, shift=shift):
        X = np.zeros((3, N))
        S.real("z", 0, 1)
        make = lambda **kw: MeanRisk(prior_estimator=pr, risk_measure=RM.WORST_REALIZATION, **kw)  # noqa: E731
        ret = lambda v: S.sum(a * b for a, b in zip(mu, v, strict=True))  # noqa: E731
        if not S.symbolic:
            # solutions of several problems, as the counterexample's need not be optimal for these returns
            for c in (0, -0.2, -0.25, -1, 20):
                mu = [m + c for m in mu_(S)]
                pr = convex.prior(S, R, mu=mu, covariance=COV, key="frontier")
                least, most = make().fit(X).weights_, make(objective_function=OF.MAXIMIZE_RETURN).fit(X).weights_
                error = None
                try:
                    est = make(efficient_frontier_size=k).fit(X)
                except (ValueError, cp.SolverError) as e:
                    error = type(e).__name__
                S.eq(f"refused without positive returns {c}", error, "ValueError" if ret(most) <= 0 else None)
                if error is None:
                    S.eq(f"one portfolio per target {c}", est.weights_.shape, (k, N))
                    for i, t in enumerate(targets(S, ret(least), ret(most), k)):
                        S.le(f"target {i} respected {c}", t - 1e-5, ret(est.weights_[i]))
                        S.le(f"portfolio {i} {c}", abs(est.weights_[i] - make(min_return=t - 1e-9).fit(X).weights_).max(), 1e-3)
            return
        mu = [m + shift for m in mu_(S)]
        pr = convex.prior(S, R, mu=mu, covariance=COV, key="frontier")
        cvx.reset()
        try:
            est, error = make(efficient_frontier_size=k).fit(X), None
        except ValueError:
            est, error = None, "ValueError"
        recs = list(cvx.RECORDS)
        v = [[core.SymReal(t) for t in next(x for x in r.problem.variables() if x.shape == (N,)).consts] for r in recs]
        S.eq("least risky and highest return first", [recs[0].sense, recs[1].sense], [1, -1])
        inside = lambda w: S.all([w[0] >= 0, w[1] >= 0, w[0] <= 1, w[1] <= 1, w[0] + w[1] == 1])  # noqa: E731
        ok = [core.SymBool(r.feasible()) for r in recs]
        # the objectives are those of the model without frontier, which the other cases decide
        for r, o in zip(recs, (OF.MINIMIZE_RISK, OF.MAXIMIZE_RETURN), strict=False):
            cvx.reset()
            make(objective_function=o).fit(X)
            (alone,) = cvx.RECORDS
            same = [(a, b) for a, b in zip(alone.aux, r.aux, strict=True)]
            S.true(f"same problem as {o.value}", core.SymBool(z3.substitute(core.lift(alone.objective).term, *same) == core.lift(r.objective).term))
            S.true(f"same limits as {o.value}", core.SymBool(z3.substitute(alone.feasible(), *same) == r.feasible()))
        refused = error == "ValueError"
        S.true("refused exactly without positive returns", S.any([ret(v[1]) > 0, refused]))
        S.true("refused only without positive returns", S.any([ret(v[1]) <= 0, not refused]))
        if refused:
            return
        S.eq("one portfolio per target", (len(recs), np.shape(est.weights_)), (2 + k, (k, N)))
        want = targets(S, ret(v[0]), ret(v[1]), k)
        for i in range(k):
            w, rec = v[2 + i], recs[2 + i]
            S.eq(f"risk of {i}", rec.sense, 1)
            S.le(f"target {i} respected", core.ite(ok[2 + i], want[i] - ret(w), 0), 0)
            S.le(f"budget {i}", core.ite(ok[2 + i], absv(S, w[0] + w[1] - 1), 0), 0)
            for j, f in enumerate(cvx.attained(rec, S.all([inside(w), ret(w) >= want[i]]))):
                S.true(f"target {i} not too strict ({j})", f)


for kinds in (("min_return", "max_cvar"), ("max_cvar", "max_worst_realization")):

    @case("C14", f"targets of different lengths, {kinds[0]} and {kinds[1]}", extra=cvx.extra, points=1, nowitness=True)
    def _(S, kinds=kinds):
        # how many targets each list has, not their values
        a, b = int(S.int("first", 1, 3)), int(S.int("second", 1, 3))
        pr = prior(S)
        kw = {kinds[0]: np.full(a, 0.25), kinds[1]: np.full(b, 0.5 if kinds[1].startswith("max") else 0.125)}
        est = MeanRisk(prior_estimator=pr, risk_measure=RM.WORST_REALIZATION, **{**FREE, "budget": S.frac(1), **kw})
        if S.symbolic:
            cvx.reset()
        try:
            est.fit(np.zeros((3, N)))
            refused = False
        except ValueError:
            refused = True
        except (IndexError, cp.SolverError) as e:
            refused = type(e).__name__
        if refused != "SolverError" or S.symbolic:
            S.eq("refused exactly when the lengths differ", refused, a != b)
