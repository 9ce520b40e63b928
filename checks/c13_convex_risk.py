"""C13: the risk used by the convex optimizers is the documented risk measure."""

import itertools

import numpy as np
from skfolio import RiskMeasure as RM
from skfolio.optimization import MeanRisk

from checks import convex
from symx import cvx
from symx.harness import case

META = {
    "bounds": "every real weight vector on fixed scenario sets (2..4 observations, 2..4 assets, tails with integer and fractional tail mass), and every real scenario set of 3..4 observations for one asset with weight 1 or -1/2; transaction costs, previous weights, management fees, minimum acceptable return and risk-free rate included; every problem also checked to follow the solver's convexity rules",
    "outside": "scenario sets and weights symbolic at the same time (products); entropic measures are compared as formulas over an uninterpreted exponential; worst-case variance (see C30)",
    "assumptions": convex.ASSUME,
}

SETS = {
    "diagonal 3": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "3x2": [[2, -1], [-3, 1], [1, 1]],
    "4x2": [[2, -1], [-3, 1], [1, 1], [-1, -2]],
    "5x2": [[2, -1], [-3, 1], [1, 1], [-1, -2], [0, 1]],
    "2x2": [[2, -1], [-3, 1]],
    "diagonal 4": [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]],
}


def opt(prior, risk, **k):
    def make(**kw):
        return MeanRisk(prior_estimator=prior, risk_measure=risk, **{**dict(min_weights=None, max_weights=None, budget=None), **k, **kw})

    return make


# ----------------------------------------------------------------- documented measures
def mean_(S, xs):
    xs = list(xs)
    return S.sum(xs) * S.frac(1, len(xs))


def absv(S, x):
    return S.max(x, -x)


def tail(S, losses, beta):
    """Mean of the worst (1 - beta) share of the losses: the smallest value over the threshold
    of threshold + mean excess / (1 - beta), reached at one of the losses."""
    c = 1 / (len(losses) * (1 - beta))
    return S.min([a + c * S.sum(S.max(x - a, 0) for x in losses) for a in losses])


def drawdowns(S, r):
    out, d = [], 0
    for x in r:
        d = S.max(d - x, 0)
        out.append(d)
    return out


def gini(S, r):
    n = len(r)
    return S.sum(absv(S, a - b) for a, b in itertools.combinations(r, 2)) * S.frac(2, n * (n - 1))


# name -> (value(S, gross, net, mar series, beta), extra parameters)
LINEAR = {
    RM.MEAN_ABSOLUTE_DEVIATION: lambda S, g, n, m, b: mean_(S, [absv(S, x - y) for x, y in zip(g, m)]),
    RM.FIRST_LOWER_PARTIAL_MOMENT: lambda S, g, n, m, b: mean_(S, [S.max(y - x, 0) for x, y in zip(g, m)]),
    RM.WORST_REALIZATION: lambda S, g, n, m, b: S.max([-x for x in n]),
    RM.CVAR: lambda S, g, n, m, b: tail(S, [-x for x in n], b),
    RM.MAX_DRAWDOWN: lambda S, g, n, m, b: S.max(drawdowns(S, n)),
    RM.AVERAGE_DRAWDOWN: lambda S, g, n, m, b: mean_(S, drawdowns(S, n)),
    RM.CDAR: lambda S, g, n, m, b: tail(S, drawdowns(S, n), b),
    RM.GINI_MEAN_DIFFERENCE: lambda S, g, n, m, b: gini(S, g),
}
def shortfalls(S, g, n, m):
    return [S.max(y - x, 0) for x, y in zip(g, m)]


# the squared entries are summed and divided by the number of observations less ddof
SQUARED = {
    RM.SEMI_VARIANCE: (shortfalls, 1),
    RM.SEMI_DEVIATION: (shortfalls, 1),
    RM.ULCER_INDEX: (lambda S, g, n, m: drawdowns(S, n), 0),
}
ROOT = (RM.SEMI_DEVIATION, RM.ULCER_INDEX, RM.STANDARD_DEVIATION)
BETA = {RM.CVAR: "cvar_beta", RM.CDAR: "cdar_beta"}
MAR = (RM.MEAN_ABSOLUTE_DEVIATION, RM.FIRST_LOWER_PARTIAL_MOMENT, RM.SEMI_VARIANCE, RM.SEMI_DEVIATION)


def series(S, R, w):
    return [S.sum(R[t][i] * w[i] for i in range(len(w))) for t in range(len(R))]


def risk_of(est):
    return est.problem_values_["risk"]


def value(S, rm, g, net, mar, beta=None):
    if rm in LINEAR:
        return LINEAR[rm](S, g, net, mar, beta), None
    f, ddof = SQUARED[rm]
    parts = f(S, g, net, mar)
    return S.sum(d * d for d in parts) * S.frac(1, len(g) - ddof), parts


def setting(S, rm, R, w, costs=False, mar=None, beta=None, rf=None):
    """Estimator factory and documented risk for the scenario set and weights."""
    n = len(w)
    k = {}
    g = series(S, R, w)
    mu = [mean_(S, [r[i] for r in R]) for i in range(n)]
    m = [S.sum(mu[i] * w[i] for i in range(n))] * len(R)
    if mar is not None:
        k["min_acceptable_return"] = mar
        m = [mar * S.sum(w)] * len(R)
    net = g
    if costs:
        tc, prev, fee = costs
        k.update(transaction_costs=S.array(tc), previous_weights=S.array(prev), management_fees=S.array(fee))
        c = S.sum(tc[i] * absv(S, w[i] - prev[i]) + fee[i] * w[i] for i in range(n))
        net = [x - c for x in g]
    if beta is not None:
        k[BETA[rm]] = beta
    if rf is not None:
        k["risk_free_rate"] = rf
    b = None if beta is None else S.frac(*beta.as_integer_ratio())
    return opt(convex.prior(S, R), rm, **k), value(S, rm, g, net, m, b)


def weights_case(rm, name, beta=None, tiers=("quick", "thorough"), **k):
    R = SETS[name]
    label = f"{rm.value} every weight, {name}" + (f" beta={beta}" if beta else "") + "".join(f" {a}" for a in k)

    @case("C13", label, extra=cvx.extra, points=1, tiers=tiers, budget_ms=40000, fork_max=rm in ROOT)
    def _(S):
        n = len(R[0])
        w = S.reals("w", n, -2, 2)
        kk = dict(k)
        if "costs" in kk:
            kk["costs"] = tuple([S.frac(*f) for f in v[:n]] for v in (((1, 100), (0, 1), (3, 100), (1, 50)), ((1, 2), (1, 4), (-1, 4), (0, 1)), ((1, 200), (1, 50), (0, 1), (1, 100))))
        if "mar" in kk:
            kk["mar"] = S.frac(1, 8)
            if S.symbolic:
                S.assume(S.sum(w) == 1)
            else:
                w[n - 1] = 1 - sum(w[: n - 1])
        if "rf" in kk:
            kk["rf"] = S.frac(1, 16)
        make, (V, parts) = setting(S, rm, R, w, beta=beta, **kk)
        convex.decide(S, make, np.zeros((len(R), n)), w, [], V, root=rm in ROOT, parts=parts)


def scenario_case(rm, T, beta=None, tiers=("quick", "thorough"), w0=(1, 1), **k):
    label = f"{rm.value} every scenario set, {T} observations, weight {w0[0]}/{w0[1]}" + (f" beta={beta}" if beta else "") + "".join(f" {a}" for a in k)

    @case("C13", label, extra=cvx.extra, points=1, tiers=tiers, budget_ms=40000, fork_max=rm in ROOT)
    def _(S):
        x = S.reals("x", T, -2, 2)
        kk = dict(k)
        if "costs" in kk:
            kk["costs"] = ([S.real("tc", 0, 1)], [S.real("prev", -1, 1)], [S.frac(1, 50)]) if k["costs"] == 1 else ([S.frac(1, 50)], [S.real("prev", -1, 1)], [S.real("fee", 0, 1)])
        if "mar" in kk:
            kk["mar"] = S.real("mar", -1, 1)
        if "rf" in kk:
            kk["rf"] = S.real("rf", 0, 1)
        make, (V, parts) = setting(S, rm, [[v] for v in x], [S.frac(*w0)], beta=beta, **kk)
        convex.decide(S, make, np.zeros((T, 1)), S.array([S.frac(*w0)]), [], V, root=rm in ROOT, parts=parts)


TH = ("thorough",)
QT = ("quick", "thorough")
for rm in LINEAR:
    betas = (0.5, 0.625) if rm in BETA else (None,)
    for beta in betas:
        weights_case(rm, "3x2", beta)
        weights_case(rm, "diagonal 3", beta)
        weights_case(rm, "4x2", beta)
        weights_case(rm, "diagonal 4", beta, tiers=TH)
        weights_case(rm, "3x2", beta, costs=1)
        scenario_case(rm, 3, beta)
        scenario_case(rm, 3, beta, w0=(-1, 2), costs=1)
        scenario_case(rm, 3, beta, costs=2)
        scenario_case(rm, 4, beta, tiers=TH)
    weights_case(rm, "3x2", betas[0], rf=1)
# the square roots in the problems are rational for these numbers of observations
for rm, small, big in ((RM.SEMI_VARIANCE, (3, "3x2"), (4, "4x2")), (RM.SEMI_DEVIATION, (2, "2x2"), (5, "5x2")), (RM.ULCER_INDEX, (4, "4x2"), (4, "diagonal 4"))):
    weights_case(rm, small[1])
    weights_case(rm, big[1], tiers=TH)
    weights_case(rm, small[1], costs=1)
    weights_case(rm, small[1], rf=1)
    scenario_case(rm, small[0])
    if rm != RM.ULCER_INDEX:
        scenario_case(rm, small[0], w0=(-1, 2), costs=1)
    scenario_case(rm, small[0], costs=2)
    if rm in MAR:
        weights_case(rm, small[1], mar=1)
for rm in MAR:
    T, name = (2, "2x2") if rm == RM.SEMI_DEVIATION else (3, "3x2")
    if rm in LINEAR:
        weights_case(rm, name, mar=1)
    scenario_case(rm, T, mar=1)


# ----------------------------------------------------------------- variance
CHOL = {2: [[2, 0], [-1, 1]], 3: [[1, 0, 0], [1, 2, 0], [-1, 1, 1]]}


def gram(L):
    n = len(L)
    return [[sum(L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


for rm, n, given in itertools.product((RM.VARIANCE, RM.STANDARD_DEVIATION), (2, 3), (False, True)):

    @case("C13", f"{rm.value} every weight, {n} assets{', square root given' if given else ''}", extra=cvx.extra, points=1, budget_ms=40000)
    def _(S, rm=rm, n=n, given=given):
        w = S.reals("w", n, -2, 2)
        cov = gram(CHOL[n])
        V = S.sum(w[i] * w[j] * cov[i][j] for i in range(n) for j in range(n))
        # any square root will do: a lower triangular one, or with its columns exchanged
        root = [r[::-1] for r in CHOL[n]] if given else None
        pr = convex.prior(S, [[0] * n] * 4, mu=[1] * n, covariance=cov, cholesky=root)
        convex.decide(S, opt(pr, rm), np.zeros((4, n)), w, [], V, root=rm == RM.STANDARD_DEVIATION)


@case("C13", "variance every covariance of 2 assets", extra=cvx.extra, points=1, budget_ms=40000)
def _(S):
    # covariance L L' for every lower triangular L with positive diagonal
    a, b, c = S.real("a", S.frac(1, 10), 2), S.real("b", -2, 2), S.real("c", S.frac(1, 10), 2)
    w = [S.frac(1, 2), S.frac(-1, 4)]
    V = (a * w[0] + b * w[1]) ** 2 + (c * w[1]) ** 2
    pr = convex.prior(S, [[0, 0]] * 3, mu=[1, 1], covariance=[[a * a, a * b], [a * b, b * b + c * c]])
    convex.decide(S, opt(pr, RM.VARIANCE), np.zeros((3, 2)), S.array(w), [], V)


# ----------------------------------------------------------------- entropic measures
def entropic(losses, beta):
    """min over y of y log(mean(exp(loss / y)) / (1 - beta))."""
    import scipy.optimize as sco

    x = np.array(losses, dtype=float)
    m = x.max()
    f = lambda l: m + np.exp(l) * (np.log(np.mean(np.exp((x - m) / np.exp(l)))) - np.log(1 - beta))  # noqa: E731
    return min(f(sco.minimize_scalar(f, bounds=b, method="bounded", options={"xatol": 1e-10}).x) for b in ((-12, -2), (-3, 2), (1, 6)))


# probabilities whose divergence from the uniform one stays within the confidence level
DUALS = {0.5: ([(1, 2), (3, 10), (1, 5)], [(1, 3), (1, 3), (1, 3)], [(1, 10), (7, 10), (1, 5)], [(3, 100), (19, 50), (59, 100)], [(4, 5), (9, 50), (1, 50)])}


def entropic_case(rm, beta, name, costs):
    fees = [(1, 200), (1, 50), (3, 100)]

    def setup(S, w, R):
        n = len(w)
        k = {}
        net = series(S, R, w)
        if costs:
            k["management_fees"] = S.array([S.frac(*f) for f in fees[:n]])
            c = S.sum(S.frac(*fees[i]) * w[i] for i in range(n))
            if rm == RM.EDAR:  # transaction costs are documented as left out of the EVaR
                tc, prev = S.frac(1, 50), S.frac(1, 4)
                k.update(transaction_costs=tc, previous_weights=S.array([prev] * n))
                c = c + S.sum(tc * absv(S, w[i] - prev) for i in range(n))
            net = [x - c for x in net]
        k["evar_beta" if rm == RM.EVAR else "edar_beta"] = beta
        make = opt(convex.prior(S, R), rm, **k)
        return make, ([-x for x in net] if rm == RM.EVAR else drawdowns(S, net))

    tag = f"{rm.value} beta={beta} {name}{' costs' if costs else ''}"

    @case("C13", f"{tag}: at least the mean of every reweighting, every weight", extra=cvx.extra, points=1)
    def _(S):
        R = SETS[name]
        w = S.reals("w", len(R[0]), -2, 2)
        make, losses = setup(S, w, R)
        if not S.symbolic:
            return convex.decide(S, make, np.zeros((len(R), len(w))), w, [], entropic(losses, beta), tol=1e-4)
        from symx.core import Fraction

        for q in DUALS[beta]:
            q = [Fraction(*p) for p in q]
            cvx.reset()
            logs = {p: Fraction(float(np.log(float(p)))).limit_denominator(10**9) + Fraction(1, 10**8) for p in q}
            assert -sum(float(p) * np.log(float(p)) for p in q) > np.log(3 * (1 - beta)) + 1e-3
            cvx.EXP["outer"] = list(logs.items())
            est = make(add_constraints=convex.pin(S, w))
            est.fit(np.zeros((len(R), len(w))))
            from symx import core

            feas = core.SymBool(cvx.RECORDS[-1].feasible())
            o = est.problem_values_["objective"]
            mean = S.sum(p * x for p, x in zip(q, losses))
            S.le("risk at least the reweighted mean", core.ite(feas, mean, o), o)

    for j, w0 in enumerate(([(1, 2), (1, 2), (0, 1)], [(3, 2), (-1, 2), (1, 4)], [(-1, 3), (2, 3), (1, 1)])):

        @case("C13", f"{tag}: reached at weights {j}", extra=cvx.extra, points=1)
        def _(S, w0=w0):
            R = SETS[name]
            w = [S.frac(*x) for x in w0[: len(R[0])]]
            make, losses = setup(S, w, R)
            V = entropic([float(x) for x in losses], beta)
            if not S.symbolic:
                return convex.decide(S, make, np.zeros((len(R), len(w))), np.array(w), [], V, tol=1e-4)
            from symx.core import Fraction

            cvx.reset()
            grid = [Fraction(k, 8) for k in range(-120, 1)]
            cvx.EXP["inner"] = [(u, Fraction(float(np.exp(float(u)))) * Fraction(10**9 + 1, 10**9)) for u in grid]
            est = make(add_constraints=convex.pin(S, S.array(w)))
            est.fit(np.zeros((len(R), len(w))))
            rec = cvx.RECORDS[-1]
            for i, f in enumerate(cvx.attained(rec, True, Fraction(V) + Fraction(1, 100), est.problem_values_["objective"])):
                S.true(f"reached ({i})", f)


for rm in (RM.EVAR, RM.EDAR):
    for costs in (False, True):
        for name in ("3x2", "diagonal 3"):
            entropic_case(rm, 0.5, name, costs)
