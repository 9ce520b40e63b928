"""C22: hierarchical equal risk contribution and the nearest weights within bounds."""

import types

import numpy as np
import pandas as pd
import skfolio.measures as sm
from skfolio import RiskMeasure
from skfolio.cluster import HierarchicalClustering
from skfolio.optimization import HierarchicalEqualRiskContribution
from skfolio.utils.stats import minimize_relative_weight_deviation

from checks import convex
from checks.c21_hierarchical import covariance, distance, inverse, model, quad, series
from checks.common import REAL
from symx import cvx
from symx.harness import case

META = {
    "bounds": "2 to 5 assets in 1 to 4 clusters of fixed dendrograms; arbitrary variances (with a correlation) or returns; arbitrary weight bounds of 2 and 3 assets against fixed risks, every candidate weight vector",
    "outside": "the agglomeration of the distances (compiled library code run as it is); assets without risk; the numerical solver",
    "assumptions": [REAL, convex.ASSUME[0]],
}

# places on a line and the binary tree they give
TREES = {
    2: ([0, 1], (0, 1)),
    3: ([1, 0, 5], ((0, 1), 2)),
    4: ([20, 1, 0, 17], ((1, 2), (0, 3))),
    "chain": ([0, 1, 6, 40], (((0, 1), 2), 3)),
    5: ([40, 1, 0, 31, 3], (((1, 2), 4), (0, 3))),
}


def leaves(t):
    return [t] if isinstance(t, int) else leaves(t[0]) + leaves(t[1])


def height(places, t):
    return 0 if isinstance(t, int) else max(places[i] for i in leaves(t)) - min(places[i] for i in leaves(t))


def cut(places, tree, k):
    """The k clusters: split the highest node until there are k."""
    out = [tree]
    while len(out) < k:
        i = max(range(len(out)), key=lambda i: height(places, out[i]))
        out[i : i + 1] = list(out[i])
    return out


def spec(S, places, tree, k, risk, of):
    parts = cut(places, tree, k)
    w = {}
    rc = {}
    for p in parts:
        q = inverse(S, leaves(p), risk)
        w.update(q)
        rc[p] = of(q)

    def inside(t):
        return [p for p in parts if set(leaves(p)) <= set(leaves(t))]

    def down(t, total):
        if t in parts:
            for i in leaves(t):
                w[i] = w[i] * total
            return
        a, b = (S.sum(rc[p] for p in inside(x)) for x in t)
        down(t[0], total * (b / (a + b)))
        down(t[1], total * (a / (a + b)))

    down(tree, 1)
    return [w[i] for i in range(len(w))]


def fit(S, shape, pr, k, X=None, **kw):
    places = TREES[shape][0]
    n = len(places)
    est = HierarchicalEqualRiskContribution(prior_estimator=pr, distance_estimator=distance(n, places), hierarchical_clustering_estimator=HierarchicalClustering(max_clusters=k), **kw)
    return est.fit(np.zeros((3, n)) if X is None else X)


for shape, k, corr, tier in ((2, 1, 1, 0), (2, 2, 1, 0), (3, 1, 1, 0), (3, 2, 1, 0), (3, 3, 0, 0), (4, 2, 0, 0), (4, 3, 0, 0), ("chain", 3, 0, 0), ("chain", 2, 0, 0), ("chain", 4, 0, 1), (5, 2, 0, 1), (5, 3, 0, 1), (5, 4, 0, 1)):

    @case("C22", f"variance, tree {shape}, {k} clusters", points=4, tiers=("thorough",) if tier else ("quick", "thorough"))
    def _(S, shape=shape, k=k, corr=corr):
        places, tree = TREES[shape]
        n = len(places)
        v, C = covariance(S, n, corr=bool(corr), free=2 if corr else 3)
        w = fit(S, shape, model(S, C), k).weights_
        S.eq("risk split down the dendrogram", w, spec(S, places, tree, k, v, lambda q: quad(S, q, C)))
        S.eq("fully invested", S.sum(w), 1)
        for i in range(n):
            S.le(f"no short position {i}", 0, w[i])


@case("C22", "standard deviation", points=4)
def _(S):
    s = S.reals("s", 3, S.frac(1, 4), 4)
    C = [[s[i] * s[i] if i == j else 0 for j in range(3)] for i in range(3)]
    w = fit(S, 3, model(S, C), 2, risk_measure=RiskMeasure.STANDARD_DEVIATION).weights_
    S.eq("risk split down the dendrogram", w, spec(S, *TREES[3], 2, list(s), lambda q: S.sqrt(quad(S, q, C))))


MEASURES = {
    RiskMeasure.CVAR: lambda S, r: sm.cvar(r),
    RiskMeasure.WORST_REALIZATION: lambda S, r: sm.worst_realization(r),
    RiskMeasure.GINI_MEAN_DIFFERENCE: lambda S, r: sm.gini_mean_difference(r),
    RiskMeasure.MAX_DRAWDOWN: lambda S, r: sm.max_drawdown(sm.get_drawdowns(r)),
}
for m, f in MEASURES.items():

    @case("C22", f"measure {m.value}", points=3)
    def _(S, m=m, f=f):
        x = S.real("x", S.frac(1, 8), 1)
        m is RiskMeasure.MAX_DRAWDOWN and S.assume(x >= S.frac(3, 4))
        R = [[S.frac(1, 4), S.frac(1, 8), S.frac(-1, 8)], [-x, -2 * x, S.frac(-1, 4)], [S.frac(-1, 2), S.frac(1, 8), S.frac(-3, 4)]]
        w = fit(S, 3, model(S, returns=R), 2, risk_measure=m).weights_
        of = lambda q: f(S, series(S, q, R))  # noqa: E731
        S.eq("risk split down the dendrogram", w, spec(S, *TREES[3], 2, [of({i: 1}) for i in range(3)], of))
        S.eq("fully invested", S.sum(w), 1)


@case("C22", "measure net of named fees", points=3)
def _(S):
    x = S.real("x", S.frac(1, 8), 1)
    R = [[S.frac(1, 4), -2 * x, S.frac(-1, 8)], [-x, S.frac(-1, 2), S.frac(-1, 4)]]
    k = dict(transaction_costs={"a": 0.0625, "c": 0.125}, management_fees={"b": 0.03125}, previous_weights={"a": 0.5})
    X = pd.DataFrame(np.zeros((3, 3)), columns=list("abc"))
    w = fit(S, 3, model(S, returns=R), 2, X=X, risk_measure=RiskMeasure.WORST_REALIZATION, **k).weights_

    def of(q):
        q = {i: q.get(i, 0) for i in range(3)}
        t = S.frac(1, 16) * S.ite(q[0] >= S.frac(1, 2), q[0] - S.frac(1, 2), S.frac(1, 2) - q[0]) + S.frac(1, 8) * q[2] + S.frac(1, 32) * q[1]
        return sm.worst_realization(S.array([r - t for r in series(S, q, R)]))

    S.eq("risk split down the dendrogram", w, spec(S, *TREES[3], 2, [of({i: 1}) for i in range(3)], of))


def nearest(S, run, w0, lo, hi):
    """`run(initial or None)` returns the weights within the bounds with the smallest sum of
    squared relative distances to the initial weights `w0`."""
    n = len(w0)
    w = S.reals("w", n, -2, 2)
    dist = lambda u: S.sum((u[i] / w0[i] - 1) * (u[i] / w0[i] - 1) for i in range(n))  # noqa: E731
    if bool(S.all([S.all([lo[i] <= w0[i], w0[i] <= hi[i]]) for i in range(n)])):
        S.eq("weights within the bounds are kept", run(None), w0)
        return
    D = [("sum", "eq", S.sum(w) - 1)] + [(f"lower {i}", "le", lo[i] - w[i]) for i in range(n)] + [(f"upper {i}", "le", w[i] - hi[i]) for i in range(n)]
    if S.symbolic:
        cvx.PIN[0] = w
        try:
            est = types.SimpleNamespace(fit=lambda X: run(None))
            convex.decide(S, lambda: est, None, w, D, dist(w), root=True, pinned=False, value=lambda e: cvx.RECORDS[-1].objective)
        finally:
            cvx.PIN[0] = None
        return
    out = np.asarray(run(None), dtype=float)
    # the documented optimum: every weight moves in proportion to its square, within its bounds
    for k, (a, b) in enumerate([(lo, hi), *PROBES[n]]):
        got = out if k == 0 else np.asarray(run(None, S.array(a), S.array(b)), dtype=float)
        S.le(f"the nearest weights {k}", max(abs(x - y) for x, y in zip(got, optimum(w0, a, b))), 1e-3)
    inside = lambda u, t: all(abs(g) <= t if k == "eq" else g <= t for k, g in [("eq", sum(u) - 1)] + [("le", lo[i] - u[i]) for i in range(n)] + [("le", u[i] - hi[i]) for i in range(n)])  # noqa: E731
    S.true("result within the bounds", inside(out, 1e-5))
    if inside(w, 1e-9):
        S.le("no nearer weights", dist(out), dist(w) + 1e-4)
    elif min(w) > 1e-3 and abs(sum(w) - 1) < 1e-9:
        far = run(np.asarray(w, dtype=float))
        if far is not None:
            S.true("result within the bounds, other start", inside(far, 1e-5))


PROBES = {
    2: [([0, 0], [1, 0.5]), ([0.5, 0], [1, 1])],
    3: [([0, 0, 0], [0.25, 1, 1]), ([0, 0, 0.5], [1, 1, 1]), ([0, 0.3, 0], [1, 1, 0.375])],
}


def optimum(w0, lo, hi):
    w0 = [float(x) for x in w0]
    at = lambda t: [min(max(x + t * x * x, float(a)), float(b)) for x, a, b in zip(w0, lo, hi)]  # noqa: E731
    low, high = -1e4, 1e4
    for _ in range(200):
        mid = (low + high) / 2
        low, high = (mid, high) if sum(at(mid)) < 1 else (low, mid)
    return at((low + high) / 2)


def bounds(S, n, which):
    lo = S.reals("lo", n, 0, 1) if which != "upper" else S.array([0] * n)
    hi = S.reals("hi", n, 0, 1) if which != "lower" else S.array([1] * n)
    for a, b in zip(lo, hi):
        S.assume(a <= b)
    S.assume(S.sum(lo) <= S.frac(31, 32))
    S.assume(S.sum(hi) >= S.frac(33, 32))
    return lo, hi


for n in (2, 3):
    for which in ("lower", "upper", "both"):

        @case("C22", f"nearest weights, {which} bounds, {n} assets", points=4, extra=cvx.extra, tol=1e-4, fork_max=4000, max_paths=4000)
        def _(S, n=n, which=which):
            lo, hi = bounds(S, n, which)
            w0 = S.array([S.frac(*x) for x in {2: [(1, 4), (3, 4)], 3: [(1, 2), (1, 8), (3, 8)]}[n]])
            nearest(S, lambda u, a=lo, b=hi: minimize_relative_weight_deviation(weights=w0 if u is None else u, min_weights=a, max_weights=b), list(w0), lo, hi)


        @case("C22", f"allocation within {which} bounds, {n} assets", points=4, extra=cvx.extra, tol=1e-4, fork_max=4000, max_paths=4000)
        def _(S, n=n, which=which):
            lo, hi = bounds(S, n, which)
            var = {2: [1, 3], 3: [1, 4, 2]}[n]
            C = [[var[i] if i == j else 0 for j in range(n)] for i in range(n)]
            w0 = spec(S, *TREES[n], 2, [S.frac(x) for x in var], lambda q: quad(S, q, C))

            def run(u, lo=lo, hi=hi):
                if u is None:
                    return fit(S, n, model(S, C), 2, min_weights=lo, max_weights=hi).weights_
                if n == 2:  # variances giving the other start
                    return fit(S, n, model(S, [[u[1], 0], [0, u[0]]]), 2, min_weights=lo, max_weights=hi).weights_
                return None

            nearest(S, run, w0, lo, hi)
