"""C21: hierarchical risk parity splits by inverse risk and keeps the weight bounds."""

import numpy as np
import skfolio.measures as sm
from skfolio import ExtraRiskMeasure, RiskMeasure
from skfolio.cluster import HierarchicalClustering
from skfolio.distance import BaseDistance
from skfolio.optimization import HierarchicalRiskParity

from checks import convex
from checks.common import REAL
from symx.harness import case

META = {
    "bounds": "2 to 5 assets; fixed distance matrices giving different leaf orders; up to three arbitrary variances (with a correlation) or arbitrary returns; arbitrary lower and upper weight bounds against fixed risks",
    "outside": "the agglomeration of the distances (compiled library code run as it is); assets without risk",
    "assumptions": [REAL],
}

# points on a line: the leaf order is the order along the line (or its reverse)
PLACES = {2: [0, 1], 3: [1, 0, 3], 4: [7, 1, 0, 5], 5: [4, 0, 12, 9, 1]}
DIST = {}


class FixedDistance(BaseDistance):
    def __init__(self, key=0):
        self.key = key

    def fit(self, X, y=None, **k):
        self.distance_ = np.array(DIST[self.key])
        return self


def distance(n, places=None):
    p = np.array(places or PLACES[n], dtype=float)
    d = np.abs(p[:, None] - p[None, :]) / (np.ptp(p) + 1.0)
    key = tuple(p)
    DIST[key] = d
    return FixedDistance(key)


def orders(n, places=None):
    o = list(np.argsort(places or PLACES[n]))
    return [o, o[::-1]]


def leaves(n, places=None):
    """The leaf order, from the documented library (dendrogram with minimal neighbour distances)."""
    import scipy.cluster.hierarchy as sch
    import scipy.spatial.distance as scd

    distance(n, places)
    d = scd.squareform(DIST[tuple(np.array(places or PLACES[n], dtype=float))], checks=False)
    return [int(i) for i in sch.leaves_list(sch.optimal_leaf_ordering(sch.linkage(d, method="ward"), d))]


def model(S, cov=None, returns=None, n=None):
    n = n or (len(cov) if cov is not None else len(returns[0]))
    returns = returns or [[0] * n, [0] * n]
    return convex.prior(S, returns, mu=[0] * n, covariance=cov, key="hrp")


def inverse(S, ids, risk):
    t = S.sum(1 / risk[i] for i in ids)
    return {i: (1 / risk[i]) / t for i in ids}


def bisect(S, order, risk, of, lo=None, hi=None):
    """Recursive bisection of the ordered assets, each part receiving the share of the
    other part's risk, moved as little as needed to leave both parts within their bounds."""
    n = len(order)
    w = {}
    stack = [(list(order), 1)]
    while stack:
        ids, total = stack.pop()
        if len(ids) == 1:
            w[ids[0]] = total
            continue
        left, right = ids[: len(ids) // 2], ids[len(ids) // 2 :]
        a, b = of(inverse(S, left, risk)), of(inverse(S, right, risk))
        share = b / (a + b) * total
        if lo is not None:
            low = S.max(S.sum(lo[i] for i in left), total - S.sum(hi[i] for i in right))
            high = S.min(S.sum(hi[i] for i in left), total - S.sum(lo[i] for i in right))
            share = S.min(high, S.max(low, share))
        stack += [(left, share), (right, total - share)]
    return [w[i] for i in range(n)]


def fit(S, n, pr, places=None, **k):
    est = HierarchicalRiskParity(prior_estimator=pr, distance_estimator=distance(n, places), hierarchical_clustering_estimator=HierarchicalClustering(max_clusters=2), **k)
    return est.fit(np.zeros((3, n)))


def quad(S, w, C):
    ks = list(w)
    return S.sum(w[i] * w[j] * C[i][j] for i in ks for j in ks)


def covariance(S, n, corr=True, free=3):
    """Arbitrary variances; one arbitrary covariance."""
    v = list(S.reals("v", min(n, free), S.frac(1, 16), 16)) + [S.frac(2), S.frac(3), S.frac(5)][: max(0, n - free)]
    C = [[v[i] if i == j else 0 for j in range(n)] for i in range(n)]
    if corr:
        c = S.real("c", -4, 4)
        a, b = orders(n)[0][-2:]
        S.assume(c * c * 2 <= v[a] * v[b])
        C[a][b] = C[b][a] = c
    return v, C


for n in (2, 3, 4, 5):

    @case("C21", f"variance, {n} assets", points=4, tiers=("quick", "thorough") if n < 5 else ("thorough",))
    def _(S, n=n):
        v, C = covariance(S, n, corr=n < 4, free=3 if n < 5 else 2)
        w = fit(S, n, model(S, C)).weights_
        want = bisect(S, leaves(n), v, lambda q: quad(S, q, C))
        S.eq("recursive bisection", w, want)
        S.eq("fully invested", S.sum(w), 1)
        for i in range(n):
            S.le(f"no short position {i}", 0, w[i])


@case("C21", "standard deviation", points=4)
def _(S):
    n = 3
    s = S.reals("s", n, S.frac(1, 4), 4)
    C = [[s[i] * s[i] if i == j else 0 for j in range(n)] for i in range(n)]
    w = fit(S, n, model(S, C), risk_measure=RiskMeasure.STANDARD_DEVIATION).weights_
    S.eq("recursive bisection", w, bisect(S, leaves(n), list(s), lambda q: S.sqrt(quad(S, q, C))))


def series(S, q, R):
    return S.array([S.sum(q[i] * r[i] for i in q) for r in R])


MEASURES = {
    RiskMeasure.MEAN_ABSOLUTE_DEVIATION: lambda S, r: sm.mean_absolute_deviation(r),
    RiskMeasure.SEMI_VARIANCE: lambda S, r: sm.semi_variance(r),
    RiskMeasure.CVAR: lambda S, r: sm.cvar(r),
    RiskMeasure.WORST_REALIZATION: lambda S, r: sm.worst_realization(r),
    RiskMeasure.MAX_DRAWDOWN: lambda S, r: sm.max_drawdown(sm.get_drawdowns(r)),
    RiskMeasure.AVERAGE_DRAWDOWN: lambda S, r: sm.average_drawdown(sm.get_drawdowns(r)),
    RiskMeasure.GINI_MEAN_DIFFERENCE: lambda S, r: sm.gini_mean_difference(r),
    ExtraRiskMeasure.VALUE_AT_RISK: lambda S, r: sm.value_at_risk(r),
}
for m, f in MEASURES.items():

    @case("C21", f"measure {m.value}", points=3)
    def _(S, m=m, f=f):
        n = 3
        x = S.real("x", S.frac(1, 8), 1)
        y = S.real("y", S.frac(1, 8), 1)
        linear = m in (RiskMeasure.MEAN_ABSOLUTE_DEVIATION, RiskMeasure.SEMI_VARIANCE)
        R = [[S.frac(1, 4), S.frac(1, 8), S.frac(-1, 8)], [-x, S.frac(-3, 2) if linear else -2 * x, S.frac(-1, 4)], [S.frac(-1, 2), S.frac(1, 8), S.frac(-3, 8) if linear else -y]]
        linear and S.assume(x >= S.frac(3, 4))
        w = fit(S, n, model(S, returns=R), risk_measure=m).weights_
        of = lambda q: f(S, series(S, q, R))  # noqa: E731
        want = bisect(S, leaves(n), [of({i: 1}) for i in range(n)], of)
        S.eq("recursive bisection", w, want)
        S.eq("fully invested", S.sum(w), 1)


@case("C21", "measure net of costs and fees", points=3)
def _(S):
    n = 2
    x = S.real("x", S.frac(1, 8), 1)
    R = [[S.frac(1, 4), -2 * x], [-x, S.frac(1, 2)]]
    c, fee, p = [S.real(k, 0, S.frac(1, 16)) for k in ("cost", "fee", "prev")]
    k = dict(transaction_costs=c, management_fees=S.array([fee, 0]), previous_weights=S.array([p, S.frac(1, 2)]))
    w = fit(S, n, model(S, returns=R), risk_measure=RiskMeasure.WORST_REALIZATION, **k).weights_

    def of(q):
        q = {i: q.get(i, 0) for i in range(n)}
        t = c * (S.ite(q[0] >= p, q[0] - p, p - q[0]) + S.ite(q[1] >= S.frac(1, 2), q[1] - S.frac(1, 2), S.frac(1, 2) - q[1])) + fee * q[0]
        return sm.worst_realization(S.array([r - t for r in series(S, q, R)]))

    S.eq("recursive bisection", w, bisect(S, leaves(n), [of({i: 1}) for i in range(n)], of))


VAR = {2: [1, 3], 3: [1, 4, 2], 4: [1, 4, 2, 3], 5: [1, 4, 2, 3, 2]}
for n in (2, 3, 4, 5):
    for which in ("lower", "upper", "both"):
        if n == 5 and which == "both":
            continue
        heavy = n == 5 or (n == 4 and which == "both")

        @case("C21", f"{which} bounds, {n} assets", points=6, div="fork", fork_max=4000, max_paths=20000, tiers=("thorough",) if heavy else ("quick", "thorough"), time_limit=700 if heavy else 240)
        def _(S, n=n, which=which):
            lo = S.reals("lo", n, 0, 1) if which != "upper" else S.array([0] * n)
            hi = S.reals("hi", n, 0, 1) if which != "lower" else S.array([1] * n)
            for a, b in zip(lo, hi):
                S.assume(a <= b)
            S.assume(S.sum(lo) <= 1)
            S.assume(S.sum(hi) >= 1)
            C = [[VAR[n][i] if i == j else 0 for j in range(n)] for i in range(n)]
            w = fit(S, n, model(S, C), min_weights=lo, max_weights=hi).weights_
            S.eq("fully invested", S.sum(w), 1)
            for i in range(n):
                S.le(f"lower bound {i}", lo[i], w[i])
                S.le(f"upper bound {i}", w[i], hi[i])
            S.eq("nearest split", w, bisect(S, leaves(n), [S.frac(x) for x in VAR[n]], lambda q: quad(S, q, C), lo, hi))


@case("C21", "refused bounds", points=8)
def _(S):
    n = 2
    lo = S.reals("lo", n, -1, 2)
    hi = S.reals("hi", n, -1, 2)
    S.assume(S.any([lo[0] + lo[1] <= 1, lo[0] + lo[1] >= 1 + S.frac(1, 1024)]))
    bad = S.any([lo[0] < 0, lo[1] < 0, hi[0] > 1, hi[1] > 1, hi[0] + hi[1] < 1, lo[0] + lo[1] > 1, lo[0] > hi[0], lo[1] > hi[1]])
    _, e = S.attempt(lambda: fit(S, n, model(S, [[1, 0], [0, 3]]), min_weights=lo, max_weights=hi))
    S.true("bounds are refused exactly when they cannot hold", (e is not None) == bool(bad))
