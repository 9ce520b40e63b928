"""C33: pre-selection keeps exactly the documented assets."""

import itertools
import math

import numpy as np
import pandas as pd
from skfolio import PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.pre_selection import (
    DropCorrelated,
    DropZeroVariance,
    SelectComplete,
    SelectKExtremes,
    SelectNonDominated,
    SelectNonExpiring,
)

from checks.common import REAL, mean
from symx import arr
from symx.harness import case

META = {
    "bounds": "2 to 4 assets, 2 to 4 observations; every return, correlation matrix of 3 assets (4 with fixed entries), threshold, number to select, pattern of missing values and expiry within 6 days",
    "outside": "more assets; tied measures and correlations closer than the margins",
    "assumptions": [REAL, "correlations of data built from a given correlation matrix are that matrix"],
}


def kept(model, n):
    out = [bool(x) for x in model.to_keep_]
    assert len(out) == n
    return out


def transformed(S, model, X, keep, x):
    """transform returns the kept columns, unchanged and in order."""
    if not any(keep):
        return
    model.to_keep_ = np.array(keep)  # every entry has been decided on this path
    got = model.transform(X)
    rows = np.asarray(got, dtype=object) if S.symbolic else np.asarray(got)
    cols = [i for i, k in enumerate(keep) if k]
    S.true("shape", rows.shape == (len(x), len(cols)))
    S.eq("columns", [v for r in rows for v in r], [x[t][i] for t in range(len(x)) for i in cols])


# ------------------------------------------------------------------------- variance
@case("C33", "variance", points=4)
def _(S):
    x = [[S.real(f"x{t}{i}", -1, 1) for i in range(2)] for t in range(3)]
    t = S.real("threshold", -1, 1)
    model = DropZeroVariance(threshold=t)
    X = S.array(x)
    _, e = S.attempt(lambda: model.fit(X))
    S.true("negative thresholds are refused", (e == "ValueError") == bool(t < 0))
    if e:
        return
    keep = kept(model, 2)
    for i in range(2):
        c = [r[i] for r in x]
        m = mean(S, c)
        v = mean(S, [(a - m) * (a - m) for a in c])
        # a variance equal to the threshold is within rounding of either side
        S.assume(S.any([v - t >= 1e-9, t - v >= 1e-9, v == t]) if S.symbolic else abs(v - t) > 1e-12 or v == t)
        S.true(f"asset {i} kept when above", S.any([not keep[i], v > t]))
        S.true(f"asset {i} dropped when below", S.any([keep[i], v <= t]))
    transformed(S, model, X, keep, x)


# ------------------------------------------------------------------------- correlation
BASIS = np.array([[1, 1, 1, 1], [-1, -1, 1, 1], [1, -1, -1, 1], [-1, 1, -1, 1], [0, 0, 0, -4]], dtype=float)


def data(S, corr):
    """Data with the given correlation matrix."""
    n = len(corr)
    if S.symbolic:
        arr.CORR[0] = [list(r) for r in corr]
        return S.array([[S.real(f"unused{t}{i}", -1, 1) for i in range(n)] for t in range(5)])
    arr.CORR[0] = None
    q, _ = np.linalg.qr(np.c_[np.ones(5), BASIS])
    low = np.linalg.cholesky(np.array(corr, dtype=float))
    for t in range(5):
        for i in range(n):
            S.real(f"unused{t}{i}", -1, 1)
    return q[:, 1 : n + 1] @ low.T


def positive(S, a, b, c):
    return 1 + 2 * a * b * c - a * a - b * b - c * c


def drop(S, corr, threshold, absolute):
    """The documented steps; ties are excluded by the assumptions."""
    n = len(corr)
    c = [[abs(corr[i][j]) if absolute else corr[i][j] for j in range(n)] for i in range(n)]
    avg = [S.sum(c[i][j] for j in range(n) if j != i) for i in range(n)]
    pairs = [(i, j) for i, j in itertools.combinations(range(n), 2) if bool(c[i][j] > threshold)]
    order = []
    for p in pairs:
        k = 0
        while k < len(order) and bool(c[order[k][0]][order[k][1]] > c[p[0]][p[1]]):
            k += 1
        order.insert(k, p)
    gone = set()
    for i, j in order:
        if i not in gone and j not in gone:
            gone.add(i if bool(avg[i] > avg[j]) else j)
    return [i not in gone for i in range(n)], c


GAP = 1e-6


def apart(S, x, y):
    return S.any([x - y >= GAP, y - x >= GAP])


for _n, _abs in ((3, False), (3, True), (4, False), (4, True)):

    @case("C33", f"correlation, {_n} assets, absolute {_abs}", points=6, max_paths=3000, time_limit=400)
    def _(S, n=_n, absolute=_abs):
        a, b, c = (S.real(k, S.frac(-9, 10), S.frac(9, 10)) for k in ("r01", "r02", "r12"))
        S.assume(positive(S, a, b, c) >= S.frac(1, 8))
        corr = [[1, a, b], [a, 1, c], [b, c, 1]]
        if n == 4:
            # the fourth asset is only correlated with the first
            d = S.frac(1, 4)
            S.assume(positive(S, a, b, c) - d * d * (1 - c * c) >= S.frac(1, 16))
            corr = [[*corr[0], d], [*corr[1], 0], [*corr[2], 0], [d, 0, 0, 1]]
        t = S.real("threshold", -1, 1) if n == 3 else S.frac(1, 8)
        size = [abs(v) if absolute else v for v in (a, b, c)]
        for p, q in itertools.combinations(range(3), 2):
            S.assume(apart(S, size[p], size[q]))
        for v in size:
            S.assume(apart(S, v, t))
            if n == 4:
                S.assume(apart(S, v, S.frac(1, 4)))
        sums = [size[0] + size[1] + (S.frac(1, 4) if n == 4 else 0), size[0] + size[2], size[1] + size[2]]
        for p, q in itertools.combinations(sums + ([S.frac(1, 4)] if n == 4 else []), 2):
            S.assume(apart(S, p, q))
        if n == 3:
            S.assume(apart(S, t, 0))
        X = data(S, corr)
        model = DropCorrelated(threshold=t, absolute=absolute).fit(X)
        keep = kept(model, n)
        want, c = drop(S, corr, t, absolute)
        S.true("kept as documented", keep == want)
        for i, j in itertools.combinations(range(n), 2):
            if keep[i] and keep[j]:
                S.le(f"no kept pair above {i}{j}", c[i][j], t)


# ------------------------------------------------------------------------- extremes
def variance(S, c):
    m = mean(S, c)
    return S.sum((a - m) * (a - m) for a in c) / (len(c) - 1)


MEASURES = {
    "mean": (PerfMeasure.MEAN, lambda S, c: mean(S, c)),
    "variance": (RiskMeasure.VARIANCE, variance),
    "worst": (RiskMeasure.WORST_REALIZATION, lambda S, c: -S.min(*c)),
}
for _name, _high in itertools.product(MEASURES, (True, False)):

    @case("C33", f"extremes, {_name}, highest {_high}", points=6, max_paths=400)
    def _(S, name=_name, high=_high):
        measure, f = MEASURES[name]
        n = 3
        x = [[S.real(f"x{t}{i}", -1, 1) for i in range(n)] for t in range(2)]
        k = int(S.int("k", -1, 4))
        X = S.array(x)
        model = SelectKExtremes(k=k, measure=measure, highest=high)
        _, e = S.attempt(lambda: model.fit(X))
        S.true("numbers below one are refused", (e == "ValueError") == (k <= 0))
        if e:
            return
        keep = kept(model, n)
        S.true("number kept", sum(keep) == min(k, n))
        v = [f(S, [r[i] for r in x]) for i in range(n)]
        for i, j in itertools.permutations(range(n), 2):
            if keep[i] and not keep[j]:
                if high:
                    S.le(f"{i} above {j}", v[j], v[i])
                else:
                    S.le(f"{i} below {j}", v[i], v[j])
        transformed(S, model, X, keep, x)


@case("C33", "extremes, default measure", points=6, max_paths=400)
def _(S):
    m = [S.real(f"m{i}", -1, 1) for i in range(3)]
    s = [1, 2, S.frac(1, 2)]
    x = [[m[i] + s[i] * u for i in range(3)] for u in (-1, 1)]
    model = SelectKExtremes(k=2).fit(S.array(x))
    keep = kept(model, 3)
    S.true("number kept", sum(keep) == 2)
    S.true("Sharpe ratio", model.measure == RatioMeasure.SHARPE_RATIO)
    for i, j in itertools.permutations(range(3), 2):
        if keep[i] and not keep[j]:
            S.le(f"{i} above {j}", m[j] * s[i], m[i] * s[j] + 1e-9)


# ------------------------------------------------------------------------- domination
U, V = [1, -1, 1, -1], [1, 1, -1, -1]
# coordinates of the assets on the two axes: correlations -4/5 (0, 1), 0 (0, 2), 3/5 (1, 2)
AXES = [(1, 0), (-0.8, 0.6), (0, 1)]


def fronts(S, points):
    """Successive sets of portfolios not dominated by another remaining one."""
    left, out = list(range(len(points))), []

    def dominates(p, q):
        (m, v), (k, w) = points[p], points[q]
        return bool(m >= k) and bool(v <= w) and (bool(m > k) or bool(v < w))

    while left:
        best = [p for p in left if not any(dominates(q, p) for q in left if q != p)]
        out.append(best)
        left = [p for p in left if p not in best]
    return out


for _least, _threshold in ((None, -0.5), (None, -1), (None, 0.5), (1, -0.5), (2, -0.5), (2, -1), (3, -1)):

    @case("C33", f"domination, least {_least}, threshold {_threshold}", points=6, max_paths=600, time_limit=400)
    def _(S, least=_least, threshold=_threshold):
        n = 3
        m = [S.real(f"m{i}", -1, 1) for i in range(n)]
        s = [1, 2, S.real("s2", S.frac(1, 4), 4)]
        axes = [[S.frac(round(5 * a), 5) for a in p] for p in AXES]
        x = [[m[i] + s[i] * (axes[i][0] * U[t] + axes[i][1] * V[t]) for i in range(n)] for t in range(4)]
        for i, j in itertools.combinations(range(n), 2):
            S.assume(apart(S, m[i], m[j]))
            S.assume(apart(S, s[i], s[j]))
        model = SelectNonDominated(min_n_assets=least, threshold=threshold).fit(S.array(x))
        keep = kept(model, n)
        corr = [[axes[i][0] * axes[j][0] + axes[i][1] * axes[j][1] for j in range(n)] for i in range(n)]
        groups = [{i} for i in range(n)]
        points = [(m[i], s[i] * s[i]) for i in range(n)]
        for i, j in itertools.combinations(range(n), 2):
            if corr[i][j] < threshold:
                v, w, c = s[i] * s[i], s[j] * s[j], s[i] * s[j] * corr[i][j]
                a = (w - c) / (v + w - 2 * c)
                groups.append({i, j})
                points.append((a * m[i] + (1 - a) * m[j], a * a * v + (1 - a) * (1 - a) * w + 2 * a * (1 - a) * c))
        for p, q in itertools.combinations(range(len(points)), 2):
            S.assume(apart(S, points[p][0], points[q][0]))
            S.assume(apart(S, points[p][1], points[q][1]))
        if least is not None and least >= n:
            S.true("all assets", all(keep))
            return
        want = set()
        for front in fronts(S, points):
            for p in front:
                want |= groups[p]
            if least is None or len(want) >= least:
                break
        S.true("assets of the first fronts", keep == [i in want for i in range(n)])


# ------------------------------------------------------------------------- missing values
for _internal in (False, True):

    @case("C33", f"complete, internal {_internal}", points=6, max_paths=300)
    def _(S, internal=_internal):
        x, gap = [], []
        for t in range(4):
            row, g = [], []
            for i in range(2):
                v = S.real(f"x{t}{i}", -1, 1)
                missing = bool(S.bool(f"gap{t}{i}")) if (t, i) != (3, 1) else False
                row.append(math.nan if missing else v)
                g.append(missing)
            x.append(row)
            gap.append(g)
        model = SelectComplete(drop_assets_with_internal_nan=internal)
        X = S.array(x)
        _, e = S.attempt(lambda: model.fit(X))
        S.true("fitted", e is None)
        keep = kept(model, 2)
        for i in range(2):
            g = [r[i] for r in gap]
            S.true(f"asset {i}", keep[i] == (not any(g) if internal else not g[0] and not g[-1]))


@case("C33", "expiry", points=6, max_paths=300)
def _(S):
    x = [[S.real(f"x{t}{i}", -1, 1) for i in range(3)] for t in range(2)]
    index = pd.date_range("2024-02-27", periods=2, freq="D")
    a = int(S.int("expiry", 0, 6))
    h = int(S.int("ahead", 0, 5))
    dates = {"b": index[-1] + pd.Timedelta(days=a), "other": index[0]}
    model = SelectNonExpiring(expiration_dates=dates, expiration_lookahead=pd.offsets.DateOffset(days=h))
    model.fit(S.frame(x, columns=["a", "b", "c"], index=index))
    S.true("kept", kept(model, 3) == [True, a > h, True])
