"""C25: codependence and distance matrices equal their documented definitions."""

import itertools
import math

import numpy as np
import pandas as pd
import scipy.spatial.distance as scd
from skfolio.distance import (
    CovarianceDistance,
    DistanceCorrelation,
    KendallDistance,
    MutualInformation,
    NBinsMethod,
    PearsonDistance,
    SpearmanDistance,
)
from skfolio.moments.covariance import BaseCovariance
from skfolio.utils.stats import n_bins_freedman

from checks.common import REAL
from symx.arr import SymArray, has_sym
from symx.harness import case
from symx.patch import _Mod

META = {
    "bounds": "2 to 3 assets; correlations on circles (Pearson), 4 observations without ties (ranks), every covariance, 3 to 4 observations (distance correlation), 4 to 5 observations in 1 to 3 bins (mutual information), 8 observations (rule for the bins); powers 1 to 4, absolute or not",
    "outside": "more observations; tied ranks; fractional powers; the minimiser of Knuth's rule",
    "assumptions": [REAL, "rank correlations without ties are computed by their counting formulas instead of the data library"],
}
DATA = {}


def near(S, label, a, b, tol=1e-9):
    for k, (x, y) in enumerate(zip(a, b, strict=True) if isinstance(a, list) else [(a, b)]):
        S.le(f"{label} {k} above", x, y + tol)
        S.le(f"{label} {k} below", y - tol, x)


def least(power, absolute):
    return 0 if absolute or power % 2 == 0 else -1


def transformed(corr, power, absolute):
    c = abs(corr) if absolute else corr
    out = c
    for _ in range(power - 1):
        out = out * c
    return out


def claims(S, model, corr, power, absolute, tag=""):
    """corr: matrix of the correlations."""
    n = len(corr)
    code, dist = model.codependence_, model.distance_
    lo = least(power, absolute)
    for i in range(n):
        near(S, f"{tag}own distance {i}", dist[i, i], 0, tol=1e-6)
        for j in range(n):
            if i == j:
                continue
            want = transformed(corr[i][j], power, absolute)
            S.eq(f"{tag}codependence {i}{j}", code[i, j], want)
            S.eq(f"{tag}squared distance {i}{j}", dist[i, j] * dist[i, j] * (1 - lo), 1 - want)
            S.le(f"{tag}distance is positive {i}{j}", 0, dist[i, j])


SHAPES = [(False, 1), (True, 1), (False, 2), (False, 3), (True, 3), (True, 2)]

for _abs, _pow in SHAPES:

    @case("C25", f"Pearson, absolute {_abs}, power {_pow}", points=4)
    def _(S, absolute=_abs, power=_pow):
        # unit vectors of the plane orthogonal to the constant: correlation (1-t^2)/(1+t^2)
        t = S.real("t", -3, 3)
        m = S.real("level", -1, 1)
        u, v = [1, -1, 1, -1], [1, 1, -1, -1]
        c, s = 1 - t * t, 2 * t
        X = S.array([[u[k], c * u[k] + s * v[k] + m] for k in range(4)])
        model = PearsonDistance(absolute=absolute, power=power).fit(X)
        r = c / (1 + t * t)
        claims(S, model, [[1, r], [r, 1]], power, absolute)


class _Corr:
    """Rank correlations of columns without ties."""

    def __init__(self, X):
        self.X = SymArray(X)

    def corr(self, method="pearson"):
        n, k = self.X.shape
        out = np.empty((k, k), dtype=object)
        for i in range(k):
            for j in range(k):
                a, b = list(self.X[:, i]), list(self.X[:, j])
                if method == "kendall":
                    out[i, j] = kendall(a, b) if i != j else 1
                elif method == "spearman":
                    out[i, j] = spearman(a, b) if i != j else 1
                else:
                    raise NotImplementedError(method)
        return _Frame(out)


class _Frame:
    def __init__(self, x):
        self.x = x
        self.values = SymArray(x)

    def to_numpy(self):
        return SymArray(self.x)


def kendall(a, b):
    from fractions import Fraction

    n, total = len(a), 0
    for p, q in itertools.combinations(range(n), 2):
        total = total + (1 if bool(a[p] < a[q]) == bool(b[p] < b[q]) else -1)
    return total * Fraction(2, n * (n - 1))


def spearman(a, b):
    from fractions import Fraction

    n, total = len(a), 0
    for p in range(n):
        ra = sum((int(bool(a[q] < a[p])) for q in range(n) if q != p), 0)
        rb = sum((int(bool(b[q] < b[p])) for q in range(n) if q != p), 0)
        total = total + (ra - rb) * (ra - rb)
    return 1 - total * Fraction(6, n * (n * n - 1))


def rank_extra():
    def frame(data=None, *a, **k):
        return _Corr(data) if has_sym(data) else pd.DataFrame(data, *a, **k)

    return {pd: _Mod(pd, {"DataFrame": frame}, wrap=False)}


for _kind, _cls in (("Kendall", KendallDistance), ("Spearman", SpearmanDistance)):
    for _abs, _pow in SHAPES[:5]:

        @case("C25", f"{_kind}, absolute {_abs}, power {_pow}", points=4, extra=rank_extra, max_paths=200)
        def _(S, kind=_kind, cls=_cls, absolute=_abs, power=_pow):
            n = 4
            x = [0, 2, 1, 3]
            y = [S.real(f"y{k}", -2, 2) for k in range(n)]
            for p, q in itertools.combinations(range(n), 2):
                S.assume(S.any([y[p] - y[q] >= S.frac(1, 100), y[q] - y[p] >= S.frac(1, 100)]))
            model = cls(absolute=absolute, power=power).fit(S.array([[x[k], y[k]] for k in range(n)]))
            # pairs in the same order, or rank differences
            r = (kendall if kind == "Kendall" else spearman)(x, y)
            claims(S, model, [[1, r], [r, 1]], power, absolute)


class FixedCovariance(BaseCovariance):
    def __init__(self, key="cov"):
        self.key = key

    def fit(self, X, y=None):
        DATA["seen"] = X
        self.covariance_ = DATA[self.key]
        return self


for _abs, _pow in SHAPES:

    @case("C25", f"covariance, absolute {_abs}, power {_pow}", points=4)
    def _(S, absolute=_abs, power=_pow):
        n = 3 if power == 1 else 2
        sd = [S.real(f"sd{i}", S.frac(1, 8), 4) for i in range(n)]
        r = [[1] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                r[i][j] = r[j][i] = S.real(f"r{j}{i}", -1, 1)
        DATA["cov"] = S.array([[sd[i] * sd[j] * r[i][j] for j in range(n)] for i in range(n)])
        X = S.array([[S.real(f"x{i}{k}", -1, 1) for i in range(n)] for k in range(2)])
        model = CovarianceDistance(covariance_estimator=FixedCovariance(), absolute=absolute, power=power).fit(X)
        claims(S, model, r, power, absolute)


def distance_extra():
    def pdist(x, *a, **k):
        if not has_sym(x):
            return scd.pdist(x, *a, **k)
        x = SymArray(x)
        assert x.shape[1] == 1
        return SymArray([abs(x[i, 0] - x[j, 0]) for i in range(len(x)) for j in range(i + 1, len(x))])

    def squareform(x, *a, **k):
        if not has_sym(x):
            return scd.squareform(x, *a, **k)
        n = next(k for k in range(2, 99) if k * (k - 1) // 2 == len(x))
        out = [[0] * n for _ in range(n)]
        for k, (i, j) in enumerate(itertools.combinations(range(n), 2)):
            out[i][j] = out[j][i] = x[k]
        return SymArray(out)

    return {scd: _Mod(scd, {"pdist": pdist, "squareform": squareform}, wrap=False)}


def centred(S, x):
    n = len(x)
    d = [[abs(a - b) for b in x] for a in x]
    row = [S.sum(r) / n for r in d]
    total = S.sum(row) / n
    return [[d[i][j] - row[i] - row[j] + total for j in range(n)] for i in range(n)]


def inner(S, a, b):
    return S.sum(x * y for r, q in zip(a, b, strict=True) for x, y in zip(r, q, strict=True))


for _x, _free in (([0, 1, 3], 1), ([0, 1, 3], 2), ([2, 0, 1, 5], 1)):

    @case("C25", f"distance correlation, {len(_x)} observations, {_free} free", points=4, extra=distance_extra)
    def _(S, x=_x, free=_free):
        y = [S.real(f"y{k}", -2, 2) if k < free else k for k in range(len(x))]
        model = DistanceCorrelation().fit(S.array([[a, b] for a, b in zip(x, y, strict=True)]))
        A, B = centred(S, x), centred(S, y)
        r = model.codependence_[0, 1]
        S.eq("fourth power", r * r * r * r * inner(S, A, A) * inner(S, B, B), inner(S, A, B) * inner(S, A, B))
        S.le("positive", 0, r)
        d = model.distance_[0, 1]
        near(S, "squared distance", d * d, S.max(1 - r, 0), tol=1e-6)
        S.eq("symmetric", [model.codependence_[1, 0], model.distance_[1, 0]], [r, d])
        S.eq("own", [model.codependence_[0, 0], model.distance_[0, 0]], [1, 0])


@case("C25", "distance correlation, independent samples", points=12, extra=distance_extra)
def _(S):
    a, b = S.real("a", -1, 1), S.real("b", -1, 1)
    S.assume(S.any([a - b >= S.frac(1, 8), b - a >= S.frac(1, 8)]))
    p, q, r = 0.0081, 0.0068, -0.0175
    x = [p, p, q, q, r, r]
    y = [a, b] * 3
    model = DistanceCorrelation().fit(S.array([[u, v] for u, v in zip(x, y, strict=True)]))
    near(S, "codependence", model.codependence_[0, 1], 0, tol=1e-6)
    near(S, "distance", model.distance_[0, 1], 1, tol=1e-6)
    # the sum over independent samples may be rounded below zero
    for e in (0.01, 0.02):
        X = np.c_[np.repeat([0.01, 0.04, -0.03], 2), np.tile([0.03, e], 3)]
        near(S, f"rounded distance {e}", float(DistanceCorrelation().fit(X).distance_[0, 1]), 1, tol=1e-6)


def bins(x, n):
    lo, hi = min(x), max(x)
    if lo == hi:
        return [min(n // 2, n - 1)] * len(x)
    out = []
    for v in x:
        k = 0
        while k < n - 1 and not v * n < lo * n + (hi - lo) * (k + 1):
            k += 1
        out.append(k)
    return out


def entropy(items):
    n = len(items)
    return -sum(items.count(k) / n * math.log(items.count(k) / n) for k in set(items))


for _n, _norm in itertools.product((2, 3), (True, False)):

    @case("C25", f"mutual information, {_n} bins, normalized {_norm}", points=6, max_paths=2000)
    def _(S, n=_n, normalize=_norm):
        x = [0, 1, 3, 4, 6]
        y = [S.real(f"y{k}", -2, 2) if k < 3 else [1, -1][k - 3] for k in range(5)]
        model = MutualInformation(n_bins=n, normalize=normalize).fit(S.array([[a, b] for a, b in zip(x, y, strict=True)]))
        p, q = bins(x, n), bins(y, n)
        hx, hy, hxy = entropy(p), entropy(q), entropy(list(zip(p, q, strict=True)))
        info = hx + hy - hxy
        code, dist = model.codependence_, model.distance_
        near(S, "codependence", code[0, 1], info / min(hx, hy) if normalize else info, tol=1e-9)
        gap = max(0.0, hx + hy - 2 * info)
        near(S, "distance", dist[0, 1], gap / (hx + hy - info) if normalize else gap, tol=1e-9)
        S.eq("symmetric", [code[1, 0], dist[1, 0]], [code[0, 1], dist[0, 1]])
        near(S, "own distance", [dist[0, 0], dist[1, 1]], [0, 0], tol=1e-9)
        near(S, "own information", [code[0, 0], code[1, 1]], [1, 1] if normalize else [hx, hy], tol=1e-9)


@case("C25", "number of bins", points=6, max_paths=500)
def _(S):
    x = [0, S.real("low", 0, 1), 2, S.real("middle", 2, 3), 4, S.real("upper", 4, 8), 8, S.real("top", 8, 12)]
    k = n_bins_freedman(S.array([x[i] for i in (3, 1, 0, 7, 2, 6, 5, 4)]))
    # quartiles of 8 values by linear interpolation; the cube root of 8 is 2
    q1 = x[1] + (x[2] - x[1]) * S.frac(3, 4)
    q3 = x[5] + (x[6] - x[5]) * S.frac(1, 4)
    width = q3 - q1
    S.le("wide enough", x[7] - x[0], k * width + 1e-9)
    S.le("no bin too many", (k - 1) * width, x[7] - x[0] + 1e-9)


for _first in (True, False):

    @case("C25", f"bins of the wider asset, {'first' if _first else 'last'}", points=4, max_paths=500, tiers=("quick", "thorough"))
    def _(S, first=_first):
        """Without a given number the pair uses the larger of the two numbers of bins."""
        v = S.real("v", 8, 40)
        x = [0, 1, 2, 3, 4, 5, 6, v]
        y = [0, 5, 1, 7, 3, 2, 6, 4]
        if not first:
            x, y = y, x
        X = S.array([[a, b] for a, b in zip(x, y, strict=True)])
        k = max(int(n_bins_freedman(X[:, 0])), int(n_bins_freedman(X[:, 1])))
        model = MutualInformation(n_bins_method=NBinsMethod.FREEDMAN).fit(X)
        p, q = bins(x, k), bins(y, k)
        hx, hy, hxy = entropy(p), entropy(q), entropy(list(zip(p, q, strict=True)))
        info = hx + hy - hxy
        near(S, "distance", model.distance_[0, 1], (hx + hy - 2 * info) / (hx + hy - info), tol=1e-9)
