"""C27: denoised, detoned, repaired and implied covariances keep what they document."""

import importlib

import numpy as np
import sklearn.base as skb
from skfolio.moments import (
    DenoiseCovariance,
    DetoneCovariance,
    ImpliedCovariance,
)
from skfolio.moments.covariance import BaseCovariance
from skfolio.utils.stats import corr_to_cov, cov_nearest, cov_to_corr

from checks.common import REAL, div, mean
from symx import arr, core, patch
from symx.harness import case
from symx.patch import _Mod

META = {
    "bounds": "denoise, detone, repair: 4 assets, fixed orthonormal eigenvectors, every eigenvalue and standard deviation (2 assets: every correlation); implied: 2 assets, 9 to 11 observations, every correlation, return and volatility",
    "outside": "other eigenvectors; the value found by the numerical fit of the noise variance (its objective and the use of its result are checked); Higham's iteration",
    "assumptions": [
        REAL,
        "the spectral decomposition is given to the code and proved to be one; the numerical minimiser, the kernel density and the regression are replaced by stand-ins (in the replay too, the density excepted)",
    ],
}
H = [[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]  # rows: assets
DATA = {}


class FixedCov(BaseCovariance):
    def __init__(self, key="x", nearest=False):
        super().__init__(nearest=nearest)
        self.key = key

    def fit(self, X, y=None, **k):
        self.covariance_ = DATA[self.key]
        return self


def given_spectrum(S, low=0, total=4, lam=None, sd=None):
    """4 eigenvalues (ascending), standard deviations, covariance; hooks the decomposition."""
    if lam is None:
        lam = [S.real(f"lam{k}", low, total) for k in range(3)]
        lam.append(total - S.sum(lam))
        for k in range(3):
            S.assume(lam[k] + S.frac(1, 64) <= lam[k + 1])
    if sd is None:
        sd = [S.real(f"sd{i}", S.frac(1, 64), 4) for i in range(4)]
    corr = spectral(S, lam)
    DATA["x"] = S.array([[sd[i] * sd[j] * corr[i][j] for j in range(4)] for i in range(4)])
    if S.symbolic:

        def eigh(M):
            S.eq("the decomposition is one", M, corr)
            return S.array(lam), S.array([[S.frac(h, 2) for h in row] for row in H])

        arr.EIGH[0] = eigh
    return lam, sd


def spectral(S, lam):
    return [[S.sum(lam[k] * H[i][k] * H[j][k] for k in range(4)) * S.frac(1, 4) for j in range(4)] for i in range(4)]


def rescaled(S, lam, sd):
    r = spectral(S, lam)
    return [[sd[i] * sd[j] * r[i][j] / r[0][0] for j in range(4)] for i in range(4)]


def done():
    arr.EIGH[0] = None


X4 = np.arange(64).reshape(16, 4) / 64.0

for m in (1, 2, 3):

    @case("C27", f"detone, {m} markets", points=3)
    def _(S, m=m):
        lam, sd = given_spectrum(S)
        S.assume(lam[0] >= S.frac(1, 64))
        try:
            c = DetoneCovariance(covariance_estimator=FixedCov(), n_markets=m, nearest=False).fit(X4).covariance_
        finally:
            done()
        S.eq("covariance without the market", c, rescaled(S, [*lam[: 4 - m], *([0] * m)], sd))


den = importlib.import_module("skfolio.moments.covariance._denoise_covariance")
NOISE = [None]


def minimize(fun, x0, bounds=None, **k):
    if callable(NOISE[0]):
        return NOISE[0](fun, x0, bounds)
    return {"x": np.array([NOISE[0]], dtype=object if isinstance(NOISE[0], core.SymReal) else float)}


class stub:
    """Replace the minimiser (and the resolution of the grid) for one concrete run."""

    def __init__(self, S):
        self.S = S

    def __enter__(self):
        if not self.S.symbolic:
            self.old = den.sco.minimize
            den.sco.minimize = minimize
        return self

    def __exit__(self, *a):
        done()
        NOISE[0] = None
        if not self.S.symbolic:
            den.sco.minimize = self.old


def noise_extra():
    return {den.sco: _Mod(den.sco, {"minimize": minimize}, wrap=False)}


for q, root in ((4, 2), (16, 4)):

    @case("C27", f"denoise, {q} observations per asset", points=6, extra=noise_extra)
    def _(S, q=q, root=root):
        lam, sd = given_spectrum(S, sd=[S.frac(1, 2), 1, 2, S.frac(3, 2)])
        v = S.real("noise variance", S.frac(1, 64), 1)
        top = v * S.frac((root + 1) ** 2, root**2)
        S.assume(lam[0] >= S.frac(1, 64))
        S.assume(lam[0] < top)  # at least one noise eigenvalue
        for k in range(4):
            S.assume((lam[k] - top) * (lam[k] - top) >= S.frac(1, 2**20))
        NOISE[0] = v
        with stub(S):
            c = (
                DenoiseCovariance(covariance_estimator=FixedCov(), nearest=False)
                .fit(np.arange(16.0 * q).reshape(4 * q, 4))
                .covariance_
            )
        n = S.sum(S.ite(x < top, 1, 0) for x in lam)
        s = S.sum(S.ite(x < top, x, 0) for x in lam)
        S.eq("noise eigenvalues averaged, signal kept", c, rescaled(S, [S.ite(x < top, s / n, x) for x in lam], sd))


def density(S, x, lam):
    """Gaussian kernel density of the eigenvalues (an arbitrary function for the solver)."""
    if S.symbolic:
        return core.uf("density", x)
    h = 0.01
    return sum(np.exp(-(((x - float(e)) / h) ** 2) / 2) for e in lam) / (len(lam) * h * np.sqrt(2 * np.pi))


GRID = 3
LINSPACE = np.linspace


def coarse(a, b, num=50, **k):
    return LINSPACE(a, b, GRID if num >= 100 else num, **k)


class Density:
    def __init__(self, bandwidth=1.0, kernel="gaussian", **k):
        self.how = (bandwidth, kernel)

    def fit(self, X, y=None):
        S, lam = CURRENT
        assert self.how == (0.01, "gaussian")
        S.eq("eigenvalues of the density", sorted(np.asarray(X, dtype=object).reshape(-1)), lam)
        return self

    def score_samples(self, X):
        S, lam = CURRENT
        r = np.empty(len(X), dtype=object)
        for i, x in enumerate(np.asarray(X, dtype=object).reshape(-1)):
            r[i] = S.log(density(S, x, lam))
        return arr.wrap(r)


CURRENT = [None, None]


def objective_extra():
    return {
        den.sco: _Mod(den.sco, {"minimize": minimize}, wrap=False),
        den.skn: _Mod(den.skn, {"KernelDensity": Density}, wrap=False),
    }


@case("C27", "objective of the noise variance", points=3, extra=objective_extra)
def _(S):
    lam = [S.frac(1, 4), S.frac(1, 2), S.frac(3, 4), S.frac(5, 2)]
    given_spectrum(S, lam=lam, sd=[S.frac(1, 2), 1, 2, S.frac(3, 2)])
    CURRENT[:] = [S, lam]
    v = S.real("variance", S.frac(1, 8), S.frac(7, 8))
    got = []

    def record(fun, x0, bounds):
        patch.COARSE[0] = GRID
        np.linspace = np.linspace if S.symbolic else coarse
        try:
            got.append(fun(S.array([v])))
        finally:
            np.linspace = LINSPACE
            patch.COARSE[0] = None
        return {"x": np.array([0.75])}

    NOISE[0] = record
    with stub(S):
        DenoiseCovariance(covariance_estimator=FixedCov(), nearest=False).fit(np.arange(64.0).reshape(16, 4))
    lo, hi = v * S.frac(1, 4), v * S.frac(9, 4)
    s = []
    for t in range(GRID):
        e = lo + (hi - lo) * S.frac(t, GRID - 1)
        root = v * S.frac(*((1, 1) if t == 1 else (0, 1)))  # sqrt((hi - e) (e - lo)) on this grid
        pdf = 4 / (2 * float(np.pi) * v * e) * root
        s.append((density(S, e, lam) - pdf) * (density(S, e, lam) - pdf))
    S.eq("squared distance between the densities", got[0], S.sum(s))


for n in (2, 3):

    @case("C27", f"covariance and correlation round trip, {n} assets", points=3)
    def _(S, n=n):
        sd = [S.real(f"sd{i}", S.frac(1, 64), 4) for i in range(n)]
        r = [[None] * n for _ in range(n)]
        for i in range(n):
            r[i][i] = S.frac(1, 1)
            for k in range(i):
                r[i][k] = r[k][i] = S.real(f"r{i}{k}", -1, 1)
        cov = [[sd[i] * sd[k] * r[i][k] for k in range(n)] for i in range(n)]
        given = S.array(cov)
        corr, std = cov_to_corr(given)
        S.eq("standard deviations", std, sd)
        S.eq("correlations", corr, r)
        S.eq("covariance", corr_to_cov(corr, std), cov)
        S.eq("the covariance given is unchanged", given, cov)


@case("C27", "repair, 2 assets", points=4)
def _(S):
    sd = [S.real(f"sd{i}", S.frac(1, 64), 4) for i in range(2)]
    r = S.real("r", -2, 2)
    S.assume(S.any([r <= S.frac(-65, 64), S.all([r >= S.frac(-63, 64), r <= S.frac(63, 64)]), r >= S.frac(65, 64)]))
    cov = [[sd[0] * sd[0], r * sd[0] * sd[1]], [r * sd[0] * sd[1], sd[1] * sd[1]]]
    if S.symbolic:
        h = S.sqrt(S.frac(1, 2))

        def eigh(M):
            S.eq("the decomposition is one", M, [[1, r], [r, 1]])
            if r >= 0:
                return S.array([1 - r, 1 + r]), S.array([[h, h], [-h, h]])
            return S.array([1 + r, 1 - r]), S.array([[h, h], [h, -h]])

        arr.EIGH[0] = eigh
    try:
        out = cov_nearest(S.array(cov))
    finally:
        done()
    S.eq("variance 0", out[0, 0], cov[0][0])
    S.eq("variance 1", out[1, 1], cov[1][1])
    S.eq("symmetric", out[0, 1], out[1, 0])
    gap = out[0, 1] - S.max([S.min([r, 1]), -1]) * sd[0] * sd[1]
    S.le("correlation clipped (above)", gap, 1e-9)
    S.le("correlation clipped (below)", -gap, 1e-9)


@case("C27", "repair, 4 assets", points=3)
def _(S):
    a = S.real("a", S.frac(1, 64), 1)
    lam = [-a, S.frac(1, 2), 1, a + S.frac(5, 2)]
    lam, sd = given_spectrum(S, lam=lam, sd=[S.frac(1, 2), 1, 2, S.frac(3, 2)])
    try:
        out = cov_nearest(DATA["x"])
    finally:
        done()
    want = rescaled(S, [0, *lam[1:]], sd)
    for i in range(4):
        S.eq(f"variance {i}", out[i, i], want[i][i])
        for j in range(i):
            S.eq(f"symmetric {i} {j}", out[i, j], out[j, i])
            S.le(f"negative eigenvalue removed {i} {j} (above)", out[i, j] - want[i][j], 1e-9)
            S.le(f"negative eigenvalue removed {i} {j} (below)", want[i][j] - out[i, j], 1e-9)


# ---------------------------------------------------------------- implied volatilities


def pair(S):
    sd = [S.real(f"sd{i}", S.frac(1, 64), 4) for i in range(2)]
    r = S.real("corr", S.frac(-63, 64), S.frac(63, 64))
    DATA["x"] = S.array([[sd[0] * sd[0], r * sd[0] * sd[1]], [r * sd[0] * sd[1], sd[1] * sd[1]]])
    return r


def out_of(r, v):
    return [[v[0] * v[0], r * v[0] * v[1]], [r * v[0] * v[1], v[1] * v[1]]]


X2 = np.arange(10).reshape(5, 2) / 16.0

for kind in ("number", "array", "names", "swapped names", "extra column"):
    for nearest in (False, True):

        @case("C27", f"implied, premium as {kind}, nearest {nearest}", points=3)
        def _(S, kind=kind, nearest=nearest):
            r = pair(S)
            iv = [[S.real(f"iv{t}{i}", S.frac(1, 64), 4) for i in range(2)] for t in range(5)]
            if kind == "number":
                p = S.real("premium", S.frac(1, 4), 4)
                ps, arg = [p, p], p
            elif kind == "array":
                ps = [S.real(f"premium{i}", S.frac(1, 4), 4) for i in range(2)]
                arg = S.array(ps)
            else:
                ps, arg = [1.5, 0.75], {"b": 0.75, "a": 1.5}
            X, given, rows = X2, None, [list(x) for x in iv]
            if kind in ("names", "swapped names", "extra column"):
                X = S.frame([list(map(float, x)) for x in X2], columns=["a", "b"])
                cols = ["a", "b"]
                if kind == "swapped names":
                    cols, rows = ["b", "a"], [x[::-1] for x in iv]
                if kind == "extra column":
                    cols, rows = ["b", "z", "a"], [[x[1], 9.0, x[0]] for x in iv]
                given = S.frame(rows, columns=cols)
            else:
                given = S.array(iv)
            e = ImpliedCovariance(
                prior_covariance_estimator=FixedCov(), volatility_risk_premium_adj=arg, nearest=nearest, annualized_factor=256
            )
            e.fit(X, implied_vol=given)
            vol = [iv[-1][i] / ps[i] / 16 for i in range(2)]
            S.eq("volatilities", e.pred_realised_vols_, vol)
            S.eq("covariance", e.covariance_, out_of(r, vol))
            S.eq("the volatilities given are unchanged", given if given is None else np.asarray(given), rows)


@case("C27", "implied, default annualization", points=3)
def _(S):
    r = pair(S)
    iv = [[S.real(f"iv{t}{i}", S.frac(1, 64), 4) for i in range(2)] for t in range(5)]
    e = ImpliedCovariance(prior_covariance_estimator=FixedCov(), volatility_risk_premium_adj=2, nearest=False)
    c = e.fit(X2, implied_vol=S.array(iv)).covariance_
    want = out_of(r, iv[-1])
    for i in range(2):
        for j in range(2):
            gap = c[i, j] - want[i][j] / 1008
            S.le(f"covariance {i} {j} (above)", gap, 1e-9)
            S.le(f"covariance {i} {j} (below)", -gap, 1e-9)


@case("C27", "implied, unusable volatilities refused", points=4)
def _(S):
    pair(S)
    v = S.real("iv", -1, 1)
    t = int(S.int("row", 0, 4))
    p = S.real("premium", -1, 1)
    S.assume(S.any([v < 0, v >= S.frac(1, 64)]))
    iv = [[1.0, 2.0] for _ in range(5)]
    iv[t][1] = v
    e = ImpliedCovariance(prior_covariance_estimator=FixedCov(), volatility_risk_premium_adj=p, nearest=False)
    _, exc = S.attempt(lambda: e.fit(X2, implied_vol=S.array(iv)))
    S.true("refused exactly when negative", (exc == "ValueError") == S.any([v < 0, p <= 0]) if not S.symbolic else S.any([v < 0, p <= 0]) if exc == "ValueError" else S.all([v >= 0, p > 0]) if exc is None else False)


class Watched(skb.BaseEstimator):
    """A linear regression with given coefficients that records its training data."""

    seen = []

    def fit(self, X, y):
        Watched.seen.append((X, y))
        self.coef_ = np.array([0.5, 0.25])
        self.intercept_ = 0.125
        return self

    def predict(self, X):
        return X @ self.coef_ + self.intercept_


imp = importlib.import_module("skfolio.moments.covariance._implied_covariance")


def imp_extra():
    return {imp.sks: _Mod(imp.sks, {"r2_score": lambda a, b: 0.0}, wrap=False)}


for T, w in ((9, 3), (11, 3), (13, 4)):

    @case("C27", f"implied, regression, {T} observations, window {w}", points=3, extra=imp_extra)
    def _(S, T=T, w=w):
        r = pair(S)
        rng = np.random.RandomState(T)
        x = [[float(v) / 8 for v in row] for row in rng.randint(-8, 8, (T, 2))]
        for k, t in enumerate((T - 1, T - w - 1, T - 2 * w - 1)):
            x[t][0] = S.real(f"x{t}", 2, 4)
            if T % w:
                x[0][1] = S.real("x unused", -1, 1)
        iv = [[S.real(f"iv{t}{i}", S.frac(1, 64), 4) for i in range(2)] for t in range(T)]
        n = T // w
        vol, want = [], []
        for i in range(2):
            rv, lv = [], []
            for f in range(n):
                end = T - (n - 1 - f) * w
                chunk = [x[t][i] for t in range(end - w, end)]
                m = mean(S, chunk)
                rv.append(S.log(S.sqrt(div(S, S.sum((v - m) * (v - m) for v in chunk), w - 1))))
                lv.append(S.log(iv[end - 1][i] / 16))
            want.append(([[lv[f], rv[f]] for f in range(n - 1)], rv[1:]))
            vol.append(S.exp(lv[-1] / 2 + rv[-1] / 4 + S.frac(1, 8)))
            S.assume(vol[i] >= S.frac(1, 2**20))
        Watched.seen = []
        e = ImpliedCovariance(
            prior_covariance_estimator=FixedCov(), linear_regressor=Watched(), window_size=w, nearest=False, annualized_factor=256
        )
        e.fit(S.array(x), implied_vol=S.array(iv))
        for i in range(2):
            S.eq(f"training inputs {i}", Watched.seen[i][0], want[i][0])
            S.eq(f"training outputs {i}", Watched.seen[i][1], want[i][1])
        S.eq("volatilities", e.pred_realised_vols_, vol)
        S.eq("covariance", e.covariance_, out_of(r, vol))
