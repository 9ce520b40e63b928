"""C36: information criteria, model selection and tail concentration."""

import types

import numpy as np
from skfolio.distribution import (
    BaseBivariateCopula,
    ClaytonCopula,
    CopulaRotation,
    Gaussian,
    GaussianCopula,
    GumbelCopula,
    IndependentCopula,
    JoeCopula,
    JohnsonSU,
    NormalInverseGaussian,
    SelectionCriterion,
    StudentT,
    StudentTCopula,
    compute_pseudo_observations,
    empirical_tail_concentration,
    select_bivariate_copula,
    select_univariate_dist,
)
from skfolio.distribution.univariate import BaseUnivariateDist

from checks.common import REAL, count, replaced
from symx.harness import case

META = {
    "bounds": "2 to 3 candidates with every log-likelihood and 1 to 3 parameters, 2 to 4 observations; every p-value and level of the independence test; every likelihood and parameter found in each rotation, with or without failures; 3 to 4 pseudo-observations and every quantile",
    "outside": "the numerical maximisation of the likelihood and the fits of the data library (stand-ins return arbitrary results); tied observations",
    "assumptions": [REAL, "the logarithm of the (fixed) number of observations is the library's number"],
}
AIC, BIC = SelectionCriterion.AIC, SelectionCriterion.BIC
LL = {}


class StubCopula(BaseBivariateCopula):
    """Copula with a given total log-likelihood and number of parameters."""

    def __init__(self, key="a", k=1, itau=True, kendall_tau=None, tolerance=1e-4, random_state=None):
        self.key = key
        self.k = k
        self.itau = itau
        self.kendall_tau = kendall_tau
        self.tolerance = tolerance
        self.random_state = random_state

    @property
    def n_params(self):
        return self.k

    @property
    def lower_tail_dependence(self):
        return 0

    @property
    def upper_tail_dependence(self):
        return 0

    @property
    def fitted_repr(self):
        return self.key

    def fit(self, X, y=None):
        self.theta_ = 1
        self.tau_ = self.kendall_tau
        LL.setdefault("fits", []).append(self.key)
        return self

    def cdf(self, X):
        return X[:, 0]

    def partial_derivative(self, X, first_margin=False):
        return X[:, 0]

    def inverse_partial_derivative(self, X, first_margin=False):
        return X[:, 0]

    def score_samples(self, X):
        return LL["array"](LL[self.key])


class StubDist(BaseUnivariateDist):
    _scipy_model = None

    def __init__(self, key="a", k=1, random_state=None):
        self.key = key
        self.k = k
        self.random_state = random_state

    @property
    def _scipy_params(self):
        return {f"p{i}": 0 for i in range(self.k)}

    def fit(self, X, y=None):
        self.fitted_ = True
        return self

    def score_samples(self, X):
        return LL["array"](LL[self.key])


def criterion(S, kind, total, k, n):
    return 2 * k - 2 * total if kind is AIC else k * logn(S, n) - 2 * total


def logn(S, n):
    return float(np.log(n))  # a constant of the run, as the number of observations is fixed


def likelihoods(S, keys, n):
    LL.clear()
    LL["array"] = S.array
    for key in keys:
        LL[key] = [S.real(f"ll_{key}{t}", -50, 50) for t in range(n)]


for _kind in (AIC, BIC):
    for _ks in ((1, 1), (1, 3), (3, 1), (2, 1, 2), (1, 2, 3)):

        @case("C36", f"{_kind.name}, parameters {_ks}", points=3)
        def _(S, kind=_kind, ks=_ks):
            n, keys = 3, "abc"[: len(ks)]
            likelihoods(S, keys, n)
            X = np.array([[0.25, 0.5], [0.5, 0.75], [0.75, 0.25]])
            want = [criterion(S, kind, S.sum(LL[key]), k, n) for key, k in zip(keys, ks, strict=True)]
            for i in range(len(ks)):
                for j in range(i):
                    S.assume(S.any([want[i] - want[j] >= S.frac(1, 100), want[j] - want[i] >= S.frac(1, 100)]))
            name = "aic" if kind is AIC else "bic"
            for stub, data in ((StubCopula, X), (StubDist, X[:, :1])):
                cands = [stub(key, k) for key, k in zip(keys, ks, strict=True)]
                for c, v in zip(cands, want, strict=True):
                    S.eq(f"{stub.__name__} score {c.key}", c.fit(data).score(data), S.sum(LL[c.key]))
                    S.eq(f"{stub.__name__} criterion {c.key}", getattr(c, name)(data), v)
                fresh = [stub(key, k) for key, k in zip(keys, ks, strict=True)]
                if stub is StubCopula:
                    got = select_bivariate_copula(data, copula_candidates=fresh, selection_criterion=kind, independence_level=0)
                    S.true("independent without rejection", isinstance(got, IndependentCopula))
                    got = select_bivariate_copula(data, copula_candidates=fresh, selection_criterion=kind, independence_level=2)
                else:
                    got = select_univariate_dist(data, distribution_candidates=fresh, selection_criterion=kind)
                i = keys.index(got.key)
                for j in range(len(ks)):
                    S.le(f"{stub.__name__} lowest {j}", want[i], want[j])
                S.true("candidates not fitted", not any(hasattr(c, "theta_") or hasattr(c, "fitted_") for c in fresh) and all(got is not c for c in fresh))


@case("C36", "independence test", points=4)
def _(S):
    p, level = S.real("p", 0, 1), S.real("level", 0, 1)
    tau = S.real("tau", -1, 1)
    likelihoods(S, "a", 2)
    X = np.array([[0.25, 0.5], [0.5, 0.75]])
    seen = []

    def test(x, y, *a, **k):
        seen.append((x, y))
        return _Result(tau, p)

    with replaced("scipy.stats.kendalltau", test):
        got = select_bivariate_copula(X, copula_candidates=[StubCopula("a")], independence_level=level)
    S.true("independent exactly when not rejected", bool(p >= level) == isinstance(got, IndependentCopula))
    S.true("on the data", all(np.array_equal(u, v) for u, v in zip(seen[0], X.T, strict=True)))
    if isinstance(got, StubCopula):
        S.eq("tau handed on", got.kendall_tau, tau)


class _Result(tuple):
    def __new__(cls, statistic, pvalue):
        return super().__new__(cls, (statistic, pvalue))

    statistic = property(lambda s: s[0])
    pvalue = property(lambda s: s[1])
    correlation = statistic


@case("C36", "refused candidates", points=1)
def _(S):
    X = np.array([[0.1, 0.15], [0.2, 0.25], [0.3, 0.35], [0.4, 0.5], [0.6, 0.7], [0.8, 0.9]])
    for bad in ("copula", Gaussian()):
        S.true(f"copula {type(bad).__name__}", S.attempt(lambda bad=bad: select_bivariate_copula(X, copula_candidates=[bad]))[1] == "ValueError")
    S.true("distribution", S.attempt(lambda: select_univariate_dist(X[:, :1], distribution_candidates=[GaussianCopula()]))[1] == "ValueError")
    S.true("one column", S.attempt(lambda: select_bivariate_copula(X[:, :1]))[1] == "ValueError")
    S.true("two columns", S.attempt(lambda: select_univariate_dist(X))[1] == "ValueError")
    S.eq("checked", S.real("z", 0, 1) * 0, 0)


@case("C36", "number of parameters", points=1)
def _(S):
    X = np.array([[0.1, 0.3], [0.2, 0.25], [0.3, 0.35], [0.4, 0.2], [0.6, 0.7], [0.8, 0.9]])
    with replaced("scipy.optimize.minimize_scalar", lambda f, *a, bounds=None, **k: types.SimpleNamespace(success=True, fun=0.0, x=(bounds[0] + bounds[1]) / 2)):
        for c, k in ((GaussianCopula(), 1), (StudentTCopula(), 2), (ClaytonCopula(), 1), (GumbelCopula(), 1), (JoeCopula(), 1), (IndependentCopula(), 0)):
            S.true(type(c).__name__, c.fit(X).n_params == k)
    for d, k in ((Gaussian(), 2), (StudentT(), 3), (JohnsonSU(), 4), (NormalInverseGaussian(), 4)):
        for a in ("loc", "scale", "dof", "a", "b"):
            setattr(d, a + "_", 1.0)
        S.true(type(d).__name__, d.n_params == k)
    S.eq("checked", S.real("z", 0, 1) * 0, 0)


for _cls in (ClaytonCopula, GumbelCopula, JoeCopula):

    @case("C36", f"rotation and parameter of the largest likelihood, {_cls.__name__}", points=4, max_paths=300)
    def _(S, cls=_cls):
        X = np.array([[0.25, 0.5], [0.5, 0.75], [0.625, 0.125]])
        nll = [S.real(f"nll{i}", -5, 5) for i in range(4)]
        theta = [S.real(f"theta{i}", 2, 5) for i in range(4)]
        good = [bool(S.bool(f"ok{i}")) for i in range(4)]
        for i in range(4):
            for j in range(i):
                S.assume(S.any([nll[i] - nll[j] >= S.frac(1, 100), nll[j] - nll[i] >= S.frac(1, 100)]))
        rot = list(CopulaRotation)
        probe = []  # likelihood of each rotation at a fixed parameter, through the public interface
        for r in rot:
            c = cls(itau=True).fit(X)
            c.rotation_, c.theta_ = r, 2.5
            probe.append(float(c.score(X)))

        def minimise(f, *a, args=(), bounds=None, **k):
            here = float(f(2.5, *args))
            i = min(range(4), key=lambda i: abs(here + probe[i]))
            return types.SimpleNamespace(success=good[i], fun=nll[i], x=theta[i], message="")

        est = cls(itau=False)
        with replaced("scipy.optimize.minimize_scalar", minimise):
            _, e = S.attempt(lambda: est.fit(X))
        if not any(good):
            S.true("refused when nothing was found", e == "RuntimeError")
            return
        S.true("fitted", e is None)
        best = rot.index(est.rotation_)
        S.true("a successful one", good[best])
        S.eq("its parameter", est.theta_, theta[best])
        for j in range(4):
            if good[j]:
                S.le(f"largest likelihood {j}", nll[best], nll[j])


def cells(S, T):
    return [[S.real(f"u{t}{i}", 0, 1) for i in range(2)] for t in range(T)]


for _T in (2, 3):

    @case("C36", f"empirical tail concentration, {_T} observations", points=6, max_paths=3000)
    def _(S, T=_T):
        u = cells(S, T)
        q = S.real("q", 0, 1)
        got = empirical_tail_concentration(S.array(u), S.array([q]))[0]
        low = q <= S.frac(1, 2)
        if bool(low):
            a, b = count(S, [r[0] <= q for r in u]), count(S, [S.all([r[0] <= q, r[1] <= q]) for r in u])
        else:
            a, b = count(S, [r[0] >= q for r in u]), count(S, [S.all([r[0] >= q, r[1] >= q]) for r in u])
        S.eq("conditional frequency", got * a, b)
        S.true("none without observations", S.any([a >= 1, got == 0]))


@case("C36", "tail concentration of a copula", points=6)
def _(S):
    q = S.real("q", S.frac(1, 100), S.frac(99, 100))
    c = IndependentCopula().fit(np.array([[0.25, 0.5], [0.5, 0.75]]))
    got = c.tail_concentration(S.array([q]))[0]
    S.eq("independent", got, q if bool(q <= S.frac(1, 2)) else 1 - q)
    k = S.real("rho", 0, 1)

    class Mix(IndependentCopula):
        def cdf(self, X):
            return X[:, 0] * X[:, 1] * (1 - k) + k * X[:, 0]

    m = Mix().fit(np.array([[0.25, 0.5], [0.5, 0.75]]))
    joint = q * q * (1 - k) + k * q
    want = joint / q if bool(q <= S.frac(1, 2)) else (1 - 2 * q + joint) / (1 - q)
    S.eq("mixture", m.tail_concentration(S.array([q]))[0], want)
    for bad in (S.frac(-1, 8), S.frac(9, 8)):
        S.true("outside refused", S.attempt(lambda bad=bad: c.tail_concentration(S.array([bad])))[1] == "ValueError")


for _T in (3, 4):

    @case("C36", f"pseudo-observations, {_T}", points=4, max_paths=600)
    def _(S, T=_T):
        x = [S.real(f"x{t}", -1, 1) for t in range(T)]
        for i in range(T):
            for j in range(i):
                S.assume(S.any([x[i] - x[j] >= S.frac(1, 100), x[j] - x[i] >= S.frac(1, 100)]))
        order = sorted(range(T), key=_Key.of(x))
        vals = np.empty(T)
        vals[order] = range(T)  # the ranking of this path, with the real data library
        U = compute_pseudo_observations(np.column_stack([vals, -vals]))
        for t in range(T):
            r = count(S, [y <= x[t] for y in x])
            S.eq(f"rank {t}", U[t, 0] * (T + 1), r)
            S.eq(f"reversed rank {t}", U[t, 1] * (T + 1), T + 1 - r)


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)

    @staticmethod
    def of(x):
        return lambda i: _Key(x[i])
