"""C38: density and samples of vine copulas."""

import itertools
import math
import warnings

import numpy as np
import scipy.sparse.csgraph as csgraph
import sklearn
import sklearn.base as skb
from skfolio.distribution import BaseBivariateCopula, VineCopula
from skfolio.distribution.univariate import BaseUnivariateDist
from skfolio.prior import SyntheticData

from checks.common import REAL, mean, replaced
from symx.harness import case

META = {
    "bounds": "3 to 4 assets (5 in the thorough tier), complete vines and vines cut after two trees, several structures found on fixed data, with and without margins, central assets, fixed, ranged and per-draw conditions and log returns; every draw of the uniforms, every evaluated observation and every condition in a range around the centre",
    "outside": "the search for the copulas and margins (see C36) and their own formulas (see C35): the pair copulas and margins are stand-ins with affine conditional distributions, all with different coefficients for the two margins; conditions on assets that are not central, where the library only promises an approximation; the dependence measures",
    "assumptions": [REAL, "the values stay inside the unit interval, away from the guard of 1e-14 at its ends"],
}
COUNT = {}


def coefficient(k):
    """Small numbers, exact in binary, different from each other."""
    return (1 if k % 2 else -1) * (2 * k + 5) / 512


class Pair(BaseBivariateCopula):
    """Conditional distributions  u + a v  and  v + b u  and an affine log-density."""

    def __init__(self, itau=True, kendall_tau=None, tolerance=1e-4, random_state=None):
        self.itau = itau
        self.kendall_tau = kendall_tau
        self.tolerance = tolerance
        self.random_state = random_state

    n_params = 1
    lower_tail_dependence = upper_tail_dependence = 0
    fitted_repr = "pair"

    def fit(self, X, y=None):
        k = COUNT["pairs"]
        COUNT["pairs"] = k + 1
        self.a_, self.b_, self.c_, self.d_ = (coefficient(4 * k + i) for i in range(4))
        self.data_ = np.array(X)
        return self

    def cdf(self, X):
        raise NotImplementedError

    def partial_derivative(self, X, first_margin=False):
        u, v = X[:, 0], X[:, 1]
        return v + self.b_ * u if first_margin else u + self.a_ * v

    def inverse_partial_derivative(self, X, first_margin=False):
        return X[:, 1] - self.b_ * X[:, 0] if first_margin else X[:, 0] - self.a_ * X[:, 1]

    def score_samples(self, X):
        return self.c_ * X[:, 0] + self.d_ * X[:, 1]


class Margin(BaseUnivariateDist):
    """Uniform on an interval, with an affine log-density."""

    _scipy_model = None

    def __init__(self, random_state=None):
        self.random_state = random_state

    _scipy_params = {"loc": 0, "scale": 1}

    def fit(self, X, y=None):
        k = COUNT["margins"]
        COUNT["margins"] = k + 1
        self.loc_, self.scale_, self.e_ = -1 / 8 - coefficient(k), 5 / 4 + coefficient(2 * k), coefficient(3 * k + 7)
        self.data_ = np.array(X)[:, 0]
        return self

    def cdf(self, X):
        return (X - self.loc_) / self.scale_

    def ppf(self, X):
        return self.loc_ + self.scale_ * X

    def score_samples(self, X):
        return self.e_ * X[:, 0]


class Draws(np.random.RandomState):
    """Gives out the given uniforms."""

    def __init__(self, S, free, ranged=()):
        super().__init__(0)
        self.S, self.free, self.ranged = S, free, list(ranged)

    def random(self, size=None):
        assert size is not None and tuple(size) == np.shape(self.free)
        return self.S.array(self.free)

    random_sample = random

    def rand(self, *size):
        return self.random(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if any(not hasattr(x, "n") and not math.isfinite(x) for x in (low, high)):
            raise OverflowError("Range exceeds valid bounds")
        if np.ndim(size) == 1 and len(size) == 2:
            return low + (high - low) * self.random(size)
        w = self.ranged.pop(0)
        return self.S.array([low + (high - low) * x for x in w])


def data(n, kind, seed=0):
    """Fixed observations giving different shapes of trees."""
    rng = np.random.default_rng(seed)
    z = rng.normal(size=(14, n))
    if kind == "chain":
        for i in range(1, n):
            z[:, i] = z[:, i - 1] + z[:, i] * 0.7
    elif kind == "star":
        z = z * 0.8
        z[:, 1:] += rng.normal(size=(14, 1))
        z[:, 1] = z[:, 2:].sum(axis=1) + 0.1 * z[:, 1]
    z = (z - z.mean(axis=0)) / z.std(axis=0)
    return np.round(1 / 2 + z / 8, 6)


class Structure:
    """What the copulas were fitted to, recognised from the data they were given."""

    def __init__(self, S, model, X, depth, margins, logs):
        n = X.shape[1]
        self.S, self.n, self.margins, self.logs = S, n, None, logs
        Y = np.where(logs, np.log1p(X), X)
        if margins:
            self.margins = list(model.marginal_distributions_)
            for i, m in enumerate(self.margins):
                S.true(f"margin {i} fitted to its asset", np.allclose(m.data_, Y[:, i]))
            Y = np.column_stack([m.cdf(Y[:, i]) for i, m in enumerate(self.margins)])
        self.recipe = {}
        self.edges = []
        known = {(i, frozenset()): Y[:, i] for i in range(n)}
        pairs = [e.copula for t in model.trees_ for e in t.edges]
        S.true("number of pairs", len(pairs) == sum(n - 1 - k for k in range(depth)))
        for pair in sorted(pairs, key=lambda p: abs(p.a_)):
            keys = [k for c in range(2) for k, x in known.items() if np.allclose(x, pair.data_[:, c], atol=1e-9)]
            ok = len(keys) == 2 and keys[0][1] == keys[1][1] and keys[0][0] != keys[1][0]
            S.true("pair given the same assets", ok)
            (i, D), (j, _) = keys
            self.edges.append((i, j, D, pair))
            for key, first in (((i, D | {j}), False), ((j, D | {i}), True)):
                S.true("new pair", key not in self.recipe)
                self.recipe[key] = (keys[0], keys[1], pair, first)
                known[key] = pair.partial_derivative(pair.data_, first_margin=first)
        self.known = known

    def uniform(self, i, x):
        """Value of an asset on the uniform scale."""
        if self.logs[i]:
            x = self.S.log(1 + x)
        return (x - self.margins[i].loc_) / self.margins[i].scale_ if self.margins else x

    def value(self, i, u):
        if self.margins:
            u = self.margins[i].loc_ + self.margins[i].scale_ * u
        return self.S.exp(u) - 1 if self.logs[i] else u

    def uniforms(self, x):
        return [self.uniform(i, v) for i, v in enumerate(x)]

    def conditional(self, key, u):
        """Probability of asset i given the assets D."""
        i, D = key
        if not D:
            return u[i]
        left, right, p, first = self.recipe[key]
        a, b = self.conditional(left, u), self.conditional(right, u)
        return b + p.b_ * a if first else a + p.a_ * b

    def order(self, x, draws, given, depth):
        """The order of the assets in which the draws are the conditional probabilities."""
        u = self.uniforms(x)
        free = [i for i in range(self.n) if i not in given]
        for perm in itertools.permutations(free):
            found, before = [], list(given)
            for i, w in zip(perm, draws, strict=True):
                keys = [
                    (j, D)
                    for j, D in self.known
                    if j == i and D <= set(before) and len(D) == min(depth, len(before)) and abs(self.conditional((j, D), u) - w) < 1e-9
                ]
                if not keys:
                    break
                found.append(keys[0])
                before.append(i)
            else:
                rank = {i: k for k, i in enumerate([*given, *perm])}
                cond = dict(found)
                if all((max(i, j, key=rank.get) in given) or {min(i, j, key=rank.get)} | D <= cond[max(i, j, key=rank.get)] for i, j, D, _ in self.edges):
                    return found
        return None


def floats(m):
    out = np.empty((len(m), len(m)), dtype=float)
    for i, row in enumerate(m):
        for j, x in enumerate(row):
            out[i, j] = float(x)
    return out


def vine(S, n, kind, depth=None, margins=True, central=None, logs=False, seed=0):
    COUNT.update(pairs=0, margins=0)
    X = data(n, kind, seed)
    model = VineCopula(
        fit_marginals=margins,
        marginal_candidates=[Margin()],
        copula_candidates=[Pair()],
        max_depth=depth,
        central_assets=central,
        log_transform=logs,
        independence_level=2,
    )
    # the data are numbers: the library's spanning tree is computed, not encoded
    tree = csgraph.minimum_spanning_tree
    with replaced("scipy.sparse.csgraph.minimum_spanning_tree", lambda m, *a, **k: tree(floats(m))):
        model.fit(X)
    levels = n - 1 if depth is None else min(depth, n - 1)
    flags = np.array([logs] * n) if np.isscalar(logs) else np.array(logs)
    return model, Structure(S, model, X, levels, margins, flags), levels


def draws(S, name, n, m):
    return [[S.real(f"{name}{i}_{t}", S.frac(2, 5), S.frac(3, 5)) for t in range(m)] for i in range(n)]


class Plain:
    symbolic = False
    array = staticmethod(lambda x: np.array(x, dtype=float))
    true = staticmethod(lambda *a: None)
    log, exp = math.log, math.exp


def find_order(model, st, levels, conditions, m=2):
    """The order of the assets in which the draws are used, on one concrete draw."""
    rng = np.random.default_rng(5)
    given = sorted(conditions)
    value = lambda: float(rng.uniform(0.48, 0.52))
    plain = {}
    for c, v in conditions.items():
        if isinstance(v, tuple):
            plain[c] = tuple(x if x is None or not math.isfinite(_f(x)) else 0.4 + 0.2 * k for k, x in enumerate(v))
        else:
            plain[c] = [value() for _ in range(m)] if isinstance(v, list) else value()
    w = rng.uniform(0.42, 0.58, size=(st.n - len(given), m))
    model.random_state = Draws(Plain, w, [rng.uniform(0.45, 0.55, size=m) for v in conditions.values() if isinstance(v, tuple)])
    x = model.sample(m, conditioning=plain or None)
    return st.order(x[0], w[:, 0], given, levels)


def check_sample(S, model, st, levels, name, conditions=None, m=2, found=None):
    """Samples are the inverse of the conditional probabilities."""
    conditions = conditions or {}
    n, given = st.n, sorted(conditions)
    ranged = [c for c, v in conditions.items() if isinstance(v, tuple)]
    W = draws(S, f"{name}w", n - len(given), m)
    R = draws(S, f"{name}r", len(ranged), m)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        found = found or find_order(model, st, levels, conditions)
        S.true(f"{name}: the draws are conditional probabilities", bool(found))
        if not found:
            return
        model.random_state = Draws(S, W, R)
        x = model.sample(m, conditioning=conditions or None)
    S.true(f"{name}: shape", np.shape(x) == (m, n))
    for t in range(m):
        u, want = [0] * n, [None] * n
        for c, v in conditions.items():
            if isinstance(v, tuple):
                low, high = v
                a = 0 if low is None or _f(low) == -math.inf else st.uniform(c, low)
                b = 1 if high is None or _f(high) == math.inf else st.uniform(c, high)
                u[c] = a + (b - a) * R[ranged.index(c)][t]
                want[c] = st.value(c, u[c])
                if st.logs[c]:
                    # exp is increasing
                    S.assume(S.all([low <= want[c], True if high is None else want[c] <= high]))
            else:
                want[c] = v[t] if isinstance(v, list) else v
                u[c] = st.uniform(c, want[c])
        # the probability of an asset given others moves one to one with the asset
        for (i, D), w in zip(found, W, strict=True):
            u[i] = w[t] - st.conditional((i, D), u)
            want[i] = st.value(i, u[i])
        for i in range(n):
            S.eq(f"{name}: asset {i}, draw {t}", x[t, i], want[i])


def _f(x):
    return 0.0 if hasattr(x, "n") else float(x)


def check_score(S, model, st, name, m=2):
    x = [[S.real(f"{name}x{i}_{t}", S.frac(2, 5), S.frac(3, 5)) for i in range(st.n)] for t in range(m)]
    if np.any(st.logs):
        small(S, [v for row in x for v in row])
    got = model.score_samples(S.array(x))
    S.true(f"{name}: shape", np.shape(got) == (m,))
    for t in range(m):
        y = x[t]
        if np.any(st.logs):
            y = [S.log(1 + v) if g else v for v, g in zip(y, st.logs, strict=True)]
        u = st.uniforms(x[t])
        want = S.sum(k.e_ * v for k, v in zip(st.margins, y, strict=True)) if st.margins else 0
        for i, j, D, p in st.edges:
            want = want + p.c_ * st.conditional((i, D), u) + p.d_ * st.conditional((j, D), u)
        S.eq(f"{name}: log-density {t}", got[t], want)


SHAPES = [(3, "chain", None), (3, "star", None), (4, "chain", None), (4, "star", None), (4, "plain", None), (4, "chain", 2), (4, "plain", 2), (5, "chain", None), (5, "star", 3), (5, "plain", 2), (5, "plain", None)]
for _n, _kind, _depth in SHAPES:
    for _margins in (True, False):

        @case("C38", f"{_n} assets, {_kind}, depth {_depth}, margins {_margins}", tiers=("quick", "thorough") if _n < 5 else ("thorough",), points=3)
        def _(S, n=_n, kind=_kind, depth=_depth, margins=_margins):
            model, st, levels = vine(S, n, kind, depth, margins)
            check_score(S, model, st, "first")
            check_sample(S, model, st, levels, "drawn", m=2)
            check_score(S, model, st, "again", m=1)
            check_sample(S, model, st, levels, "redrawn", m=1)


CONDITIONS = {
    "fixed value": lambda S: {0: S.real("c", S.frac(2, 5), S.frac(3, 5))},
    "value per draw": lambda S: {0: [S.real(f"c{t}", S.frac(2, 5), S.frac(3, 5)) for t in range(2)]},
    "range": lambda S: {0: (S.real("lo", S.frac(2, 5), S.frac(9, 20)), S.real("hi", S.frac(11, 20), S.frac(3, 5)))},
    "range from below": lambda S: {0: (S.real("lo", S.frac(2, 5), S.frac(9, 20)), np.inf)},
    "range from above": lambda S: {0: (None, S.real("hi", S.frac(11, 20), S.frac(3, 5)))},
    "two ranges": lambda S: {2: (S.real("lo", S.frac(2, 5), S.frac(9, 20)), S.real("hi", S.frac(11, 20), S.frac(3, 5))), 0: (S.frac(2, 5), S.frac(11, 20))},
    "value and range": lambda S: {2: S.real("c", S.frac(2, 5), S.frac(3, 5)), 1: (S.frac(2, 5), S.frac(11, 20))},
    "two assets": lambda S: {2: S.real("c", S.frac(2, 5), S.frac(3, 5)), 0: S.real("e", S.frac(2, 5), S.frac(3, 5))},
}
for _name, _make in CONDITIONS.items():
    for _n, _kind, _depth in ((4, "plain", None), (4, "chain", 2), (3, "chain", None), (5, "chain", None)):
        for _margins in (True, False):

            @case("C38", f"{_name}, {_n} assets, {_kind}, depth {_depth}, margins {_margins}", tiers=("quick", "thorough") if _n < 5 else ("thorough",), points=3)
            def _(S, make=_make, n=_n, kind=_kind, depth=_depth, margins=_margins):
                conditions = make(S)
                model, st, levels = vine(S, n, kind, depth, margins, central=sorted(conditions))
                check_sample(S, model, st, levels, "given", conditions)
                check_score(S, model, st, "after", m=1)


def small(S, xs):
    """Range of the logarithms of the values used."""
    for x in xs:
        S.assume(S.all([S.frac(3, 10) <= S.log(1 + x), S.log(1 + x) <= S.frac(1, 2)]))


LOGS = {"drawn": {}, "fixed": {0: 0.5}, "per draw": {0: [0.5, 0.5]}, "range": {0: (0.4, 0.6)}, "above": {0: (0.4, None)}}


def orders(logs):
    """The orders are found on numbers, where the logarithms are the library's."""
    try:
        model, st, levels = vine(Plain, 3, "chain", logs=logs, central=[0])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return {k: find_order(model, st, levels, v) for k, v in LOGS.items()}
    except Exception:  # reported by the cases
        return {}


for _logs in (True, [False, True, False], [True, False, False]):

    @case("C38", f"log returns {_logs}", points=3)
    def _(S, logs=_logs, found=orders(_logs)):
        c = S.real("c", S.frac(2, 5), S.frac(3, 5))
        lo, hi = S.real("lo", S.frac(2, 5), S.frac(9, 20)), S.real("hi", S.frac(11, 20), S.frac(3, 5))
        small(S, [c, lo, hi])
        S.assume(S.all([S.log(1 + lo) < S.log(1 + hi), S.log(3) > 1]))
        model, st, levels = vine(S, 3, "chain", logs=logs, central=[0])
        S.true("orders", len(found) == len(LOGS) and all(found.values()))
        if not found:
            return
        check_score(S, model, st, "score", m=1)
        for name, v in {"drawn": {}, "fixed": {0: c}, "per draw": {0: [c, lo]}, "range": {0: (lo, hi)}, "above": {0: (lo, None)}}.items():
            check_sample(S, model, st, levels, name, v, found=found[name])


@case("C38", "refused conditions", points=1)
def _(S):
    model, st, levels = vine(S, 3, "chain", central=[0])
    x = S.real("x", S.frac(2, 5), S.frac(3, 5))
    y = S.real("y", S.frac(2, 5), S.frac(3, 5))
    refused = lambda c: S.attempt(lambda: model.sample(2, conditioning=c))[1] == "ValueError"
    S.true("all assets", refused({0: 0.5, 1: 0.5, 2: 0.5}))
    S.true("length", refused({0: [0.5, 0.5, 0.5]}))
    S.true("three limits", refused({0: (0.4, 0.5, 0.6)}))
    S.true("not a dictionary", refused([0.5]))
    S.true("unknown asset", refused({7: 0.5}))
    model.random_state = Draws(S, [[S.frac(1, 2)] * 2] * 2, [[S.frac(1, 2)] * 2])
    S.true("limits in order", refused({0: (x, y)}) == bool(x >= y))


class Simulator(skb.BaseEstimator):
    """Distribution with given samples, recording how it is used."""

    seen = {}

    def fit(self, X, y=None, note=None):
        self.fitted_ = True
        Simulator.seen.update(X=X, note=note)
        return self

    def sample(self, n_samples=1, conditioning=None):
        Simulator.seen.update(n=n_samples, conditioning=conditioning)
        return Simulator.seen["samples"]


for _routed in (False, True):

    @case("C38", f"prior of simulated returns, routed {_routed}", points=4)
    def _(S, routed=_routed):
        m, n = 3, 2
        a, b, c = S.real("a", S.frac(1, 10), S.frac(1, 2)), S.real("b", S.frac(1, 10), S.frac(1, 2)), S.real("c", S.frac(-1, 2), S.frac(1, 2))
        # a family of samples with a covariance that is positive definite
        R = {(0, 0): a + c, (1, 0): c, (2, 0): c, (0, 1): c, (1, 1): b + c, (2, 1): c}
        X = S.reals("x", (4, n), S.frac(-1, 2), S.frac(1, 2))
        Simulator.seen = {"samples": S.array([[R[t, i] for i in range(n)] for t in range(m)])}
        given = {0: 0.25}
        kwargs = {}
        with sklearn.config_context(enable_metadata_routing=routed):
            source = Simulator()
            if routed:
                source.set_fit_request(note=True)
                kwargs["note"] = "n"
            model = SyntheticData(distribution_estimator=source, n_samples=m, sample_args={"conditioning": given})
            model.fit(S.array([[X[t, i] for i in range(n)] for t in range(4)]), **kwargs)
        seen = Simulator.seen
        S.true("arguments", seen["n"] == m and seen["conditioning"] == given and seen["note"] == kwargs.get("note"))
        S.true("own copy", not hasattr(source, "fitted_"))
        prior = model.prior_model_
        S.true("shape", np.shape(prior.returns) == (m, n))
        mu = [mean(S, [R[t, i] for t in range(m)]) for i in range(n)]
        for i in range(n):
            S.eq(f"mean {i}", prior.mu[i], mu[i])
            for t in range(4):
                S.eq(f"fitted to {t} {i}", seen["X"][t, i], X[t, i])
            for t in range(m):
                S.eq(f"returns {t} {i}", prior.returns[t, i], R[t, i])
            for j in range(n):
                S.eq(f"covariance {i} {j}", prior.covariance[i, j], S.sum((R[t, i] - mu[i]) * (R[t, j] - mu[j]) for t in range(m)) / (m - 1))
