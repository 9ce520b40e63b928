"""C34: uncertainty sets and bootstrap samples follow their definitions."""

import itertools

import numpy as np
import scipy.stats as st
from skfolio.uncertainty_set import (
    BootstrapCovarianceUncertaintySet,
    BootstrapMuUncertaintySet,
    EmpiricalCovarianceUncertaintySet,
    EmpiricalMuUncertaintySet,
)
from skfolio.utils.bootstrap import stationary_bootstrap

from checks.common import REAL, mean
from checks.convex import prior
from symx.harness import case

META = {
    "bounds": "2 to 3 assets, 3 to 4 observations, up to 4 bootstrap samples with fixed seeds; every covariance, mean and return; confidence levels 0.5, 0.95 and 0.99",
    "outside": "the random draws themselves; the automatic block size",
    "assumptions": [REAL, "the chi-squared quantile is the numerical library's"],
}


def covariance(S, n):
    c = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            c[i][j] = c[j][i] = S.real(f"c{i}{j}", S.frac(1, 4), 4) if i == j else S.real(f"c{i}{j}", -1, 1)
    return c


def near(S, label, a, b):
    S.le(label + " above", a, b + 1e-9)
    S.le(label + " below", b - 1e-9, a)


def size(S, model, level, dof):
    k = model.uncertainty_set_.k
    near(S, "size", k * k, float(st.chi2.ppf(level, dof)))
    S.le("positive size", 0, k)


def matrix(S, model, want):
    got = model.uncertainty_set_.sigma
    n = len(want)
    S.true("shape", tuple(got.shape) == (n, n))
    for i in range(n):
        for j in range(n):
            S.eq(f"{'diagonal' if i == j else 'off-diagonal'} {i} {j}", got[i, j], want[i][j])


for _n, _T, _level, _diag in ((2, 3, 0.95, True), (2, 4, 0.5, False), (3, 3, 0.99, False), (3, 5, 0.95, True)):

    @case("C34", f"means, {_n} assets, {_T} observations, diagonal {_diag}", points=3)
    def _(S, n=_n, T=_T, level=_level, diag=_diag):
        c = covariance(S, n)
        p = prior(S, [[0] * n] * T, mu=[0] * n, covariance=c, key="c34")
        X = S.array([[S.real(f"x{t}{i}", -1, 1) for i in range(n)] for t in range(2)])
        model = EmpiricalMuUncertaintySet(prior_estimator=p, confidence_level=level, diagonal=diag).fit(X)
        size(S, model, level, n)
        matrix(S, model, [[c[i][j] / T if i == j or not diag else 0 for j in range(n)] for i in range(n)])


for _n, _T, _level, _diag in ((2, 3, 0.95, True), (2, 5, 0.5, False), (3, 4, 0.99, True)):

    @case("C34", f"covariances, {_n} assets, {_T} observations, diagonal {_diag}", points=3)
    def _(S, n=_n, T=_T, level=_level, diag=_diag):
        c = covariance(S, n)
        p = prior(S, [[0] * n] * T, mu=[0] * n, covariance=c, key="c34")
        X = S.array([[S.real(f"x{t}{i}", -1, 1) for i in range(n)] for t in range(2)])
        model = EmpiricalCovarianceUncertaintySet(prior_estimator=p, confidence_level=level, diagonal=diag).fit(X)
        size(S, model, level, n * n)
        s = [[c[i][j] if i == j or not diag else 0 for j in range(n)] for i in range(n)]
        # Cov[c_ij, c_kl] = (s_ik s_jl + s_il s_jk) / (T - 1), entries stacked by columns
        pairs = [(i, j) for j in range(n) for i in range(n)]
        want = [[(s[i][k] * s[j][m] + s[i][m] * s[j][k]) / (T - 1) for k, m in pairs] for i, j in pairs]
        if diag:
            # only the variances of the entries are kept
            want = [[v if a == b else 0 for b, v in enumerate(r)] for a, r in enumerate(want)]
        matrix(S, model, want)


def sample_cov(S, rows):
    n, k = len(rows), len(rows[0])
    m = [mean(S, [r[i] for r in rows]) for i in range(k)]
    return [[S.sum((r[i] - m[i]) * (r[j] - m[j]) for r in rows) / (n - 1) for j in range(k)] for i in range(k)]


def drawn(S, x, N, block, seed):
    s = stationary_bootstrap(S.array(x), n_bootstrap_samples=N, block_size=block, seed=seed)
    return [[[s[b, t, i] for i in range(len(x[0]))] for t in range(len(x))] for b in range(N)]


for _seed, _diag in ((0, True), (3, False)):

    @case("C34", f"bootstrapped means, seed {_seed}, diagonal {_diag}", points=3)
    def _(S, seed=_seed, diag=_diag):
        x = [[S.real(f"x{t}{i}", -1, 1) for i in range(2)] for t in range(3)]
        kw = dict(n_bootstrap_samples=3, block_size=2, seed=seed)
        p = prior(S, x, covariance=[[1, 0], [0, 1]], key="c34")
        model = BootstrapMuUncertaintySet(prior_estimator=p, confidence_level=0.95, diagonal=diag, **kw).fit(S.array([[1, 2], [2, 1]]))
        size(S, model, 0.95, 2)
        mus = [[mean(S, [r[i] for r in b]) for i in range(2)] for b in drawn(S, x, 3, 2, seed)]
        c = sample_cov(S, mus)
        matrix(S, model, [[c[i][j] if i == j or not diag else 0 for j in range(2)] for i in range(2)])

    @case("C34", f"bootstrapped covariances, seed {_seed}, diagonal {_diag}", points=3)
    def _(S, seed=_seed, diag=_diag):
        x = [[S.real(f"x{t}{i}", -1, 1) for i in range(2)] for t in range(3)]
        kw = dict(n_bootstrap_samples=3, block_size=2, seed=seed)
        p = prior(S, x, covariance=[[1, 0], [0, 1]], key="c34")
        model = BootstrapCovarianceUncertaintySet(prior_estimator=p, confidence_level=0.9, diagonal=diag, **kw).fit(S.array([[1, 2], [2, 1]]))
        size(S, model, 0.9, 4)
        covs = []
        for b in drawn(S, x, 3, 2, seed):
            c = sample_cov(S, b)
            covs.append([c[i][j] for j in range(2) for i in range(2)])
        c = sample_cov(S, covs)
        matrix(S, model, [[c[i][j] if i == j or not diag else 0 for j in range(4)] for i in range(4)])


for _block, _seed in itertools.product((1, 2, 1e12), (0, 1)):

    @case("C34", f"bootstrap, block {_block:g}, seed {_seed}", points=3)
    def _(S, block=_block, seed=_seed):
        T, N = 4, 4
        # distinct rows are recognised by their first entries
        x = [[t + S.real(f"x{t}0", 0, S.frac(1, 2)), S.real(f"x{t}1", -1, 1)] for t in range(T)]
        before = [list(r) for r in x]
        out = drawn(S, x, N, block, seed)
        S.true("number of samples", len(out) == N and all(len(b) == T for b in out))
        jumps = 0
        for k, b in enumerate(out):
            ids = []
            for t, r in enumerate(b):
                row = next((i for i in range(T) if bool(r[0] >= i) and bool(r[0] < i + 1)), None)
                S.true(f"sample {k} {t} is an observation", row is not None)
                if row is not None:
                    S.eq(f"sample {k} {t}", r, before[row])
                ids.append(row)
            jumps += sum((a + 1) % T != b for a, b in itertools.pairwise(ids))
        if block > 1e9:
            S.true("one block follows the observations in a circle", jumps == 0)
        elif block == 1:
            # independent draws: with these seeds not every row follows its predecessor
            S.true("blocks of one are drawn anew", jumps > 0)
        again = drawn(S, x, N, block, seed)
        S.eq("same seed, same samples", [v for b in again for r in b for v in r], [v for b in out for r in b for v in r])
