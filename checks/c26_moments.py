"""C26: expected-return and covariance estimators are the documented statistics."""

import numpy as np
from skfolio.moments import (
    EWCovariance,
    EWMu,
    EmpiricalCovariance,
    EmpiricalMu,
    EquilibriumMu,
    GerberCovariance,
    ShrunkMu,
    ShrunkMuMethods,
)

from checks.common import REAL, div, mean
from symx import pdproxy
from symx.harness import case

META = {
    "bounds": "1 to 3 assets, 2 to 5 observations, every real return (Gerber and shrinkage: a few arbitrary returns); every window, smoothing factor, degree of freedom and risk aversion",
    "outside": "more assets and observations; estimators inherited from scikit-learn (Ledoit-Wolf, OAS, graphical lasso, shrunk covariance)",
    "assumptions": [REAL, "exponentially weighted pandas moments, eigenvalues and inverses are replaced by their defining equations"],
}


def data(S, T, n, name="x"):
    x = [[S.real(f"{name}_{t}_{i}", -1, 1) for i in range(n)] for t in range(T)]
    return x, S.array(x)


def cov(S, x, ddof=1):
    T, n = len(x), len(x[0])
    m = [mean(S, [r[i] for r in x]) for i in range(n)]
    return [[div(S, S.sum((r[i] - m[i]) * (r[j] - m[j]) for r in x), T - ddof) for j in range(n)] for i in range(n)]


for n in (1, 2, 3):
    for w in (None, 1, 2, 3, 9):

        @case("C26", f"mean, {n} assets, window {w}", points=3)
        def _(S, n=n, w=w):
            x, X = data(S, 4, n)
            S.eq("mean", EmpiricalMu(window_size=w).fit(X).mu_, [mean(S, [r[i] for r in x[-(w or 4) :]]) for i in range(n)])


def ew(S, T, a):
    q = [1]
    for _ in range(T - 1):
        q.append(q[-1] * (1 - a))
    q = q[::-1]
    t = S.sum(q)
    return [v / t for v in q]


for w in (None, 2, 3):

    @case("C26", f"exponentially weighted mean, window {w}", points=3, extra=pdproxy.extra)
    def _(S, w=w):
        x, X = data(S, 4, 2)
        a = S.real("alpha", S.frac(1, 16), S.frac(15, 16))
        x = x[-(w or 4) :]
        q = ew(S, len(x), a)
        S.eq("mean", EWMu(window_size=w, alpha=a).fit(X).mu_, [S.sum(k * r[i] for k, r in zip(q, x)) for i in range(2)])

    @case("C26", f"exponentially weighted covariance, window {w}", points=3, extra=pdproxy.extra)
    def _(S, w=w):
        x, X = data(S, 4, 2)
        a = S.real("alpha", S.frac(1, 16), S.frac(15, 16)) if w == 2 else S.frac(1, 4)
        x = x[-(w or 4) :]
        q = ew(S, len(x), a)
        m = [S.sum(k * r[i] for k, r in zip(q, x)) for i in range(2)]
        s2 = 1 - S.sum(k * k for k in q)
        want = [[S.sum(k * (r[i] - m[i]) * (r[j] - m[j]) for k, r in zip(q, x)) / s2 for j in range(2)] for i in range(2)]
        for i in range(2):
            S.assume(want[i][i] >= S.frac(1, 64))
        est = EWCovariance(window_size=w, alpha=a, nearest=False).fit(X)
        S.eq("covariance", est.covariance_, S.array(want))


for n in (1, 2, 3):
    for w in (None, 3):
        for ddof in (0, 1):

            @case("C26", f"covariance, {n} assets, window {w}, ddof {ddof}", points=3)
            def _(S, n=n, w=w, ddof=ddof):
                x, X = data(S, 4, n)
                want = cov(S, x[-(w or 4) :], ddof)
                for i in range(n):
                    S.assume(want[i][i] >= S.frac(1, 64))
                est = EmpiricalCovariance(window_size=w, ddof=ddof, nearest=False).fit(X)
                S.eq("covariance", est.covariance_, S.array(want))


@case("C26", "positive definite covariances are kept", points=3)
def _(S):
    x, X = data(S, 3, 2)
    want = cov(S, x)
    for i in range(2):
        S.assume(want[i][i] >= S.frac(1, 64))
    S.assume(want[0][0] * want[1][1] - want[0][1] * want[1][0] >= S.frac(1, 256))
    S.eq("covariance", EmpiricalCovariance().fit(X).covariance_, S.array(want))


@case("C26", "assets without variance are refused", points=3, extra=pdproxy.extra)
def _(S):
    x = [[S.real(f"x_{t}", -1, 1), S.real("const", -1, 1)] for t in range(3)]
    for k, est in (("empirical", EmpiricalCovariance()), ("exponential", EWCovariance(nearest=False))):
        _, e = S.attempt(lambda est=est: est.fit(S.array(x)))
        S.true(f"{k} refuses", e == "NonPositiveVarianceError")


@case("C26", "equilibrium", points=3)
def _(S):
    x, X = data(S, 3, 2)
    lam = S.real("risk_aversion", 0, 5)
    w = S.reals("w", 2, -1, 1)
    C = cov(S, x)
    for i in range(2):
        S.assume(C[i][i] >= S.frac(1, 64))
    est = lambda **k: EquilibriumMu(risk_aversion=lam, covariance_estimator=EmpiricalCovariance(nearest=False), **k).fit(X).mu_  # noqa: E731
    S.eq("given weights", est(weights=S.array(list(w))), [lam * S.sum(C[i][j] * w[j] for j in range(2)) for i in range(2)])
    S.eq("equal weights", est(), [lam * S.sum(div(S, C[i][j], 2) for j in range(2)) for i in range(2)])


def inv2(C):
    d = C[0][0] * C[1][1] - C[0][1] * C[1][0]
    return [[C[1][1] / d, -C[0][1] / d], [-C[1][0] / d, C[0][0] / d]]


def shrink(S, x, method, weighted):
    T, n = len(x), 2
    m = [mean(S, [r[i] for r in x]) for i in range(n)]
    C = cov(S, x)
    I = inv2(C)
    q = lambda a, b: S.sum(a[i] * I[i][j] * b[j] for i in range(n) for j in range(n))  # noqa: E731
    one = [1, 1]
    t = q(one, m) / q(one, one) if weighted else mean(S, m)
    d = [v - t for v in m]
    b = [t, t]
    if method is ShrunkMuMethods.BAYES_STEIN:
        beta = (n + 2) / (n + 2 + T * q(d, d))
        alpha = 1 - beta
    elif method is ShrunkMuMethods.JAMES_STEIN:
        # eigenvalues of a 2 by 2 matrix: the sum less twice the largest is minus their distance
        gap = S.sqrt((C[0][0] - C[1][1]) * (C[0][0] - C[1][1]) + 4 * C[0][1] * C[0][1])
        beta = -gap / S.sum(v * v for v in d) / T
        alpha = 1 - beta
    else:
        u, v, w = q(m, m), q(m, b), q(b, b)
        alpha = ((u - S.frac(n, T - n)) * w - v * v) / (u * w - v * v)
        beta = (1 - alpha) * v / w
    return m, t, alpha, beta


BASE = [[2, -1], [-1, 3], [1, 1], [3, -2], [-2, 1]]
for method in ShrunkMuMethods:
    for weighted in (False, True):

        @case("C26", f"shrunk mean {method.value}, vol weighted target {weighted}", points=3)
        def _(S, method=method, weighted=weighted):
            x = [[S.frac(v, 8) for v in r] for r in BASE]
            x[0][0] = S.real("a", S.frac(1, 4), 1)
            if method is not ShrunkMuMethods.JAMES_STEIN:
                x[3][1] = S.real("b", -1, S.frac(-1, 4))
            C = cov(S, x)
            S.assume(C[0][0] * C[1][1] - C[0][1] * C[1][0] >= S.frac(1, 1024))
            est = ShrunkMu(method=method, vol_weighted_target=weighted, covariance_estimator=EmpiricalCovariance(nearest=False)).fit(S.array(x))
            m = [mean(S, [r[i] for r in x]) for i in range(2)]
            S.assume(S.any([m[0] - m[1] >= S.frac(1, 64), m[1] - m[0] >= S.frac(1, 64)]))
            m, t, alpha, beta = shrink(S, x, method, weighted)
            S.eq("target", est.mu_target_, [t, t])
            S.eq("weight of the sample mean", est.alpha_, alpha)
            S.eq("weight of the target", est.beta_, beta)
            S.eq("mean", est.mu_, [est.alpha_ * a + est.beta_ * t for a in m])


def gerber(S, x, th, psd):
    T, n = len(x), len(x[0])
    C = cov(S, x, 0)
    std = [S.sqrt(C[i][i]) for i in range(n)]
    up = [[S.ite(r[i] >= th * std[i], 1, 0) for i in range(n)] for r in x]
    dn = [[S.ite(r[i] <= -th * std[i], 1, 0) for i in range(n)] for r in x]
    out = [[0] * n for _ in range(n)]
    H = [[S.sum((u[i] - d[i]) * (u[j] - d[j]) for u, d in zip(up, dn)) for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            if psd:
                g = H[i][j] / S.sum(S.ite(S.any([u[i] + d[i] >= 1, u[j] + d[j] >= 1]), 1, 0) for u, d in zip(up, dn))
            else:
                g = H[i][j] / (S.sqrt(H[i][i]) * S.sqrt(H[j][j]))
            out[i][j] = g * std[i] * std[j]
    return out


for psd in (True, False):
    for w in (None, 4):

        @case("C26", f"gerber, psd variant {psd}, window {w}", points=4, fork_max=4000)
        def _(S, psd=psd, w=w):
            x = [[S.frac(v, 8) for v in r] for r in BASE]
            x[1][0] = S.real("a", -1, 1)
            if psd:
                x[2][1] = S.real("b", -1, 1)
            th = S.real("threshold", S.frac(1, 8), S.frac(7, 8)) if not psd or w else S.frac(1, 2)
            est = GerberCovariance(threshold=th, psd_variant=psd, window_size=w, nearest=False).fit(S.array(x))
            S.eq("covariance", est.covariance_, S.array(gerber(S, x[-(w or 5) :], th, psd)))
