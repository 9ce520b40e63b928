"""C04: portfolio returns net of costs and fees for every way of passing the inputs."""

import itertools

import numpy as np
import pandas as pd
from skfolio import Portfolio

from checks.common import REAL
from symx.harness import case

META = {
    "bounds": "1..3 assets (4 thorough), 1..2 observations, every real return, weight, previous weight, cost and fee; X as array or DataFrame; weights/previous weights/costs/fees as None, scalar, array, list, or name->value dict (complete or partial)",
    "outside": "more assets and observations (the computation is the same per asset and observation), NaN",
    "assumptions": [REAL],
}

NAMES = ["aaa", "bb", "c", "dd"]


def forms(S, name, n, allow_scalar, df):
    """(form, value to pass, meaning as a vector)."""
    v = S.reals(name, n)
    out = [("array", v, v), ("list", list(v), v)]
    if allow_scalar:
        s = S.real(name + "_s")
        out.append(("scalar", s, [s] * n))
        out.append(("none", None, [0] * n))
    else:
        out.append(("none", None, [0] * n))
    if df:
        out.append(("dict", {NAMES[i]: v[i] for i in reversed(range(n))}, v))
        out.append(("partial dict", {NAMES[n - 1]: v[n - 1]}, [0] * (n - 1) + [v[n - 1]]))
    return out


for n, T, df in itertools.product((1, 2, 3), (1, 2), (False, True)):
    if T == 1 and n == 3:
        continue

    @case("C04", f"net returns n={n} T={T} df={df}", weight=n)
    def _(S, n=n, T=T, df=df):
        R = S.reals("x", (T, n))
        X = S.frame(R, columns=NAMES[:n], index=pd.RangeIndex(10, 10 + T)) if df else R
        w = S.reals("w", n)
        wforms = [("array", w), ("list", list(w))]
        if df:
            wforms += [("dict", {NAMES[i]: w[i] for i in reversed(range(n))})]
        P = forms(S, "p", n, False, df)
        C = forms(S, "c", n, True, df)
        F = forms(S, "f", n, True, df)
        combos = [(wforms[0], p, c, f) for p in P for c in C for f in F]
        combos += [(wf, P[0], C[0], F[0]) for wf in wforms[1:]]
        for (wn, wv), (pn, pv, pm), (cn, cv, cm), (fn, fv, fm) in combos:
            pt = Portfolio(
                X=X, weights=wv, previous_weights=pv, transaction_costs=cv, management_fees=fv
            )
            cost = S.sum(cm[i] * abs(pm[i] - w[i]) for i in range(n))
            fee = S.sum(fm[i] * w[i] for i in range(n))
            tag = f"w={wn} prev={pn} cost={cn} fee={fn}"
            S.eq(f"total cost {tag}", pt.total_cost, cost)
            S.eq(f"total fee {tag}", pt.total_fee, fee)
            net = [S.sum(w[i] * R[t, i] for i in range(n)) - cost - fee for t in range(T)]
            S.eq(f"returns {tag}", pt.returns, S.array(net))
            if pn == "array" and cn in ("array", "scalar") and fn == "array":
                mu = S.reals("mu", n)
                S.eq(
                    f"expected returns {tag}",
                    pt.expected_returns_from_assets(mu),
                    S.sum(w[i] * mu[i] for i in range(n)) - cost - fee,
                )
                S.eq(f"weights {tag}", pt.weights, w)
                S.eq(f"n_assets {tag}", pt.n_assets, n)
                S.true(f"observations {tag}", list(pt.observations) == (list(range(10, 10 + T)) if df else list(range(T))))


for n in (1, 2, 3):

    @case("C04", f"variance from assets n={n}")
    def _(S, n=n):
        w = S.reals("w", n)
        A = S.reals("A", (n, n))
        pt = Portfolio(X=S.reals("x", (2, n)), weights=w)
        S.eq("variance", pt.variance_from_assets(A), S.sum(w[i] * A[i, j] * w[j] for i in range(n) for j in range(n)))


for n in (2, 3):

    @case("C04", f"composition n={n}")
    def _(S, n=n):
        # assets above the 0.001% threshold are listed with their weight, the others are not
        w = S.reals("w", n, -1, 1)
        pt = Portfolio(X=S.frame(S.reals("x", (2, n)), columns=NAMES[:n]), weights=w)
        idx = [int(i) for i in pt.nonzero_assets_index]
        for i in range(n):
            big = abs(w[i]) > S.frac(1, 100000)
            S.true(f"asset {i} listed iff invested", big if i in idx else S.ite(big, False, True))
        S.true("names follow the index", list(pt.nonzero_assets) == [NAMES[i] for i in idx])
        for i in range(n):
            S.eq(f"get_weight {i}", pt.get_weight(NAMES[i]), w[i])
        comp = pt.composition
        S.true("composition assets", sorted(comp.index) == sorted(NAMES[i] for i in idx))
        for i in idx:
            S.eq(f"composition weight {i}", comp.loc[NAMES[i]].iloc[0], w[i])
        wpo = pt.weights_per_observation
        S.true("weights per observation columns", list(wpo.columns) == [NAMES[i] for i in idx])
        for i in idx:
            for t in range(2):
                S.eq(f"weights per observation {t},{i}", wpo[NAMES[i]].iloc[t], w[i])
