"""C07: multi-period portfolios are the concatenation of their portfolios, whatever the history."""

import itertools

import numpy as np
import pandas as pd
import skfolio.measures as sm
from skfolio import MultiPeriodPortfolio, PerfMeasure, Portfolio, RatioMeasure, RiskMeasure

from checks.common import REAL
from symx.harness import case

META = {
    "bounds": "up to 4 single-period portfolios of 1..3 observations with arbitrary returns; histories: construct, read every measure, then every sequence of up to two (three in thorough) operations out of append / replace / delete / assign list / change setting, reading after every operation; arbitrary integer observation labels for the overlap check",
    "outside": "longer histories (each operation is checked from a fully populated cache)",
    "assumptions": [REAL],
}
NAMES = ["aaa", "bb", "c"]
MEAS = [PerfMeasure.MEAN, PerfMeasure.ANNUALIZED_MEAN, RiskMeasure.VARIANCE, RiskMeasure.ANNUALIZED_VARIANCE, RiskMeasure.STANDARD_DEVIATION,
        RiskMeasure.SEMI_VARIANCE, RiskMeasure.MEAN_ABSOLUTE_DEVIATION, RatioMeasure.SHARPE_RATIO]


def ptf(S, k, T, off=0, n=1, **kw):
    """Portfolio number k with T arbitrary returns (one asset at weight 1)."""
    R = S.reals(f"r{k}", (T, 1), -1, 1)
    X = S.frame(R, columns=["a"], index=pd.RangeIndex(off, off + T))
    return Portfolio(X=X, weights=S.array([1]), name=f"p{k}", **kw), list(R[:, 0])


SET = dict(rf="risk_free_rate", af="annualized_factor", mar="min_acceptable_return")


def conf(S):
    return dict(risk_free_rate=S.real("rf", 0, 1), annualized_factor=S.real("af", 1, 300), min_acceptable_return=S.real("mar", -1, 1))


def spec(S, m, r, c):
    r = S.array(r)
    if m is RatioMeasure.SHARPE_RATIO:
        return (sm.mean(r) - c["risk_free_rate"]) / sm.standard_deviation(r)
    kw = {}
    name = m.value.replace("annualized_", "")
    if name in ("semi_variance", "mean_absolute_deviation"):
        kw["min_acceptable_return"] = c["min_acceptable_return"]
    v = getattr(sm, name)(r, **kw)
    return v * c["annualized_factor"] if m.is_annualized else v


def agree(S, tag, mpp, items, c, measures=MEAS):
    """mpp must look exactly like the list `items` of (portfolio, returns)."""
    S.true(f"{tag} length", len(mpp) == len(items))
    S.true(f"{tag} portfolios", all(a is b[0] for a, b in zip(mpp, items)))
    r = [x for _, rr in items for x in rr]
    S.eq(f"{tag} returns", mpp.returns, S.array(r))
    S.true(f"{tag} observations", list(mpp.observations) == [o for p, _ in items for o in p.observations])
    S.true(f"{tag} n_observations", mpp.n_observations == len(r))
    for m in measures:
        S.eq(f"{tag} {m.value}", getattr(mpp, m.value), spec(S, m, r, c))
    S.eq(f"{tag} cumulative", mpp.cumulative_returns, S.array([S.sum(r[: i + 1]) for i in range(len(r))]))
    S.eq(f"{tag} fitness", mpp.fitness, S.array([spec(S, PerfMeasure.MEAN, r, c), -spec(S, RiskMeasure.VARIANCE, r, c)]))


OPS = {
    "append": lambda m, L, new: (m.append(new[0]), L + [new]),
    "replace first": lambda m, L, new: (m.__setitem__(0, new[0]), [new] + L[1:]),
    "replace last": lambda m, L, new: (m.__setitem__(-1, new[0]), L[:-1] + [new]),
    "delete first": lambda m, L, new: (m.__delitem__(0), L[1:]),
    "delete last": lambda m, L, new: (m.__delitem__(-1), L[:-1]),
    "assign": lambda m, L, new: (setattr(m, "portfolios", [new[0], L[0][0]]), [new, L[0]]),
    "setting": None,
}


def history(S, ops):
    c = conf(S)
    L = [ptf(S, k, 2, 10 * k, compounded=True, risk_free_rate=1, annualized_factor=7) for k in range(2)]
    given = [p for p, _ in L]
    m = MultiPeriodPortfolio(portfolios=given, **c)
    agree(S, "new", m, L, c)
    twin, L0, c0 = m.copy(), list(L), dict(c)
    agree(S, "copy", twin, L, c)
    for i, op in enumerate(ops):
        new = ptf(S, 10 + i, 1 + i % 2, 100 + 10 * i)
        if op == "setting":
            c = dict(c, risk_free_rate=S.real(f"rf{i}", 0, 1), annualized_factor=S.real(f"af{i}", 1, 300), min_acceptable_return=S.real(f"mar{i}", -1, 1))
            for k in ("risk_free_rate", "annualized_factor", "min_acceptable_return"):
                setattr(m, k, c[k])
        else:
            if len(L) <= 1 and op.startswith("delete"):
                return
            _, L = OPS[op](m, L, new)
        if len([x for _, r in L for x in r]) < 2:
            return
        agree(S, f"after {op} ({i})", m, L, c)
    S.true("the list given by the caller is untouched", len(given) == 2 and all(a is b[0] for a, b in zip(given, L0)))
    agree(S, "copy afterwards", twin, L0, c0, MEAS[:3])


for a in OPS:
    for b in OPS:

        @case("C07", f"history {a}, {b}", budget_ms=5000)
        def _(S, a=a, b=b):
            history(S, [a, b])

for seq in itertools.product(OPS, repeat=3):

    @case("C07", f"history {', '.join(seq)}", tiers=("thorough",), budget_ms=5000)
    def _(S, seq=seq):
        history(S, seq)


@case("C07", "starting from an empty list", budget_ms=5000)
def _(S):
    c = conf(S)
    m = MultiPeriodPortfolio(**c)
    S.true("empty", len(m) == 0 and len(m.returns) == 0)
    L = []
    for k in range(3):
        L.append(ptf(S, k, 2, 10 * k))
        m.append(L[-1][0])
        agree(S, f"append {k}", m, L, c)
    S.true("contains", (L[0][0] in m) and (3 not in m))
    S.true("slices", [p.name for p in m[1:]] == ["p1", "p2"])


def labelled(S, k, w=None):
    a = S.int(f"a{k}", 0, 20)
    b = S.int(f"b{k}", 0, 20)
    S.assume(a < b)
    X = S.frame(S.array([[S.frac(k + 1, 100)], [S.frac(-k, 100)]]), columns=["a"], index=pd.Index([a, b], dtype=object if S.symbolic else int))
    return Portfolio(X=X, weights=S.array([1]), name=f"p{k}"), a, b


for how in ("construct", "append", "assign", "replace middle"):

    @case("C07", f"overlapping observations: {how}", max_paths=500)
    def _(S, how=how):
        P = [labelled(S, k) for k in range(3)]
        ok = [P[0][2] < P[1][1], P[1][2] < P[2][1]]
        ps = [p for p, _, _ in P]
        if how == "construct":
            m, e = S.attempt(lambda: MultiPeriodPortfolio(portfolios=ps, check_observations_order=True))
            good = S.all(ok)
            before = None
        elif how == "append":
            S.assume(ok[0])
            m = MultiPeriodPortfolio(portfolios=ps[:2], check_observations_order=True)
            before = 2
            _, e = S.attempt(lambda: m.append(ps[2]))
            good = ok[1]
        elif how == "assign":
            m = MultiPeriodPortfolio(portfolios=ps[:1], check_observations_order=True)
            before = 1
            _, e = S.attempt(lambda: setattr(m, "portfolios", ps))
            good = S.all(ok)
        else:
            q = labelled(S, 7)
            S.assume(S.all([P[0][2] < q[1], q[2] < P[2][1]]))
            m = MultiPeriodPortfolio(portfolios=[ps[0], q[0], ps[2]], check_observations_order=True)
            before = 3
            _, e = S.attempt(lambda: m.__setitem__(1, ps[1]))
            good = S.all(ok)
        if e is None:
            S.true("accepted only in order", good)
        else:
            S.true("refused only when overlapping", S.ite(good, False, True))
            S.true("a ValueError", e == "ValueError")
            if before is not None:
                S.true("unchanged after a refusal", len(m) == before and len(m.returns) == 2 * before)


ARITH = {
    "neg": (lambda m, o, k: -m, lambda w, v, k: -w),
    "abs": (lambda m, o, k: abs(m), lambda w, v, k: abs(w)),
    "mul": (lambda m, o, k: m * k, lambda w, v, k: w * k),
    "rmul": (lambda m, o, k: k * m, lambda w, v, k: w * k),
    "truediv": (lambda m, o, k: m / k, lambda w, v, k: w / k),
    "add": (lambda m, o, k: m + o, lambda w, v, k: w + v),
    "sub": (lambda m, o, k: m - o, lambda w, v, k: w - v),
}
for op, (code, sp) in ARITH.items():

    @case("C07", f"arithmetic {op}", max_paths=500)
    def _(S, op=op, code=code, sp=sp):
        c = dict(conf(S), compounded=True, cvar_beta=S.frac(1, 3), value_at_risk_beta=S.frac(1, 5), cdar_beta=S.frac(2, 5), evar_beta=S.frac(1, 4),
                 edar_beta=S.frac(1, 6), drawdown_at_risk_beta=S.frac(1, 7), entropic_risk_measure_beta=S.frac(1, 8),
                 entropic_risk_measure_theta=S.frac(3, 2))
        k = S.real("k", S.frac(1, 4), 3)
        X = [S.array([[S.frac(i + j + t, 100) for i in range(2)] for t in range(2)]) for j in range(2)]
        W = [S.reals(f"w{j}", 2, -1, 1) for j in range(2)]
        V = [S.reals(f"v{j}", 2, -1, 1) for j in range(2)]
        fit = [RiskMeasure.CDAR, PerfMeasure.MEAN]
        mk = lambda WW: MultiPeriodPortfolio([Portfolio(X=X[j], weights=WW[j]) for j in range(2)], tag="tg", fitness_measures=fit, **c)  # noqa: E731
        m, o = mk(W), mk(V)
        q = code(m, o, k)
        S.true("length", len(q) == 2)
        rr = []
        for j in range(2):
            e = [sp(W[j][i], V[j][i], k) for i in range(2)]
            S.eq(f"weights {j}", q[j].weights, S.array(e))
            rr += [S.sum(e[i] * X[j][t, i] for i in range(2)) for t in range(2)]
        S.eq("returns", q.returns, S.array(rr))
        for a, v in c.items():
            S.eq(f"keeps {a}", getattr(q, a), v)
        S.true("keeps fitness measures and tag", q.fitness_measures == fit and q.tag == "tg")
        S.eq("operand unchanged", m[0].weights, W[0])


@case("C07", "composition and weights per observation", max_paths=300)
def _(S):
    W = [S.reals(f"w{j}", 2, -1, 1) for j in range(2)]
    cols = [["aaa", "bb"], ["bb", "c"]]
    ps = []
    for j in range(2):
        for x in W[j]:
            S.assume(abs(x) > S.frac(1, 1000))
        X = S.frame(S.array([[S.frac(i + j, 100) for i in range(2)] for t in range(2)]), columns=cols[j], index=pd.RangeIndex(10 * j, 10 * j + 2))
        ps.append(Portfolio(X=X, weights=W[j], name="same"))
    m = MultiPeriodPortfolio(ps)
    comp = m.composition
    full = {0: {"aaa": W[0][0], "bb": W[0][1], "c": 0}, 1: {"aaa": 0, "bb": W[1][0], "c": W[1][1]}}
    S.true("one column per portfolio", comp.shape == (3, 2) and len(set(comp.columns)) == 2)
    for j in range(2):
        for a in ("aaa", "bb", "c"):
            S.eq(f"composition {j} {a}", comp.loc[a].iloc[j], full[j][a])
    wpo = m.weights_per_observation
    S.true("observations", list(wpo.index) == [0, 1, 10, 11])
    for t, j in ((0, 0), (1, 0), (10, 1), (11, 1)):
        for a in ("aaa", "bb", "c"):
            S.eq(f"weight of {a} at {t}", wpo.loc[t, a], full[j][a])
