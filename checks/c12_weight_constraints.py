"""C12: the weights an optimizer may return are exactly the documented ones."""

import numpy as np
import pandas as pd
from skfolio import RiskMeasure as RM
from skfolio.optimization import MeanRisk, ObjectiveFunction

from checks import convex
from symx import core, cvx
from symx.harness import case

META = {
    "bounds": "every real weight vector of 3 (mixed-integer: 3 and 4) assets between -3 and 3, with symbolic limits or fixed limits of several magnitudes, given as numbers, arrays and dictionaries; minimum-risk and maximum-ratio problems",
    "outside": "more assets; limits and coefficients of the linear constraints symbolic at the same time as the weights; the mixed-integer formulations of ratio problems when the scale variable exceeds their constant 1000",
    "assumptions": convex.ASSUME,
}

NAMES = ["a", "b", "c", "d"]
GROUPS = [["x", "x", "y", "y"], ["u", "v", "u", "v"]]
RET = [[2, -1, 1, 0], [-3, 1, 0, 1], [1, 1, -1, 2]]
MU = [(3, 10), (1, 5), (1, 10), (1, 4)]


def absv(S, x):
    return S.max(x, -x)


def base(n):
    return dict(min_weights=None, max_weights=None, budget=None)


def frame(n, named=True, T=3):
    X = np.zeros((T, n))
    return pd.DataFrame(X, columns=NAMES[:n]) if named else X


def total(S, v):
    return S.sum(v)


# Each entry: (name, arguments(S, n), limits(S, v, f, n) with f the scale (1 for plain problems))
def box(S, lo=None, hi=None, n=3, name="box"):
    def limits(v, f):
        out = []
        for i in range(n):
            if lo is not None:
                out.append((f"{name}: weight {i} at least its minimum", "le", lo[i] * f - v[i]))
            if hi is not None:
                out.append((f"{name}: weight {i} at most its maximum", "le", v[i] - hi[i] * f))
        return out

    return limits


def fr(S, *xs):
    return [S.frac(*x) if isinstance(x, tuple) else S.frac(x) for x in xs]


SPECS = {}


def spec(name, n=3, named=True, solver=None):
    def deco(f):
        SPECS[name] = (f, n, named, solver)
        return f

    return deco


@spec("default: long only, fully invested", named=False)
def _(S, n):
    return {"min_weights": 0.0, "max_weights": 1.0, "budget": 1.0}, lambda v, f: [
        *box(S, [0] * n, [1] * n)(v, f),
        ("budget", "eq", total(S, v) - f),
    ]


@spec("scalar bounds", named=False)
def _(S, n):
    lo, hi = S.frac(-1, 2), S.frac(3, 4)
    return {"min_weights": lo, "max_weights": hi}, box(S, [lo] * n, [hi] * n)


@spec("array bounds", named=False)
def _(S, n):
    lo, hi = fr(S, (-1, 2), 0, (1, 10)), fr(S, (3, 4), 1, (1, 2))
    return {"min_weights": S.array(lo), "max_weights": S.array(hi)}, box(S, lo, hi)


@spec("bounds by asset name, some not given")
def _(S, n):
    lo, hi = S.frac(-1, 2), S.frac(3, 4)
    return {"min_weights": {"b": -0.5}, "max_weights": {"c": 0.75, "a": 2}}, box(S, [0, lo, 0], [2, 1, hi])


@spec("only a minimum", named=False)
def _(S, n):
    return {"min_weights": S.frac(1, 10)}, box(S, [S.frac(1, 10)] * n)


@spec("only a maximum by name")
def _(S, n):
    return {"max_weights": {"a": 0.125}}, box(S, None, [S.frac(1, 8), 1, 1])


@spec("budget range", named=False)
def _(S, n):
    lo, hi = S.frac(1, 2), S.frac(3, 2)
    return {"min_budget": lo, "max_budget": hi}, lambda v, f: [
        ("budget at least", "le", lo * f - total(S, v)),
        ("budget at most", "le", total(S, v) - hi * f),
    ]


@spec("long and short limits", named=False)
def _(S, n):
    lo, sh = S.frac(5, 4), S.frac(1, 4)
    return {"max_long": lo, "max_short": sh}, lambda v, f: [
        ("sum of long weights", "le", S.sum(S.max(x, 0) for x in v) - lo * f),
        ("sum of short weights", "le", S.sum(S.max(-x, 0) for x in v) - sh * f),
    ]


@spec("turnover limit", named=False)
def _(S, n):
    p, m = fr(S, (1, 2), (1, 4), (-1, 4)), S.frac(1, 5)
    return {"max_turnover": m, "previous_weights": S.array(p)}, lambda v, f: [
        (f"turnover of weight {i}", "le", absv(S, v[i] - p[i] * f) - m * f) for i in range(n)
    ]


@spec("turnover limit, previous weights by name")
def _(S, n):
    m = S.frac(1, 5)
    return {"max_turnover": m, "previous_weights": {"b": 0.5}}, lambda v, f: [
        (f"turnover of weight {i}", "le", absv(S, v[i] - (S.frac(1, 2) if i == 1 else 0) * f) - m * f) for i in range(n)
    ]


@spec("linear constraints between assets")
def _(S, n):
    c = ["a + 0.25 <= 2 * b", "c >= 0.125", "a == 0.5 * c + 0.25"]
    return {"linear_constraints": c}, lambda v, f: [
        ("first sentence", "le", v[0] + S.frac(1, 4) * f - 2 * v[1]),
        ("second sentence", "le", S.frac(1, 8) * f - v[2]),
        ("third sentence", "eq", v[0] - S.frac(1, 2) * v[2] - S.frac(1, 4) * f),
    ]


@spec("linear constraints between groups")
def _(S, n):
    g = [GROUPS[0][:n], GROUPS[1][:n]]
    return {"groups": g, "linear_constraints": ["x <= 0.75", "0.5 * u >= y", "v == 0.25"]}, lambda v, f: [
        ("first group limit", "le", v[0] + v[1] - S.frac(3, 4) * f),
        ("second group limit", "le", v[2] - S.frac(1, 2) * (v[0] + v[2])),
        ("third group limit", "eq", v[1] - S.frac(1, 4) * f),
    ]


@spec("linear constraints on groups by name")
def _(S, n):
    g = {"a": ["x", "u"], "b": ["x", "v"], "c": ["y", "u"]}
    return {"groups": g, "linear_constraints": ["x <= 0.75", "u >= 0.25"]}, lambda v, f: [
        ("first group limit", "le", v[0] + v[1] - S.frac(3, 4) * f),
        ("second group limit", "le", S.frac(1, 4) * f - v[0] - v[2]),
    ]


@spec("matrix inequality", named=False)
def _(S, n):
    A, b = [[1, -2, S.frac(1, 2)], [0, 1, -1]], [S.frac(1, 4), S.frac(-1, 8)]
    return {"left_inequality": S.array(A), "right_inequality": S.array(b)}, lambda v, f: [
        (f"row {r}", "le", S.sum(A[r][i] * v[i] for i in range(n)) - b[r] * f) for r in range(2)
    ]


@spec("everything at once")
def _(S, n):
    p = fr(S, (1, 2), (1, 4), (1, 4))
    kw = dict(min_weights={"a": -0.25}, max_weights=S.frac(4, 5), budget=S.frac(1), max_long=S.frac(6, 5), max_short=S.frac(1, 5))
    kw |= dict(max_turnover=S.frac(1, 2), previous_weights=S.array(p), linear_constraints=["b + c <= 1.5 * a + 0.75"])
    return kw, lambda v, f: [
        *box(S, [S.frac(-1, 4), 0, 0], [S.frac(4, 5)] * n)(v, f),
        ("budget", "eq", total(S, v) - f),
        ("long", "le", S.sum(S.max(x, 0) for x in v) - S.frac(6, 5) * f),
        ("short", "le", S.sum(S.max(-x, 0) for x in v) - S.frac(1, 5) * f),
        *[(f"turnover {i}", "le", absv(S, v[i] - p[i] * f) - S.frac(1, 2) * f) for i in range(n)],
        ("sentence", "le", v[1] + v[2] - S.frac(3, 2) * v[0] - S.frac(3, 4) * f),
    ]


# ----------------------------------------------------------------- mixed-integer limits
def held(S, v, idx):
    return S.sum(S.ite(v[i] == 0, 0, 1) for i in idx)


def cardinal(S, v, idx, k, name):
    return (name, "true", held(S, v, idx) <= k)


def thresholds(S, v, f, lo, sh=None):
    out = []
    for i, x in enumerate(v):
        ok = [x == 0, x >= lo[i] * f]
        if sh is not None:
            ok.append(x <= sh[i] * f)
        out.append((f"weight {i} is zero or beyond its threshold", "true", S.any(ok)))
    return out


def mip(name, n, lo, hi, kw, limits):
    @spec("integer: " + name, n=n, solver="SCIP")
    def _(S, n):
        k = {"min_weights": S.frac(*lo) if isinstance(lo, tuple) else S.array(fr(S, *lo)), "max_weights": S.frac(*hi) if isinstance(hi, tuple) else S.array(fr(S, *hi)), "solver": "SCIP"}
        l = [S.frac(*lo)] * n if isinstance(lo, tuple) else fr(S, *lo)
        h = [S.frac(*hi)] * n if isinstance(hi, tuple) else fr(S, *hi)
        k |= {a: b(S) if callable(b) else b for a, b in kw.items()}
        return k, lambda v, f: [*box(S, l, h, n)(v, f), *limits(S, v, f)]


mip("number of assets, long only", 3, (0, 1), (1, 1), {"cardinality": 2}, lambda S, v, f: [cardinal(S, v, range(3), 2, "at most 2 assets")])
mip("number of assets, short allowed", 3, (-1, 2), (3, 4), {"cardinality": 2}, lambda S, v, f: [cardinal(S, v, range(3), 2, "at most 2 assets")])
mip("number of assets, only some may be shorted", 3, [0, (-1, 2), (-1, 1)], [(1, 1), (1, 2), (3, 4)], {"cardinality": 2}, lambda S, v, f: [cardinal(S, v, range(3), 2, "at most 2 assets")])
mip("number of assets, one must be held", 3, [(1, 10), 0, 0], [(1, 1), (1, 2), (3, 4)], {"cardinality": 2}, lambda S, v, f: [cardinal(S, v, range(3), 2, "at most 2 assets")])
mip(
    "thresholds, only some may be shorted",
    3,
    [0, (-3, 4), (-1, 1)],
    [(1, 1), (1, 2), (3, 4)],
    {"threshold_long": lambda S: S.array(fr(S, (1, 5), (1, 4), (1, 10))), "threshold_short": lambda S: S.array(fr(S, (-1, 10), (-1, 4), (-1, 2)))},
    lambda S, v, f: thresholds(S, v, f, fr(S, (1, 5), (1, 4), (1, 10)), fr(S, (-1, 10), (-1, 4), (-1, 2))),
)
mip("one asset", 3, (-1, 2), (1, 1), {"cardinality": 1}, lambda S, v, f: [cardinal(S, v, range(3), 1, "at most 1 asset")])
mip("number of assets not binding", 3, (0, 1), (1, 1), {"cardinality": 3, "threshold_long": lambda S: S.frac(1, 10)}, lambda S, v, f: thresholds(S, v, f, [S.frac(1, 10)] * 3))
mip(
    "assets per group",
    4,
    (-1, 2),
    (1, 1),
    {"groups": GROUPS, "group_cardinalities": {"x": 1, "v": 1}},
    lambda S, v, f: [cardinal(S, v, (0, 1), 1, "at most 1 of the first group"), cardinal(S, v, (1, 3), 1, "at most 1 of the second group")],
)
mip(
    "assets per group and in total, threshold by name",
    4,
    (0, 1),
    (1, 1),
    {"groups": GROUPS, "group_cardinalities": {"y": 1}, "cardinality": 2, "threshold_long": {"a": 0.25, "d": 0.375}},
    lambda S, v, f: [cardinal(S, v, (2, 3), 1, "at most 1 of the group"), cardinal(S, v, range(4), 2, "at most 2"), *thresholds(S, v, f, fr(S, (1, 4), 0, 0, (3, 8)))],
)
mip("long threshold", 3, (0, 1), (1, 1), {"threshold_long": lambda S: S.array(fr(S, (1, 5), (1, 10), 0))}, lambda S, v, f: thresholds(S, v, f, fr(S, (1, 5), (1, 10), 0)))
mip(
    "long and short thresholds",
    3,
    (-1, 1),
    (1, 1),
    {"threshold_long": lambda S: S.frac(1, 5), "threshold_short": lambda S: S.frac(-1, 10)},
    lambda S, v, f: thresholds(S, v, f, [S.frac(1, 5)] * 3, [S.frac(-1, 10)] * 3),
)
mip(
    "long and short thresholds by asset, number of assets",
    3,
    [(-1, 2), (-3, 4), (-1, 1)],
    [(1, 1), (1, 2), (3, 4)],
    {"cardinality": 2, "threshold_long": lambda S: S.array(fr(S, (1, 5), (1, 4), (1, 10))), "threshold_short": lambda S: S.array(fr(S, (-1, 10), (-1, 4), (-1, 2)))},
    lambda S, v, f: [*thresholds(S, v, f, fr(S, (1, 5), (1, 4), (1, 10)), fr(S, (-1, 10), (-1, 4), (-1, 2))), cardinal(S, v, range(3), 2, "at most 2")],
)
mip(
    "thresholds, group counts, shorts",
    4,
    (-1, 1),
    (1, 1),
    {"groups": GROUPS, "group_cardinalities": {"x": 1, "u": 1}, "threshold_long": lambda S: S.frac(1, 5), "threshold_short": lambda S: S.frac(-1, 10)},
    lambda S, v, f: [*thresholds(S, v, f, [S.frac(1, 5)] * 4, [S.frac(-1, 10)] * 4), cardinal(S, v, (0, 1), 1, "first group"), cardinal(S, v, (0, 2), 1, "second group")],
)
mip(
    "short threshold of zero",
    3,
    (-1, 1),
    (1, 1),
    {"threshold_long": lambda S: S.frac(1, 5), "threshold_short": lambda S: S.frac(0)},
    lambda S, v, f: thresholds(S, v, f, [S.frac(1, 5)] * 3, [0] * 3),
)
mip(
    "short threshold without short weights",
    3,
    (0, 1),
    (1, 1),
    {"threshold_long": lambda S: S.frac(1, 5), "threshold_short": lambda S: S.frac(-1, 10)},
    lambda S, v, f: thresholds(S, v, f, [S.frac(1, 5)] * 3),
)


def prior(S, n):
    return convex.prior(S, [r[:n] for r in RET], mu=fr(S, *MU[:n]), key=f"c12-{n}")


def away(S, v, solver):
    """Mixed-integer solvers work with a tolerance: weights are zero or not tiny."""
    if solver:
        for x in v:
            S.assume(S.any([x == 0, x >= S.frac(1, 100), x <= S.frac(-1, 100)]))


for name, (f, n, named, solver) in SPECS.items():

    @case("C12", f"minimum risk, {name}", extra=cvx.extra, points=1)
    def _(S, f=f, n=n, named=named, solver=solver):
        w = S.reals("w", n, -3, 3)
        away(S, w, solver)
        kw, limits = f(S, n)
        pr = prior(S, n)
        make = lambda **k: MeanRisk(prior_estimator=pr, risk_measure=RM.WORST_REALIZATION, **{**base(n), **kw, **k})  # noqa: E731
        convex.decide(S, make, frame(n, named), w, limits(w, 1))

    @case("C12", f"maximum ratio, {name}", extra=cvx.extra, points=1, tol=1e-4)
    def _(S, f=f, n=n, named=named, solver=solver):
        kw, limits = f(S, n)
        pr = prior(S, n)
        make = lambda **k: MeanRisk(prior_estimator=pr, objective_function=ObjectiveFunction.MAXIMIZE_RATIO, risk_measure=RM.WORST_REALIZATION, **{**base(n), **kw, "budget": None if "min_budget" in kw else S.frac(1), **k})  # noqa: E731

        def D(v, s):
            if solver and not S.symbolic:
                away(S, v, solver)
            return [*limits(v, s), ("fully invested", "eq", S.sum(v) - s)] if "min_budget" not in kw else limits(v, s)

        convex.decide_ratio(S, make, frame(n, named), n, fr(S, *MU[:n]), D)


for name, kw in {
    "cardinality without a minimum": dict(cardinality=1, min_weights=None),
    "cardinality without a maximum": dict(cardinality=1, max_weights=None),
    "cardinality with strictly positive minimums": dict(cardinality=1, min_weights=0.1),
    "group cardinality without groups": dict(group_cardinalities={"x": 1}),
    "long threshold with short weights but no short threshold": dict(threshold_long=0.1, min_weights=-1),
    "short threshold without long threshold": dict(threshold_short=-0.1, min_weights=-1),
    "budget and its range": dict(min_budget=0.5, solver="CLARABEL"),
    "budget and its upper limit": dict(max_budget=0.5, solver="CLARABEL"),
    "integer limits with a continuous solver": dict(cardinality=1, solver="CLARABEL"),
    "long limit of zero": dict(max_long=0, solver="CLARABEL"),
    "short limit of zero": dict(max_short=0, solver="CLARABEL"),
    "turnover without previous weights": dict(max_turnover=0.1, solver="CLARABEL"),
    "sentences without names": dict(linear_constraints=["a <= 1"], solver="CLARABEL", named=False),
    "matrix of the wrong width": dict(left_inequality=[[1.0, 2.0]], right_inequality=[1.0], solver="CLARABEL"),
    "matrix and vector of different lengths": dict(left_inequality=[[1.0, 2.0, 3.0]], right_inequality=[1.0, 2.0], solver="CLARABEL"),
}.items():

    @case("C12", f"refused: {name}", extra=cvx.extra, nowitness=True)
    def _(S, kw=kw):
        kw = {"solver": "SCIP", **kw}
        named = kw.pop("named", True)
        _, e = S.attempt(lambda: MeanRisk(prior_estimator=prior(S, 3), **kw).fit(frame(3, named)))
        S.eq("ValueError", e == "ValueError", True)
