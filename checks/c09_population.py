"""C09: populations of portfolios."""

import itertools

import numpy as np
import pandas as pd
from skfolio import MultiPeriodPortfolio, PerfMeasure, Population, Portfolio, RatioMeasure, RiskMeasure

from checks.common import REAL
from symx import core, pdproxy
from symx.harness import case

META = {
    "bounds": "1..4 portfolios (5 thorough) with arbitrary measure values including ties, every quantile in [0,1]; every assignment of 2 names and 2 tags to 3 portfolios; names that already look like numbered duplicates",
    "outside": "larger populations, NaN measures, the plots",
    "assumptions": [REAL],
}


def ptf(S, v, k=0, **kw):
    return Portfolio(X=S.frame(S.array([[v + S.frac(1, 10)], [v - S.frac(1, 10)]]), columns=["a"]), weights=S.array([1]), **{"name": f"p{k}", **kw})


def pops(S, n, **kw):
    v = S.reals("v", n, -1, 1)
    return v, Population([ptf(S, v[k], k, **kw) for k in range(n)])


def idx(p):
    return int(p.name[1:])


for n, tiers in ((1, 0), (2, 0), (3, 0), (4, 0), (5, 1)):
    tiers = ("thorough",) if tiers else ("quick", "thorough")

    @case("C09", f"sort, min and max of {n}", tiers=tiers, max_paths=3000)
    def _(S, n=n):
        v, pop = pops(S, n)
        for rev in (False, True):
            s = [idx(p) for p in pop.sort_measure(PerfMeasure.MEAN, reverse=rev)]
            S.true("a permutation", sorted(s) == list(range(n)))
            for a, b in zip(s, s[1:]):
                S.true(f"sorted reverse={rev}", (v[b] <= v[a]) if rev else (v[a] <= v[b]))
        lo, hi = idx(pop.min_measure(PerfMeasure.MEAN)), idx(pop.max_measure(PerfMeasure.MEAN))
        for k in range(n):
            S.le("minimum", v[lo], v[k])
            S.le("maximum", v[k], v[hi])
        S.eq("measures", pop.measures(PerfMeasure.MEAN), v)
        mean = S.sum(v) * S.frac(1, n)
        S.eq("mean", pop.measures_mean(PerfMeasure.MEAN), mean)
        S.eq("std", pop.measures_std(PerfMeasure.MEAN), S.sqrt(S.sum((x - mean) * (x - mean) for x in v) * S.frac(1, n)))
        S.true("population unchanged", [idx(p) for p in pop] == list(range(n)))

    @case("C09", f"quantile of {n}", tiers=tiers, max_paths=4000)
    def _(S, n=n):
        v, pop = pops(S, n)
        q = S.real("q", 0, 1)
        k = idx(pop.quantile(PerfMeasure.MEAN, q))
        below = S.sum(S.ite(v[j] < v[k], 1, 0) for j in range(n))
        upto = S.sum(S.ite(v[j] <= v[k], 1, 0) for j in range(n))
        # its 1-based position in increasing order is n*q rounded to an integer (at least one)
        S.true("position not above the rounded rank", core.bor(below + 1 <= n * q + S.frac(1, 2), below == 0))
        S.true("position not below the rounded rank", upto >= n * q - S.frac(1, 2))


@case("C09", "quantile outside the unit interval", max_paths=100)
def _(S):
    v, pop = pops(S, 2)
    q = S.real("q", -1, 2)
    _, e = S.attempt(lambda: pop.quantile(PerfMeasure.MEAN, q))
    inside = S.all([q >= 0, q <= 1])
    S.eq("refused exactly outside", e is None, inside)


@case("C09", "filter by names and tags", max_paths=5000)
def _(S):
    # every assignment of names and tags
    n = 3
    nm = [("x", "xy")[int(S.int(f"n{i}", 0, 1))] for i in range(n)]  # one name inside the other
    tg = [("s", "st", None)[int(S.int(f"t{i}", 0, 2))] for i in range(n)]
    pop = Population([ptf(S, S.frac(i, 10), name=nm[i], tag=tg[i]) for i in range(n)])
    ps = list(pop)
    is_in = lambda sub, exp: len(sub) == len(exp) and all(a is b for a, b in zip(sub, exp))  # noqa: E731
    for names in (None, "x", "xy", ["x"], ["xy", "x"], []):
        for tags in (None, "s", "st", ["st"], ["s", "st"], []):
            nl = [names] if isinstance(names, str) else names
            tl = [tags] if isinstance(tags, str) else tags
            exp = [p for p, a, b in zip(ps, nm, tg) if (nl is None or a in nl) and (tl is None or b in tl)]
            got = pop.filter(names=names, tags=tags)
            S.true(f"names={names} tags={tags}", is_in(list(got), exp) and isinstance(got, Population))


for n in (2, 3):

    @case("C09", f"set parameters of {n}", max_paths=100)
    def _(S, n=n):
        v, pop = pops(S, n)
        for m in (PerfMeasure.ANNUALIZED_MEAN, RatioMeasure.SHARPE_RATIO, RiskMeasure.SEMI_VARIANCE):
            pop.measures(m)
        rf, af, mar = S.real("rf", -1, 1), S.real("af", 1, 300), S.real("mar", -1, 1)
        r = pop.set_portfolio_params(risk_free_rate=rf, annualized_factor=af, min_acceptable_return=mar, tag="new")
        S.true("returns the population", r is pop)
        sd = S.sqrt(S.frac(1, 50))
        for k in range(n):
            S.eq(f"annualised mean {k}", pop[k].annualized_mean, v[k] * af)
            S.eq(f"sharpe {k}", pop[k].sharpe_ratio, (v[k] - rf) / sd)
            lo = [S.min(v[k] + d - mar, 0) for d in (S.frac(1, 10), S.frac(-1, 10))]
            S.eq(f"semi variance {k}", pop[k].semi_variance, S.sum(x * x for x in lo))
            S.true(f"tag {k}", pop[k].tag == "new")

    @case("C09", f"unknown parameter is refused before anything changes {n}", max_paths=100)
    def _(S, n=n):
        v, pop = pops(S, n)
        rf = S.real("rf", 0, 1)
        _, e = S.attempt(lambda: pop.set_portfolio_params(risk_free_rate=rf, nonsense=1))
        S.true("ValueError", e == "ValueError")
        for k in range(n):
            S.eq(f"unchanged {k}", pop[k].risk_free_rate, 0)


ADDERS = {
    "append": lambda p, x: p.append(x),
    "insert": lambda p, x: p.insert(0, x),
    "extend": lambda p, x: p.extend([x]),
    "set": lambda p, x: p.__setitem__(0, x),
    "in-place add": lambda p, x: p.__iadd__([x]),
    "add": lambda p, x: p + [x],
    "construct": lambda p, x: Population([*p, x]),
}
for name, add in ADDERS.items():

    @case("C09", f"only portfolios are accepted by {name}", max_paths=50)
    def _(S, add=add):
        v, pop = pops(S, 2)
        _, e = S.attempt(lambda: add(pop, 3))
        S.true("TypeError", e == "TypeError")
        S.true("unchanged", [idx(p) for p in pop] == [0, 1])


@case("C09", "list behaviour", max_paths=50)
def _(S):
    v, pop = pops(S, 3)
    S.true("slice", isinstance(pop[1:], Population) and [idx(p) for p in pop[1:]] == [1, 2])
    s = pop[:1] + pop[2:]
    S.true("sum", isinstance(s, Population) and [idx(p) for p in s] == [0, 2])
    new = ptf(S, S.frac(1, 3), 9)
    pop.append(new)
    pop.insert(0, new)
    pop[2] = new
    S.true("edited", [idx(p) for p in pop] == [9, 0, 9, 2, 9])


NM = ["a", "a_1", "b"]


@case("C09", "composition has one column per portfolio", max_paths=3000)
def _(S):
    # every choice of 3 names, including names that look like a numbered duplicate
    nm = [NM[int(S.int(f"n{i}", 0, 2))] for i in range(3)]
    w = S.reals("w", 3, S.frac(1, 10), 1)
    ps = []
    for i in range(3):
        cols = ["x", "y"] if i < 2 else ["y", "z"]
        ps.append(Portfolio(X=S.frame(S.array([[1, 2], [3, 4]]), columns=cols), weights=S.array([w[i], S.frac(1, 2)]), name=nm[i]))
    comp = Population(ps).composition()
    S.true("unique names", len(set(comp.columns)) == 3 and comp.shape == (3, 3))
    exp = {"x": [w[0], w[1], 0], "y": [S.frac(1, 2), S.frac(1, 2), w[2]], "z": [0, 0, S.frac(1, 2)]}
    for a, row in exp.items():
        for i in range(3):
            S.eq(f"weight of {a} in {i}", comp.loc[a].iloc[i], row[i])


@case("C09", "contribution has one column per portfolio", max_paths=300)
def _(S):
    w = S.reals("w", 2, S.frac(1, 10), 1)
    mu = [S.frac(2, 100), S.frac(3, 100)]
    X = S.frame(S.array([[S.frac(1, 100), S.frac(2, 100)], [S.frac(3, 100), S.frac(4, 100)]]), columns=["x", "y"])
    ps = [Portfolio(X=X, weights=S.array([w[i], S.frac(1, 2)]), name="same") for i in range(2)]
    df = Population(ps).contribution(PerfMeasure.MEAN)
    S.true("shape", df.shape == (2, 2) and len(set(df.columns)) == 2)
    for i in range(2):
        S.eq(f"x {i}", df.loc["x"].iloc[i], w[i] * mu[0])
        S.eq(f"y {i}", df.loc["y"].iloc[i], S.frac(1, 2) * mu[1])


@case("C09", "multi-period columns", max_paths=300)
def _(S):
    w = S.reals("w", 2, S.frac(1, 10), 1)
    X = S.frame(S.array([[S.frac(1, 100), S.frac(2, 100)], [S.frac(3, 100), S.frac(4, 100)]]), columns=["x", "y"])
    mp = MultiPeriodPortfolio([Portfolio(X=X, weights=S.array([w[i], S.frac(1, 2)]), name=f"q{i}") for i in range(2)], name="M")
    pop = Population([mp, Portfolio(X=X, weights=S.array([S.frac(1, 4), 0]), name="P")])
    comp = pop.composition()
    S.true("names", list(comp.columns) == ["M_q0", "M_q1", "P"])
    comp2 = pop.composition(display_sub_ptf_name=False)
    S.true("unique names without sub names", len(set(comp2.columns)) == 3)
    for c in (comp, comp2):
        for i in range(2):
            S.eq(f"x {i}", c.loc["x"].iloc[i], w[i])
            S.eq(f"y {i}", c.loc["y"].iloc[i], S.frac(1, 2))
        S.eq("x of P", c.loc["x"].iloc[2], S.frac(1, 4))
        S.eq("y of P", c.loc["y"].iloc[2], 0)
