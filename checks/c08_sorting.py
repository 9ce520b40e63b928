"""C08: dominance and non-dominated sorting."""

import numpy as np
from skfolio import PerfMeasure, Population, Portfolio, RiskMeasure
from skfolio.utils.sorting import dominate, non_denominated_sort

from checks.common import REAL
from symx import core
from symx.harness import case

META = {
    "bounds": "dominance: up to 4 objectives; sorting: 3 points with up to 3 objectives, 4 points with 2 objectives (quick: first objective in a fixed weak order), 5 and 6 points with the first objective in a fixed weak order (thorough); every real fitness value including ties",
    "outside": "more points or objectives, NaN",
    "assumptions": [REAL],
}


def dom(S, a, b):
    return S.all([S.all([x >= y for x, y in zip(a, b)]), S.any([x > y for x, y in zip(a, b)])])


def fronts_spec(S, f):
    """level[k][i]: point i belongs to front k."""
    n = len(f)
    d = [[False if i == j else dom(S, f[j], f[i]) for j in range(n)] for i in range(n)]  # j dominates i
    left = [True] * n
    out = []
    for _ in range(n):
        lev = [S.all([left[i], S.all([core.bnot(S.all([left[j], d[i][j]])) for j in range(n) if j != i])]) for i in range(n)]
        out.append(lev)
        left = [S.all([left[i], core.bnot(lev[i])]) for i in range(n)]
    return out


def check_fronts(S, fr, f, first):
    n = len(f)
    spec = fronts_spec(S, f)
    flat = [i for x in fr for i in x]
    S.true("no point is listed twice", len(set(flat)) == len(flat))
    if first:
        S.true("one front", len(fr) == 1)
    else:
        S.true("every point is listed", sorted(flat) == list(range(n)))
        S.true("no empty front", all(len(x) > 0 for x in fr))
    for k in range(1 if first else n):
        mem = fr[k] if k < len(fr) else []
        for i in range(n):
            S.eq(f"front {k} contains {i}", i in mem, spec[k][i])


for m in (1, 2, 3, 4):

    @case("C08", f"dominance with {m} objectives", max_paths=3000)
    def _(S, m=m):
        a, b = S.reals("a", m), S.reals("b", m)
        S.eq("dominates", bool(dominate(a, b)), dom(S, a, b))


for n, m in ((1, 2), (2, 3), (3, 1), (3, 2), (3, 3)):
    for first in (False, True):

        @case("C08", f"sorting {n} points with {m} objectives first={first}", max_paths=8000, weight=n * m)
        def _(S, n=n, m=m, first=first):
            f = S.reals("f", (n, m))
            check_fronts(S, non_denominated_sort(f, first_front_only=first), f, first)


def ordered(name, n, first_obj, tiers):
    @case("C08", f"sorting {n} points, first objective {name}", tiers=tiers, max_paths=8000, weight=9, time_limit=600)
    def _(S):
        g = S.reals("g", n)
        f = S.array([[first_obj[i], g[i]] for i in range(n)])
        check_fronts(S, non_denominated_sort(f, first_front_only=False), f, False)


ordered("0123", 4, [0, 1, 2, 3], ("quick", "thorough"))
ordered("1102", 4, [1, 1, 0, 2], ("quick", "thorough"))
ordered("3021", 4, [3, 0, 2, 1], ("quick", "thorough"))
ordered("0000", 4, [0, 0, 0, 0], ("quick", "thorough"))
ordered("20134", 5, [2, 0, 1, 3, 4], ("thorough",))
ordered("21012", 5, [2, 1, 0, 1, 2], ("thorough",))
ordered("011223", 6, [0, 1, 1, 2, 2, 3], ("thorough",))


@case("C08", "sorting 4 points with 2 objectives", tiers=("thorough",), max_paths=20000, time_limit=1500, weight=20)
def _(S):
    f = S.reals("f", (4, 2))
    check_fronts(S, non_denominated_sort(f, first_front_only=False), f, False)


@case("C08", "no points")
def _(S):
    S.real("unused")
    S.true("no fronts", non_denominated_sort(S.array(np.zeros((0, 2))), first_front_only=False) == [])


def ptf(S, r, meas):
    X = S.array([[x] for x in r])
    return Portfolio(X=X, weights=S.array([1]), fitness_measures=list(meas))


for meas in ([PerfMeasure.MEAN], [PerfMeasure.MEAN, RiskMeasure.WORST_REALIZATION]):
    for first in (False, True):

        @case("C08", f"population sort {len(meas)} measures first={first}", max_paths=3000, sort="network")
        def _(S, meas=meas, first=first):
            R = [S.reals(f"r{k}", 2, -1, 1) for k in range(3)]
            pop = Population([ptf(S, r, meas) for r in R])
            fr = pop.non_denominated_sort(first_front_only=first)
            f = [[(r[0] + r[1]) / 2, S.min(r)][: len(meas)] for r in R]
            check_fronts(S, fr, f, first)


@case("C08", "mixed fitness measures are refused")
def _(S):
    R = [S.reals(f"r{k}", 2, -1, 1) for k in range(2)]
    pop = Population([ptf(S, R[0], [PerfMeasure.MEAN]), ptf(S, R[1], [RiskMeasure.VARIANCE])])
    _, e = S.attempt(lambda: pop.non_denominated_sort())
    S.true("ValueError", e == "ValueError")


@case("C08", "portfolio comparison operators", max_paths=500)
def _(S):
    R = [S.reals(f"r{k}", 2, -1, 1) for k in range(2)]
    p, q = (ptf(S, r, [PerfMeasure.MEAN, RiskMeasure.WORST_REALIZATION]) for r in R)
    fp, fq = ([(r[0] + r[1]) / 2, S.min(r)] for r in R)
    d = dom(S, fp, fq)
    same = S.all([x == y for x, y in zip(fp, fq)])
    S.eq("greater", bool(p > q), d)
    S.eq("equal", bool(p == q), same)
    S.eq("greater or equal", bool(p >= q), S.any([d, same]))
    S.eq("subset of objectives", bool(p.dominates(q, idx=slice(0, 1))), fp[0] > fq[0])
