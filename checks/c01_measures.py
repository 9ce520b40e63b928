"""C01: dispersion and moment measures equal their definitions."""

import types

import numpy as np
import scipy.optimize as sco
import skfolio.measures as sm
import skfolio.measures._measures as mm

from checks.common import REAL, div, mean
from symx.harness import case

META = {
    "bounds": "every real return series with 2..5 observations (6 in the thorough tier for the linear measures), every real target return; every real weight vector with 1..4 assets",
    "outside": "longer series, NaN, floating point rounding",
    "assumptions": [REAL],
}


def register(n, tiers=("quick", "thorough")):
    @case("C01", f"variance n={n}", tiers)
    def _(S):
        r = S.reals("r", n)
        m = mean(S, r)
        d2 = S.sum((x - m) * (x - m) for x in r)
        S.eq("mean", sm.mean(r), m)
        S.eq("variance", sm.variance(r), div(S, d2, n - 1))
        sd = sm.standard_deviation(r)
        S.eq("std^2", sd * sd, div(S, d2, n - 1))
        S.le("std>=0", 0, sd)

    @case("C01", f"central moments n={n}", tiers)
    def _(S):
        r = S.reals("r", n)
        m = mean(S, r)
        var = div(S, S.sum((x - m) * (x - m) for x in r), n - 1)
        S.assume(var > S.frac(1, 1000))
        m3 = div(S, S.sum((x - m) ** 3 for x in r), n)
        m4 = div(S, S.sum((x - m) ** 4 for x in r), n)
        S.eq("third central moment", sm.third_central_moment(r), m3)
        S.eq("fourth central moment", sm.fourth_central_moment(r), m4)
        sd = S.sqrt(var)
        S.eq("skew", sm.skew(r), m3 / (sd * var))
        S.eq("kurtosis", sm.kurtosis(r), m4 / (var * var))

    @case("C01", f"gini n={n}", tiers, max_paths=6000)
    def _(S):
        r = S.reals("r", n)
        pairs = [abs(r[i] - r[j]) for i in range(n) for j in range(i)]
        S.eq("gini mean difference", sm.gini_mean_difference(r), div(S, 2 * S.sum(pairs), n * (n - 1)))

    for tgt in ("default", "given"):

        @case("C01", f"semi n={n} mar={tgt}", tiers, weight=n)
        def _(S, tgt=tgt):
            r = S.reals("r", n)
            m = mean(S, r)
            kw = {}
            if tgt == "given":
                m = S.real("mar")
                kw = {"min_acceptable_return": m}
            dn = [S.max(0, m - x) for x in r]
            sv = div(S, S.sum(x * x for x in dn), n - 1)
            S.eq("semi variance", sm.semi_variance(r, **kw), sv)
            sd = sm.semi_deviation(r, **kw)
            S.eq("semi deviation^2", sd * sd, sv)
            S.le("semi deviation>=0", 0, sd)
            S.eq("first lower partial moment", sm.first_lower_partial_moment(r, **kw), div(S, S.sum(dn), n))
            S.eq("fourth lower partial moment", sm.fourth_lower_partial_moment(r, **kw), div(S, S.sum(x**4 for x in dn), n))
            S.eq("mean absolute deviation", sm.mean_absolute_deviation(r, **kw), div(S, S.sum(abs(x - m) for x in r), n))


for n in (2, 3, 4):
    register(n)
register(5, ("thorough",))


@case("C01", "target zero is not the default")
def _(S):
    # an explicit target of exactly 0 must be used as the target
    r = S.reals("r", 3)
    S.eq("semi variance", sm.semi_variance(r, 0), div(S, S.sum(S.max(0, -x) ** 2 for x in r), 2))
    S.eq("flpm", sm.first_lower_partial_moment(r, 0), div(S, S.sum(S.max(0, -x) for x in r), 3))
    S.eq("mad", sm.mean_absolute_deviation(r, 0), div(S, S.sum(abs(x) for x in r), 3))
    S.eq("flpm4", sm.fourth_lower_partial_moment(r, 0), div(S, S.sum(S.max(0, -x) ** 4 for x in r), 3))


for n in (1, 2, 4):

    @case("C01", f"effective number of assets n={n}")
    def _(S, n=n):
        w = S.reals("w", n)
        s2 = S.sum(x * x for x in w)
        S.assume(s2 > S.frac(1, 100))
        S.eq("effective number of assets", sm.effective_number_assets(w), 1 / s2)
