"""C03: cumulative returns and drawdown measures."""

import skfolio.measures as sm

from checks.common import REAL, count, div, mean
from symx.harness import case

META = {
    "bounds": "every real return series with 1..5 observations (compounded: returns > -1), every confidence level in [0, 1)",
    "outside": "longer series, floating point rounding, EDaR's numeric minimisation",
    "assumptions": [REAL],
}


def spec_cum(S, r, compounded):
    out, acc = [], (1000 if compounded else 0)
    for x in r:
        acc = acc * (1 + x) if compounded else acc + x
        out.append(acc)
    return out


def spec_dd(S, r, compounded):
    cum = spec_cum(S, r, compounded)
    out = []
    for i in range(len(cum)):
        peak = S.max(cum[: i + 1])
        out.append(cum[i] / peak - 1 if compounded else cum[i] - peak)
    return out


for n in (1, 2, 3, 4, 5):
    for comp in (False, True):
        tiers = ("quick", "thorough") if n <= 4 else ("thorough",)

        @case("C03", f"drawdowns n={n} compounded={comp}", tiers, weight=n)
        def _(S, n=n, comp=comp):
            lo = S.frac(-9, 10) if comp else None
            r = S.reals("r", n, lo, 5 if comp else None)
            S.eq("cumulative", sm.get_cumulative_returns(r, compounded=comp), S.array(spec_cum(S, r, comp)))
            S.eq("drawdowns", sm.get_drawdowns(r, compounded=comp), S.array(spec_dd(S, r, comp)))

    @case("C03", f"drawdown measures n={n}", weight=n, max_paths=8000, tiers=("quick", "thorough") if n <= 4 else ("thorough",))
    def _(S, n=n):
        d = S.reals("d", n, None, 0)
        beta = S.real("beta", 0, S.frac(99, 100))
        k = (1 - beta) * n
        S.eq("max drawdown", sm.max_drawdown(d), S.max([-x for x in d]))
        S.eq("average drawdown", sm.average_drawdown(d), -mean(S, d))
        ui = sm.ulcer_index(d)
        S.le("ulcer>=0", 0, ui)
        S.eq("ulcer^2", ui * ui, div(S, S.sum(x * x for x in d), n))
        v = sm.drawdown_at_risk(d, beta=beta)
        S.true("DaR at least", count(S, [-x >= v for x in d]) >= k)
        worse = count(S, [-x > v for x in d])
        S.true("DaR fewer", S.any([worse < k, worse == 0]))
        c = S.real("c")
        cd = sm.cdar(d, beta=beta)
        S.le("CDaR <= RU(c)", cd, c + S.sum(S.max(0, -x - c) for x in d) / k)
        S.eq("CDaR = RU(DaR)", cd, v + S.sum(S.max(0, -x - v) for x in d) / k)


for n in (12, 30, 60):

    @case("C03", f"shape n={n}")
    def _(S, n=n):
        # sign pattern fixed (two gains, then losses): long series in a single path
        r = S.reals("r", n, -1, 1)
        for i in range(n):
            S.assume(r[i] > 0 if i < 2 else r[i] <= 0)
        dd = sm.get_drawdowns(r, compounded=False)
        for i in range(n):
            S.eq(f"drawdown {i}", dd[i], S.sum(r[2 : i + 1]) if i >= 2 else 0)

    for comp in (False, True):

        @case("C03", f"two free returns n={n} compounded={comp}")
        def _(S, n=n, comp=comp):
            # all but two returns fixed: long series, every value of the two
            r = S.array([S.frac((5 * i) % 7 - 3, 50) for i in range(n)])
            r[n // 3] = S.real("a", S.frac(-9, 10), 2)
            if not comp:
                r[n // 2] = S.real("b", S.frac(-9, 10), 2)
            S.eq("cumulative", sm.get_cumulative_returns(r, compounded=comp), S.array(spec_cum(S, r, comp)))
            S.eq("drawdowns", sm.get_drawdowns(r, compounded=comp), S.array(spec_dd(S, r, comp)))
