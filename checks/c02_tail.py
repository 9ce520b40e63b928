"""C02: tail measures (worst realization, VaR, CVaR, entropic)."""

import skfolio.measures as sm

from checks.common import REAL, count, div
from symx.harness import case

META = {
    "bounds": "every real return series with 1..4 observations (5 thorough) and every confidence level beta in [0, 1) (VaR: [0, 1])",
    "outside": "longer series, floating point rounding of (1-beta)*n, NaN; the numeric minimisation of EVaR is replaced by its objective and search range",
    "assumptions": [REAL, "exp/log are uninterpreted (exp positive), so identities hold for every interpretation"],
}


def var_claims(S, n, fn, kw):
    r = S.reals("r", n)
    beta = S.real("beta", 0, 1)
    v = fn(r, beta=beta)
    k = (1 - beta) * n
    # smallest loss level exceeded by strictly fewer than (1-beta)*n observations
    S.true("is an observed loss", S.any([v == -x for x in r]))
    S.true("at least (1-beta)n losses >= VaR", count(S, [-x >= v for x in r]) >= k)
    worse = count(S, [-x > v for x in r])
    S.true("fewer than (1-beta)n losses > VaR", S.any([worse < k, worse == 0]))


for n, tiers in ((1, None), (2, None), (3, None), (4, None), (5, ("thorough",))):
    tiers = tiers or ("quick", "thorough")

    @case("C02", f"worst realization n={n}", tiers)
    def _(S, n=n):
        r = S.reals("r", n)
        S.eq("worst realization", sm.worst_realization(r), S.max([-x for x in r]))

    @case("C02", f"value at risk n={n}", tiers, weight=n)
    def _(S, n=n):
        var_claims(S, n, sm.value_at_risk, {})

    @case("C02", f"cvar n={n}", tiers, weight=n, max_paths=8000)
    def _(S, n=n):
        r = S.reals("r", n)
        beta = S.real("beta", 0, S.frac(99, 100))
        cv = sm.cvar(r, beta=beta)
        va = sm.value_at_risk(r, beta=beta)
        c = S.real("c")
        k = (1 - beta) * n

        def ru(a):  # Rockafellar-Uryasev function, whose minimum over a is the CVaR
            return a + S.sum(S.max(0, -x - a) for x in r) / k

        S.le("CVaR <= RU(c) for every c", cv, ru(c))
        S.eq("CVaR = RU(VaR)", cv, ru(va))
        S.le("VaR <= CVaR", va, cv)
        S.le("CVaR <= worst", cv, S.max([-x for x in r]))


@case("C02", "default level is 95%")
def _(S):
    r = S.reals("r", 3)
    S.eq("var", sm.value_at_risk(r), S.max([-x for x in r]))
    S.eq("cvar", sm.cvar(r), S.max([-x for x in r]))


for n in (1, 2, 3):

    @case("C02", f"entropic risk n={n}")
    def _(S, n=n):
        r = S.reals("r", n, -1, 1)
        th = S.real("theta", S.frac(1, 10), 5)
        beta = S.real("beta", 0, S.frac(99, 100))
        e = div(S, S.sum(S.exp(-x / th) for x in r), n) / (1 - beta)
        S.eq("entropic risk", sm.entropic_risk_measure(r, theta=th, beta=beta), th * S.log(e))


# long series whose ranking is fixed by assumption: one path, every value of that ranking
for n, num, den in ((10, 9, 10), (20, 9, 10), (24, 19, 20), (30, 19, 20), (40, 3, 4)):

    @case("C02", f"ranked series n={n} beta={num}/{den}")
    def _(S, n=n, num=num, den=den):
        r = S.reals("r", n)
        perm = [(7 * i + 3) % n for i in range(n)] if n % 7 else list(range(n))[::-1]
        for a, b in zip(perm, perm[1:]):
            S.assume(r[a] + S.frac(1, 128) <= r[b])
        beta = S.frac(num, den) if S.symbolic else num / den
        k = (1 - S.frac(num, den)) * n
        va, cv = sm.value_at_risk(r, beta=beta), sm.cvar(r, beta=beta)
        m = int(-(-k // 1)) if S.symbolic else int(-(-(den - num) * n // den))
        S.eq("VaR is the ceil((1-beta)n)-th worst", va, -r[perm[m - 1]])
        tail = S.sum([-r[i] for i in perm[: m - 1]] + [(k - (m - 1)) * -r[perm[m - 1]]])
        S.eq("CVaR is the mean of the (1-beta)n worst", cv, tail / k)


class _Min:
    """Contract of scipy.optimize.minimize: some point of the search range attains `fun`."""

    last = None

    def __call__(self, fun, x0, method=None, bounds=None, tol=None, **k):
        import types

        from symx import core

        lo, hi = bounds[0]
        c = core.ctx()
        th = core.SymReal(c.fresh("theta"))
        c.add(core.bt(th >= lo))
        c.add(th.n != 0)
        v = fun(th)
        _Min.last = (lo, th, v)
        if hasattr(v, "shape") and v.shape:
            v = v.reshape(-1)[0]
        return types.SimpleNamespace(fun=v, x=[th], success=True)


def _extra():
    import scipy.optimize as sco

    from symx.patch import _Mod

    return {sco: _Mod(sco, {"minimize": _Min()}, wrap=False)}


for n in (1, 2, 3):

    @case("C02", f"evar n={n}", extra=_extra, novalidate=True)
    def _(S, n=n):
        r = S.reals("r", n, -1, 1)
        beta = S.real("beta", S.frac(1, 2), S.frac(99, 100))
        v = sm.evar(r, beta=beta)
        if S.symbolic:
            lo, th, fv = _Min.last
            S.true("search range is positive", lo > 0)
            e = div(S, S.sum(S.exp(-x / th) for x in r), n) / (1 - beta)
            S.eq("EVaR is the entropic risk at some parameter", v, th * S.log(e))
        else:
            S.le("EVaR bounds CVaR", sm.cvar(r, beta=beta), v)
            S.true("EVaR is finite", abs(v) < 1e6)
