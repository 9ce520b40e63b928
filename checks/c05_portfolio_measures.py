"""C05: portfolio measure attributes, ratios and caches."""

import types

import numpy as np
import scipy.optimize as sco
import skfolio.measures as sm
from skfolio import ExtraRiskMeasure, PerfMeasure, Portfolio, RatioMeasure, RiskMeasure

from checks.common import REAL
from symx import core, pdproxy
from symx.harness import case
from symx.patch import _Mod

META = {
    "bounds": "two assets, 4 observations with an arbitrary but fixed return ranking; every real risk-free rate, target, annualisation factor; histories: read every measure, up to two attribute updates (every ordered pair of settable attributes), read every measure again; rolling windows 2 and 3",
    "outside": "longer histories (each update starts from an arbitrary fully populated cache, so one update is the inductive step); other series lengths",
    "assumptions": [
        REAL,
        "the numeric minimiser of EVaR/EDaR is replaced by the objective evaluated at one arbitrary point of its range",
        "risk denominators of ratios are non-zero",
    ],
}

BETAS = {
    "value_at_risk_beta": (3, 10),
    "cvar_beta": (2, 5),
    "entropic_risk_measure_beta": (1, 5),
    "evar_beta": (3, 5),
    "drawdown_at_risk_beta": (19, 20),
    "cdar_beta": (9, 20),
    "edar_beta": (7, 10),
}
BETAS2 = {
    "value_at_risk_beta": (6, 10),
    "cvar_beta": (1, 10),
    "entropic_risk_measure_beta": (3, 10),
    "evar_beta": (4, 5),
    "drawdown_at_risk_beta": (7, 10),
    "cdar_beta": (1, 5),
    "edar_beta": (9, 10),
}
ALL = [m for e in (PerfMeasure, RiskMeasure, ExtraRiskMeasure, RatioMeasure) for m in e]


def _minimize(fun, x0, method=None, bounds=None, tol=None, **k):
    import z3

    th = core.SymReal(z3.Real("theta_any"))
    core.ctx().add(th.n > 0)
    v = fun(th)
    return types.SimpleNamespace(fun=v, x=[th], success=True)


def _extra():
    return {sco: _Mod(sco, {"minimize": _minimize}, wrap=False), **pdproxy.extra()}


def values(S, names):
    return {k: S.frac(*v) for k, v in names.items()}


def data(S, free=(0, 1, 2, 3)):
    """Ranked returns of which the positions in `free` are arbitrary."""
    r = S.array([S.frac(3, 100), S.frac(9, 100), S.frac(-7, 100), S.frac(6, 100)])
    for i in free:
        r[i] = S.real(f"r_{i}", S.frac(-1, 2), S.frac(1, 2))
    order = [2, 0, 3, 1]
    for a, b in zip(order, order[1:]):
        S.assume(r[a] + S.frac(1, 128) <= r[b])
    S.assume(r[2] < 0)
    return r


def X_of(S, r):
    # one asset at weight 1 plus one at weight 0: the portfolio returns are r
    return S.array([[x, S.frac(i, 100)] for i, x in enumerate(r)])


def attr(p, m):
    return getattr(p, str(m.value))


def base_func(m):
    return getattr(sm, m.non_annualized_measure.value if m.is_annualized else m.value)


SPEC_ARGS = {
    "value_at_risk": {"beta": "value_at_risk_beta"},
    "cvar": {"beta": "cvar_beta"},
    "evar": {"beta": "evar_beta"},
    "entropic_risk_measure": {"beta": "entropic_risk_measure_beta", "theta": "entropic_risk_measure_theta"},
    "drawdown_at_risk": {"beta": "drawdown_at_risk_beta"},
    "cdar": {"beta": "cdar_beta"},
    "edar": {"beta": "edar_beta"},
}
TARGET = {
    "mean_absolute_deviation",
    "first_lower_partial_moment",
    "semi_variance",
    "semi_deviation",
    "fourth_lower_partial_moment",
}
DRAWDOWN = {"max_drawdown", "average_drawdown", "drawdown_at_risk", "cdar", "edar", "ulcer_index"}


def expected(S, m, r, par):
    """The documented value of a measure, from the (separately checked) measure functions."""
    name = m.value
    fac = par["annualized_factor"]
    if isinstance(m, RatioMeasure):
        link = {
            "sharpe_ratio": RiskMeasure.STANDARD_DEVIATION,
            "annualized_sharpe_ratio": RiskMeasure.STANDARD_DEVIATION,
            "sortino_ratio": RiskMeasure.SEMI_DEVIATION,
            "annualized_sortino_ratio": RiskMeasure.SEMI_DEVIATION,
            "calmar_ratio": RiskMeasure.MAX_DRAWDOWN,
        }.get(name)
        if link is None:
            base = name[: -len("_ratio")]
            link = next(x for x in ALL if x.value == base)
        val = (sm.mean(r) - par["risk_free_rate"]) / expected(S, link, r, par)
        return val * S.sqrt(fac) if name.startswith("annualized") else val
    ann = name.startswith("annualized_")
    key = name[len("annualized_") :] if ann else name
    kw = {a: par[p] for a, p in SPEC_ARGS.get(key, {}).items()}
    if key in TARGET:
        kw["min_acceptable_return"] = par["min_acceptable_return"]
    f = getattr(sm, key)
    v = f(sm.get_drawdowns(r, compounded=par["compounded"]), **kw) if key in DRAWDOWN else f(r, **kw)
    if ann:
        v = v * (fac if key in ("mean", "variance", "semi_variance") else S.sqrt(fac))
    return v


def params(S, compounded, target):
    return dict(
        risk_free_rate=S.real("rf", 0, 1),
        annualized_factor=S.real("af", 1, 400),
        min_acceptable_return=S.real("mar", -1, 1) if target else None,
        compounded=compounded,
        entropic_risk_measure_theta=S.real("th", S.frac(1, 2), 2),
        **values(S, BETAS),
    )


for comp in (False, True):
    for target in (False, True):

        @case("C05", f"measures compounded={comp} target={target}", extra=_extra, budget_ms=6000, weight=3, tol=1e-5)
        def _(S, comp=comp, target=target):
            r = data(S, (1,) if comp else (0, 1, 2, 3))
            par = params(S, comp, target)
            p = Portfolio(X=X_of(S, r), weights=S.array([1, 0]), **par)
            S.eq("returns", p.returns, r)
            for m in ALL:
                if m.value in ("evar", "edar", "evar_ratio", "edar_ratio") and not S.symbolic:
                    if p.drawdowns.min() > -1e-3:
                        continue
                S.eq(m.value, attr(p, m), expected(S, m, r, par))
            S.eq("cumulative", p.cumulative_returns, sm.get_cumulative_returns(r, compounded=comp))
            S.eq("drawdowns", p.drawdowns, sm.get_drawdowns(r, compounded=comp))

        for win in (2, 3):

            @case("C05", f"rolling compounded={comp} target={target} window={win}", extra=_extra, budget_ms=6000, weight=3, tol=1e-5, time_limit=200)
            def _(S, comp=comp, target=target, win=win):
                r = data(S, (1,) if comp else (1, 2))
                par = params(S, comp, target)
                p = Portfolio(X=X_of(S, r), weights=S.array([1, 0]), **par)
                skip = {"evar", "edar", "evar_ratio", "edar_ratio", "skew", "kurtosis", "drawdown_at_risk_ratio"}
                for m in ALL:
                    if m.value in skip:
                        continue
                    if isinstance(m, RatioMeasure) and m.value not in (
                        "sharpe_ratio", "annualized_sharpe_ratio", "sortino_ratio", "annualized_sortino_ratio", "cvar_ratio",
                    ):
                        continue
                    roll = p.rolling_measure(measure=m, window=win).to_numpy()
                    S.true(f"{m.value} starts undefined", all(x != x for x in roll[: win - 1]))
                    for t in range(win - 1, 4):
                        S.eq(f"rolling {m.value} at {t}", roll[t], expected(S, m, r[t + 1 - win : t + 1], par))


def touch(p):
    for m in ALL:
        attr(p, m)
    return p.fitness, p.cumulative_returns, p.drawdowns


FIT = [RatioMeasure.SHARPE_RATIO, RiskMeasure.MAX_DRAWDOWN, PerfMeasure.ANNUALIZED_MEAN]


def updates(S):
    u = {
        "risk_free_rate": S.real("rf2", 0, 1),
        "annualized_factor": S.real("af2", 1, 400),
        "min_acceptable_return": S.real("mar2", -1, 1),
        "compounded": True,
        "entropic_risk_measure_theta": S.real("th2", S.frac(1, 2), 2),
        "fitness_measures": FIT,
        **values(S, BETAS2),
    }
    return u


NAMES = ["risk_free_rate", "annualized_factor", "min_acceptable_return", "compounded",
         "entropic_risk_measure_theta", "fitness_measures", *BETAS]


def same(S, tag, p, q):
    for m in ALL:
        S.eq(f"{tag} {m.value}", attr(p, m), attr(q, m))
    S.eq(f"{tag} fitness", p.fitness, q.fitness)
    S.eq(f"{tag} cumulative", p.cumulative_returns, q.cumulative_returns)
    S.eq(f"{tag} drawdowns", p.drawdowns, q.drawdowns)
    S.eq(f"{tag} fitness is the signed measures", p.fitness,
         S.array([(1 if isinstance(m, (PerfMeasure, RatioMeasure)) else -1) * attr(p, m) for m in p.fitness_measures]))


for a in NAMES:

    @case("C05", f"history update {a}", extra=_extra, budget_ms=6000)
    def _(S, a=a):
        r = data(S, ())
        par = params(S, False, False)
        mk = lambda **k: Portfolio(X=X_of(S, r), weights=S.array([1, 0]), **{**par, **k})  # noqa: E731
        up = updates(S)
        p = mk()
        touch(p)
        q = p.copy()
        setattr(p, a, up[a])
        same(S, "after update", p, mk(**{a: up[a]}))
        same(S, "copy unaffected", q, mk())
        for b in NAMES:
            if b == a or b in ("fitness_measures",):
                continue
            p2 = mk()
            touch(p2)
            setattr(p2, a, up[a])
            touch(p2)
            setattr(p2, b, up[b])
            ref = mk(**{a: up[a], b: up[b]})
            for m in ALL:
                S.eq(f"{a} then {b}: {m.value}", attr(p2, m), attr(ref, m))
            S.eq(f"{a} then {b}: fitness", p2.fitness, ref.fitness)


@case("C05", "read-only attributes", extra=_extra)
def _(S):
    r = data(S, (1,))
    p = Portfolio(X=X_of(S, r), weights=S.array([1, 0]))
    touch(p)
    for a in ("returns", "observations", "X", "assets", "weights", "previous_weights", "transaction_costs", "management_fees", "n_assets"):
        _, e = S.attempt(lambda a=a: setattr(p, a, 1))
        S.true(f"{a} cannot be set", e == "AttributeError")
    S.eq("returns unchanged", p.returns, r)


for name, meas in {
    "a": [PerfMeasure.MEAN, RiskMeasure.VARIANCE],
    "b": [RatioMeasure.CVAR_RATIO, ExtraRiskMeasure.VALUE_AT_RISK, PerfMeasure.ANNUALIZED_MEAN],
    "c": [RiskMeasure.CDAR],
}.items():

    @case("C05", f"fitness and dominance {name}", extra=_extra)
    def _(S, meas=meas):
        r = data(S)
        k = S.real("k", S.frac(1, 4), 2)
        p = Portfolio(X=X_of(S, r), weights=S.array([1, 0]), fitness_measures=list(meas))
        q = Portfolio(X=X_of(S, r), weights=S.array([k, 0]), fitness_measures=list(meas))
        fp = [(1 if isinstance(m, (PerfMeasure, RatioMeasure)) else -1) * attr(p, m) for m in meas]
        fq = [(1 if isinstance(m, (PerfMeasure, RatioMeasure)) else -1) * attr(q, m) for m in meas]
        S.eq("fitness", p.fitness, S.array(fp))
        ge = S.all([x >= y for x, y in zip(fp, fq)])
        gt = S.any([x > y for x, y in zip(fp, fq)])
        S.eq("dominates", bool(p.dominates(q)), S.all([ge, gt]))
