"""C17: distributionally robust CVaR is the worst case over the Wasserstein ball."""

from fractions import Fraction

import numpy as np
import pandas as pd
from skfolio.optimization import DistributionallyRobustCVaR

from checks import convex
from checks.c13_convex_risk import absv, mean_, series, tail
from symx import core, cvx
from symx.harness import case

META = {
    "bounds": "2 assets, 2 or 3 observations; every weight vector against fixed perturbed samples, every perturbed sample against fixed weights, the exact worst case at fixed weights, every weight vector for radius zero and for the restrictions",
    "outside": "perturbed distributions with more atoms than observations (the dual bound covers them only through the exact values at fixed weights), more assets, the numerical solver",
    "assumptions": [*convex.ASSUME, "returns are at least -1 and distances are sums of absolute differences (the documented reference)"],
}

F = Fraction
XI = {2: [[F(1, 10), F(-1, 5)], [F(-3, 10), F(1, 10)]], 3: [[F(1, 10), F(-1, 5)], [F(-3, 10), F(1, 10)], [F(1, 5), F(1, 4)]]}
FREE = dict(min_weights=None, max_weights=None, budget=None)


def prior(S, T):
    return convex.prior(S, [[S.frac(x.numerator, x.denominator) for x in r] for r in XI[T]], key=f"dr{T}")


def utility(S, rows, w, rho, beta):
    """Documented: - expected return + risk aversion times CVaR, of the equally weighted rows."""
    g = series(S, rows, w)
    return -mean_(S, g) + rho * tail(S, [-x for x in g], beta)


def worst(T, w, eps, rho, beta):
    """Exact worst case over every distribution of the ball (dual of the transport
    problem, one observation and one piece at a time: moving mass along asset j costs lam)."""
    z3 = core.z3
    o = z3.Optimize()
    lam, tau = z3.Reals("lam tau")
    R = lambda x: z3.RealVal(F(x))  # noqa: E731
    pieces = [(F(-1), F(rho)), (-1 - F(rho) / (1 - F(beta)), F(rho) * (1 - 1 / (1 - F(beta))))]
    tot = R(0)
    for i, xi in enumerate(XI[T]):
        s = z3.Real(f"s{i}")
        tot = tot + s
        for k, (a, b) in enumerate(pieces):
            v = R(b) * tau
            for j, x in enumerate(xi):
                c = a * F(w[j])
                gain = z3.Real(f"g{i}{k}{j}")
                if c > 0:
                    o.add(lam >= R(c))  # unbounded otherwise: returns have no upper limit
                    v = v + R(c * x)
                else:  # down to the total loss of the asset
                    o.add(gain >= 0, gain >= R(-c) - lam)
                    v = v + R(c * x) + gain * R(1 + x)
            o.add(s >= v)
    o.add(lam >= 0)
    h = o.minimize(R(eps) * lam + tot * R(F(1, T)))
    assert o.check() == z3.sat
    return F(core._val(o.lower(h)))


def maker(S, T, eps, rho, beta, **kw):
    pr = prior(S, T)
    fr = lambda x: S.frac(F(x).numerator, F(x).denominator)  # noqa: E731
    return lambda **k: DistributionallyRobustCVaR(prior_estimator=pr, wasserstein_ball_radius=fr(eps), risk_aversion=fr(rho), cvar_beta=fr(beta), **{**FREE, **kw, **k})


WS = [(F(1, 2), F(1, 2)), (F(1), F(0)), (F(-1, 4), F(5, 4)), (F(3, 2), F(-1, 2))]
PAR = [(F(1, 50), 1, F(1, 2)), (F(1, 10), F(1, 2), F(3, 4)), (F(1, 4), 2, F(1, 4)), (F(2), 1, F(1, 2))]
for T in (2, 3):
    for i, w in enumerate(WS):
        for j, (eps, rho, beta) in enumerate(PAR):

            @case("C17", f"worst case, {T} observations, weights {w[0]} {w[1]}, radius {eps}", extra=cvx.extra, points=1, tol=1e-4)
            def _(S, T=T, w=w, eps=eps, rho=rho, beta=beta):
                v = [S.frac(x.numerator, x.denominator) for x in w]
                V = worst(T, w, eps, rho, beta)
                convex.decide(S, maker(S, T, eps, rho, beta), np.zeros((T, 2)), v, [], S.frac(V.numerator, V.denominator), tol=1e-4)


SHIFTS = {
    2: [[(F(-1, 10), 0), (0, 0)], [(0, 0), (F(1, 20), F(-1, 20))], [(F(-1, 20), 0), (0, F(-1, 20))], [(0, 0), (0, 0)]],
    3: [[(F(-3, 20), 0), (0, 0), (0, 0)], [(0, 0), (0, F(3, 20)), (0, 0)], [(F(-1, 20), 0), (0, F(-1, 20)), (0, F(-1, 20))]],
}
for T in (2, 3):
    for i, d in enumerate(SHIFTS[T]):

        @case("C17", f"every weight against perturbed sample {i}, {T} observations", extra=cvx.extra, points=1, tol=1e-4)
        def _(S, T=T, d=d):
            eps, rho, beta = F(1, 20), F(3, 2), F(1, 2)
            assert sum(abs(x) for r in d for x in r) / T <= eps
            rows = [[S.frac((a + b).numerator, (a + b).denominator) for a, b in zip(r, map(F, s))] for r, s in zip(XI[T], d)]
            w = S.reals("w", 2, -2, 2)
            make = maker(S, T, eps, rho, beta)
            U = utility(S, rows, w, S.frac(3, 2), S.frac(1, 2))
            lower(S, make, T, w, U)


def lower(S, make, T, w, U):
    kw = {"add_constraints": convex.pin(S, w)}
    cvx.reset()
    est = make(**kw)
    est.fit(np.zeros((T, 2)))
    obj = est.problem_values_["objective"]
    if S.symbolic:
        feas = core.SymBool(cvx.RECORDS[-1].feasible())
        S.le("at least the value under the perturbed sample", core.ite(feas, U, obj), obj)
        return
    S.le("at least the value under the perturbed sample (value)", float(U) - 1e-6, float(obj))


for i, w in enumerate(WS):

    @case("C17", f"every perturbed sample, weights {w[0]} {w[1]}", extra=cvx.extra, points=1, tol=1e-4, budget_ms=60000, novalidate=True)
    def _(S, w=w):
        T, eps, rho, beta = 2, F(1, 20), F(1), F(1, 2)
        v = [S.frac(x.numerator, x.denominator) for x in w]
        rows = [S.reals(f"x{t}", 2, -1, 2) for t in range(T)]
        moved = S.sum(absv(S, rows[t][j] - S.frac(XI[T][t][j].numerator, XI[T][t][j].denominator)) for t in range(T) for j in range(2))
        S.assume(moved <= T * S.frac(1, 20))
        lower(S, maker(S, T, eps, rho, beta), T, v, utility(S, rows, v, S.frac(1), S.frac(1, 2)))


for T in (2, 3):
    for rho, beta in ((F(1), F(1, 2)), (F(5, 2), F(3, 4))):

        @case("C17", f"radius zero, {T} observations, risk aversion {rho}", extra=cvx.extra, points=1, tol=1e-4, budget_ms=40000)
        def _(S, T=T, rho=rho, beta=beta):
            w = S.reals("w", 2, -2, 2)
            rows = [[S.frac(x.numerator, x.denominator) for x in r] for r in XI[T]]
            U = utility(S, rows, w, S.frac(rho.numerator, rho.denominator), S.frac(beta.numerator, beta.denominator))
            make = maker(S, T, 0, rho, beta)
            lower(S, make, T, w, U)
            if S.symbolic:
                # reached: the transport price may be as large as needed
                for f in cvx.attained(cvx.RECORDS[-1], True, U):
                    S.true("radius zero is the sample itself", f)
            else:
                est = make(add_constraints=convex.pin(S, w))
                est.fit(np.zeros((T, 2)))
                S.le("radius zero is the sample itself (value)", abs(float(est.problem_values_["objective"]) - float(U)), 1e-4)


def fr(S, *xs):
    return [S.frac(*x) if isinstance(x, tuple) else S.frac(x) for x in xs]


LIMITS = {
    "bounds and budget": lambda S: (
        dict(min_weights={"a": -0.125}, max_weights=S.array(fr(S, (1, 2), (7, 8))), budget=S.frac(1)),
        lambda v: [("lower 0", "le", -S.frac(1, 8) - v[0]), ("lower 1", "le", -v[1]), ("upper 0", "le", v[0] - S.frac(1, 2)), ("upper 1", "le", v[1] - S.frac(7, 8)), ("budget", "eq", v[0] + v[1] - 1)],
    ),
    "defaults": lambda S: (dict(min_weights=0.0, max_weights=1.0, budget=1.0), lambda v: [("lower 0", "le", -v[0]), ("lower 1", "le", -v[1]), ("budget", "eq", v[0] + v[1] - 1)]),
    "sentence": lambda S: (dict(linear_constraints=["2 * a <= b + 0.5"]), lambda v: [("sentence", "le", 2 * v[0] - v[1] - S.frac(1, 2))]),
    "gross limits": lambda S: (dict(max_long=S.frac(5, 4), max_short=S.frac(1, 4)), lambda v: [("long", "le", S.sum(S.max(x, 0) for x in v) - S.frac(5, 4)), ("short", "le", S.sum(S.max(-x, 0) for x in v) - S.frac(1, 4))]),
    "budget range": lambda S: (dict(min_budget=S.frac(1, 2), max_budget=S.frac(3, 2)), lambda v: [("lower", "le", S.frac(1, 2) - v[0] - v[1]), ("upper", "le", v[0] + v[1] - S.frac(3, 2))]),
    "matrix": lambda S: (dict(left_inequality=S.array([[1, -2]]), right_inequality=S.array([S.frac(1, 4)])), lambda v: [("row", "le", v[0] - 2 * v[1] - S.frac(1, 4))]),
}
for name, spec in LIMITS.items():

    @case("C17", f"limits: {name}", extra=cvx.extra, points=1)
    def _(S, spec=spec):
        kw, D = spec(S)
        w = S.reals("w", 2, -2, 2)
        pr = prior(S, 2)
        X = pd.DataFrame(np.zeros((2, 2)), columns=["a", "b"])
        make = lambda **k: DistributionallyRobustCVaR(prior_estimator=pr, wasserstein_ball_radius=S.frac(1, 20), cvar_beta=S.frac(1, 2), **{**FREE, **kw, **k})  # noqa: E731
        convex.decide(S, make, X, w, D(w))
