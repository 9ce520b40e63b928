"""C35: bivariate copulas follow their definitions in every rotation."""

import math

import numpy as np
import scipy.special as sp
import scipy.stats as st
from skfolio.distribution import (
    ClaytonCopula,
    CopulaRotation,
    GaussianCopula,
    GumbelCopula,
    IndependentCopula,
    JoeCopula,
    StudentTCopula,
)

from checks.common import REAL
from symx import arr, core, logs
from symx.harness import case
from symx.patch import NP, _Mod

META = {
    "bounds": "one observation anywhere in the inner unit square; Clayton with parameters 1, 2 and 1/2, Gumbel and Joe with 2 and 3, all rotations; Gaussian and Student copulas with every correlation between -0.95 and 0.95 and 1 to 6 degrees of freedom",
    "outside": "other parameters of the power copulas; the iterations that invert the Gumbel and Joe conditional distributions, which are only run on sample points",
    "assumptions": [
        REAL,
        "normal and Student distribution functions are uninterpreted, with their quantile functions as inverses",
        "logarithms and exponentials are uninterpreted apart from log(ab) = log a + log b and exp(log a) = a",
    ],
}

ROTATIONS = (CopulaRotation.R0, CopulaRotation.R90, CopulaRotation.R180, CopulaRotation.R270)
_CLIP = NP._over.get("clip")


def clip(x, lo=None, hi=None, *, a_min=None, a_max=None, **k):
    lo, hi = (a_min if lo is None else lo), (a_max if hi is None else hi)
    if not arr.has_sym(x):
        return np.clip(x, lo, hi)

    def one(v, low, high):
        if low is not None and bool(v < low):
            return low
        if high is not None and bool(v > high):
            return high
        return v

    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        lows = np.broadcast_to(np.asarray(arr.strip(lo), dtype=object), x.shape)
        highs = np.broadcast_to(np.asarray(arr.strip(hi), dtype=object), x.shape)
        for i in np.ndindex(*x.shape):
            out[i] = one(x[i], lows[i], highs[i])
        return arr.wrap(out)
    return one(x, lo, hi)


def inverse_pair(name, real, real_inverse):
    """A distribution function and its quantile function, inverse to each other."""

    def value(f, g, *a):
        *k, x = a
        x = core.lift(x)
        for (h, kk, out), arg in core.ctx().memo.get(("pair", name), []):
            if h == g and _same(kk, k) and _same([out], [x]):
                return arg  # f(g(arg)) = arg
        out = core.uf(f"{name}-{f}", *k, x)
        core.ctx().memo.setdefault(("pair", name), []).append(((f, k, out), x))
        return out

    def forward(*a):
        return value("cdf", "ppf", *a)

    def backward(*a):
        return value("ppf", "cdf", *a)

    return logs.lifted(real, forward), logs.lifted(real_inverse, backward)


def _same(a, b):
    term = lambda x: core.z3.simplify(core.lift(x).term, som=True)  # noqa: E731
    return len(a) == len(b) and all(term(x).eq(term(y)) for x, y in zip(a, b, strict=True))


NDTR, NDTRI = inverse_pair("normal", sp.ndtr, sp.ndtri)
STDTR, STDTRIT = inverse_pair("student", sp.stdtr, sp.stdtrit)


class _Bivariate:
    """Joint distribution function of two standardised variables."""

    def __init__(self, name, real, keys):
        self.name, self.real, self.keys = name, real, keys

    def cdf(self, x, *a, **k):
        k.update(zip(self.keys, a, strict=False))
        if not (arr.has_sym(x) or any(arr.has_sym(v) for v in k.values())):
            return self.real.cdf(x, **k)
        loc, shape = k.pop(self.keys[0]), k.pop(self.keys[1])
        assert all(float(v) == 0 for v in loc) and shape[0, 0] == 1 and shape[1, 1] == 1
        assert shape[0, 1] is shape[1, 0] or core.lift(shape[0, 1]).term.eq(core.lift(shape[1, 0]).term)
        return np.array([core.uf(self.name, *k.values(), r[0], r[1], shape[0, 1]) for r in x], dtype=object)


BVN = _Bivariate("bivariate-normal", st.multivariate_normal, ("mean", "cov"))
BVT = _Bivariate("bivariate-student", st.multivariate_t, ("loc", "shape"))


def extra():

    def gammaln(x):
        return math.lgamma(float(x)) if not core.is_sym(x) else logs._log(core.uf("gamma", x))

    return {
        np: _Mod(np, {**NP._over, **logs.overrides(), "clip": clip, "sin": logs.lifted(np.sin, lambda x: core.uf("sin", x))}),
        st: _Mod(st, {"multivariate_normal": BVN, "multivariate_t": BVT}, wrap=False),
        sp: _Mod(sp, {"ndtr": NDTR, "ndtri": NDTRI, "stdtr": STDTR, "stdtrit": STDTRIT, "gammaln": logs.lifted(sp.gammaln, gammaln)}, wrap=False),
    }


def exact(S, value):
    return core.lift(value) if S.symbolic else float(value)


def fitted(S, model, **k):
    for name, v in k.items():
        setattr(model, name, v)
    model.n_features_in_ = 2
    return model


def square(S, names="uv"):
    return [S.real(n, S.frac(1, 16), S.frac(15, 16)) for n in names]


def exp(S, x):
    if isinstance(x, logs.Log):
        return x.exp()
    return S.exp(x)


def log(S, x):
    """Minus the real logarithm, comparable with that of the code."""
    return core.uf("log", core.lift(x)) if S.symbolic else math.log(x)


# ---- specifications of the unrotated copulas: distribution, derivative in v, density
def clayton(S, u, v, t):
    q = u**-t + v**-t - 1
    return q ** (-1 / t), q ** (-1 / t - 1) * v ** (-t - 1), (t + 1) * q ** (-1 / t - 2) * (u * v) ** (-t - 1)


def joe(S, u, v, t):
    x, y = (1 - u) ** t, (1 - v) ** t
    q = x + y - x * y
    return (
        1 - q ** (1 / t),
        q ** (1 / t - 1) * (1 - x) * (1 - v) ** (t - 1),
        q ** (1 / t - 2) * ((1 - u) * (1 - v)) ** (t - 1) * (t - 1 + q),
    )


def gumbel(S, u, v, t):
    x, y = -log(S, u), -log(S, v)
    for z in (x, y):
        S.assume(z >= S.frac(1, 20))  # a fact: the arguments are at most 15/16
    q = x**t + y**t
    s = q ** (1 / t)
    C = S.exp(-s)
    return C, C * q ** (1 / t - 1) * y ** (t - 1) / v, C * (x * y) ** (t - 1) * (s + t - 1) * s ** (1 - 2 * t) / (u * v)


def rotated(S, base, rotation, u, v, t):
    """Distribution, derivatives in u and v, density: the density at (u, v) is the
    unrotated one at the rotated point."""
    if rotation is CopulaRotation.R0:
        C, hv, c = base(S, u, v, t)
        hu = base(S, v, u, t)[1]
        return C, hu, hv, c
    if rotation is CopulaRotation.R90:  # C = v - C0(v, 1 - u)
        C, h2, c = base(S, v, 1 - u, t)
        h1 = base(S, 1 - u, v, t)[1]
        return v - C, h2, 1 - h1, c
    if rotation is CopulaRotation.R180:  # C = u + v - 1 + C0(1 - u, 1 - v)
        C, h2, c = base(S, 1 - u, 1 - v, t)
        h1 = base(S, 1 - v, 1 - u, t)[1]
        return u + v - 1 + C, 1 - h1, 1 - h2, c
    # C = u - C0(1 - v, u)
    C, h2, c = base(S, 1 - v, u, t)
    h1 = base(S, u, 1 - v, t)[1]
    return u - C, 1 - h2, h1, c


POWERS = (
    ("Clayton", ClaytonCopula, clayton, (1, 2, 0.5)),
    ("Gumbel", GumbelCopula, gumbel, (2, 3)),
    ("Joe", JoeCopula, joe, (2, 3)),
)

for _name, _cls, _base, _thetas in POWERS:
    for _t in _thetas:
        for _r in ROTATIONS:

            @case("C35", f"{_name} {_t}, rotation {_r.value[:-1]}", extra=extra, points=6)
            def _(S, cls=_cls, base=_base, t=_t, r=_r, name=_name):
                u, v = square(S)
                t = exact(S, S.frac(t) if isinstance(t, int) else S.frac(1, 2))
                model = fitted(S, cls(), theta_=t, rotation_=r)
                X = S.array([[u, v]])
                C, hu, hv, c = rotated(S, base, r, u, v, t)
                S.eq("distribution", model.cdf(X)[0], C)
                S.eq("given v", model.partial_derivative(X)[0], hv)
                S.eq("given u", model.partial_derivative(X, first_margin=True)[0], hu)
                S.eq("density", exp(S, model.score_samples(X)[0]), c)
                if not S.symbolic:
                    # iterative inverses run on the sample points only
                    p, q = float(model.partial_derivative(X)[0]), float(model.partial_derivative(X, first_margin=True)[0])
                    if 1e-6 < p < 1 - 1e-6:
                        S.le("inverse given v", abs(model.inverse_partial_derivative(np.array([[p, v]], dtype=float))[0] - u), 1e-4)
                    if 1e-6 < q < 1 - 1e-6:
                        S.le("inverse given u", abs(model.inverse_partial_derivative(np.array([[u, q]], dtype=float), first_margin=True)[0] - v), 1e-4)
                tails(S, model, name, t, r)


def tails(S, model, name, t, r):
    """Dependence of the extremes: limit of C(q, q) / q and its mirror image."""
    two = exact(S, 2)
    value = two ** (-1 / t) if name == "Clayton" else 2 - two ** (1 / t)
    low, up = (value, 0) if name == "Clayton" else (0, value)
    if r is CopulaRotation.R180:
        low, up = up, low
    elif r is not CopulaRotation.R0:
        low = up = 0
    S.eq("lower tail", model.lower_tail_dependence, low)
    S.eq("upper tail", model.upper_tail_dependence, up)


# ---------------------------------------------------------------- inverse of Clayton
for _t in (1, 2, 0.5):
    for _r in ROTATIONS:

        @case("C35", f"Clayton {_t} inverse, rotation {_r.value[:-1]}", extra=extra, points=6)
        def _(S, t=_t, r=_r):
            p, v = square(S, "pv")
            t = exact(S, S.frac(t) if isinstance(t, int) else S.frac(1, 2))
            model = fitted(S, ClaytonCopula(), theta_=t, rotation_=r)

            def inverse(p, v):  # the u with derivative p given v
                return (1 + v**-t * (p ** (-t / (t + 1)) - 1)) ** (-1 / t)

            given_v = {
                CopulaRotation.R0: lambda: inverse(p, v),
                CopulaRotation.R90: lambda: 1 - inverse(1 - p, v),
                CopulaRotation.R180: lambda: 1 - inverse(1 - p, 1 - v),
                CopulaRotation.R270: lambda: inverse(p, 1 - v),
            }
            given_u = {
                CopulaRotation.R0: lambda: inverse(p, v),
                CopulaRotation.R90: lambda: inverse(p, 1 - v),
                CopulaRotation.R180: lambda: 1 - inverse(1 - p, 1 - v),
                CopulaRotation.R270: lambda: 1 - inverse(1 - p, v),
            }
            S.eq("inverse given v", model.inverse_partial_derivative(S.array([[p, v]]))[0], given_v[r]())
            S.eq("inverse given u", model.inverse_partial_derivative(S.array([[v, p]]), first_margin=True)[0], given_u[r]())
            if r is CopulaRotation.R0:
                S.eq("round trip", clayton(S, inverse(p, v), v, t)[1], p)


# ---------------------------------------------------------------- elliptical copulas
def normal_quantile(S, x):
    return NDTRI(x) if S.symbolic else float(sp.ndtri(x))


@case("C35", "Gaussian", extra=extra, points=6)
def _(S):
    u, v = square(S)
    rho = S.real("rho", -S.frac(19, 20), S.frac(19, 20))
    model = fitted(S, GaussianCopula(), rho_=rho)
    X = S.array([[u, v]])
    x, y = normal_quantile(S, u), normal_quantile(S, v)
    s = S.sqrt(1 - rho * rho)
    C = model.cdf(X)
    C = C[0] if np.ndim(C) else C
    S.eq("distribution", C, BVN.cdf(S.array([[x, y]]), mean=[0, 0], cov=S.array([[1, rho], [rho, 1]]))[0] if S.symbolic else st.multivariate_normal.cdf([x, y], mean=[0, 0], cov=[[1, rho], [rho, 1]]))
    S.eq("given v", normal_quantile(S, model.partial_derivative(X)[0]) * s, x - rho * y)
    S.eq("given u", normal_quantile(S, model.partial_derivative(X, first_margin=True)[0]) * s, y - rho * x)
    S.eq("inverse given v", normal_quantile(S, model.inverse_partial_derivative(X)[0]), x * s + rho * y)
    S.eq("inverse given u", normal_quantile(S, model.inverse_partial_derivative(X, first_margin=True)[0]), y * s + rho * x)
    score = model.score_samples(X)[0]
    # the exponent and the factor in front of it
    rest = score.rest if S.symbolic else score + math.log(1 - rho * rho) / 2
    S.eq("exponent", rest * 2 * (1 - rho * rho), 2 * rho * x * y - rho * rho * (x * x + y * y))
    if S.symbolic:
        f = logs.Log(score.parts).exp()
        S.eq("factor", f * f * (1 - rho * rho), 1)
        S.true("positive factor", f > 0)
    S.eq("tails", [model.lower_tail_dependence, model.upper_tail_dependence], [0, 0])


def student_quantile(S, k, x):
    return STDTRIT(k, x) if S.symbolic else float(sp.stdtrit(k, x))


@case("C35", "Student", extra=extra, points=6)
def _(S):
    u, v = square(S)
    rho = S.real("rho", -S.frac(19, 20), S.frac(19, 20))
    n = S.real("dof", 1, 50)
    model = fitted(S, StudentTCopula(), rho_=rho, dof_=n)
    X = S.array([[u, v]])
    x, y = student_quantile(S, n, u), student_quantile(S, n, v)
    C = model.cdf(X)
    if S.symbolic:
        S.eq("distribution", C[0], BVT.cdf(S.array([[x, y]]), loc=[0, 0], shape=S.array([[1, rho], [rho, 1]]), df=n)[0])

    def scaled(z, a, b, label):
        """z sqrt((1 - rho^2)(n + b^2) / (n + 1)) = a - rho b"""
        d = a - rho * b
        S.eq(label, z * z * (1 - rho * rho) * (n + b * b), d * d * (n + 1))
        S.true(label + " sign", S.all([S.any([d <= 0, z >= 0]), S.any([d >= 0, z <= 0])]))

    scaled(student_quantile(S, n + 1, model.partial_derivative(X)[0]), x, y, "given v")
    scaled(student_quantile(S, n + 1, model.partial_derivative(X, first_margin=True)[0]), y, x, "given u")
    p, q = student_quantile(S, n + 1, u), student_quantile(S, n + 1, v)
    scaled(p, student_quantile(S, n, model.inverse_partial_derivative(X)[0]), y, "inverse given v")
    scaled(q, student_quantile(S, n, model.inverse_partial_derivative(X, first_margin=True)[0]), x, "inverse given u")
    arg = student_quantile(S, n + 1, model.lower_tail_dependence / 2)
    S.eq("tail", arg * arg * (1 + rho), (n + 1) * (1 - rho))
    S.le("tail sign", arg, 0)
    S.eq("tails", model.upper_tail_dependence, model.lower_tail_dependence)


for _n in (1, 2, 4, 5):

    @case("C35", f"Student density, {_n} degrees of freedom", extra=extra, points=6)
    def _(S, n=_n):
        u, v = square(S)
        rho = S.real("rho", -S.frac(19, 20), S.frac(19, 20))
        n = exact(S, n)
        model = fitted(S, StudentTCopula(), rho_=rho, dof_=n)
        x, y = student_quantile(S, n, u), student_quantile(S, n, v)
        a = 1 - rho * rho
        gamma = (lambda k: core.uf("gamma", k)) if S.symbolic else math.gamma
        for k in (n / 2, (n + 1) / 2, (n + 2) / 2):
            S.assume(gamma(k) > 0)
        got = exp(S, model.score_samples(S.array([[u, v]]))[0])
        S.le("positive", 0, got)
        g = gamma((n + 2) / 2) * gamma(n / 2)
        # squared to avoid the square roots of the half powers
        want = g * g * ((1 + x * x / n) * (1 + y * y / n)) ** (n + 1)
        d = gamma((n + 1) / 2)
        S.eq("squared density", got * got * d * d * d * d * a * (1 + (x * x - 2 * rho * x * y + y * y) / (a * n)) ** (n + 2), want)


@case("C35", "independence", points=6)
def _(S):
    u, v = square(S)
    model = fitted(S, IndependentCopula())
    X = S.array([[u, v]])
    S.eq("distribution", model.cdf(X)[0], u * v)
    S.eq("given v", model.partial_derivative(X)[0], u)
    S.eq("given u", model.partial_derivative(X, first_margin=True)[0], v)
    S.eq("inverse given v", model.inverse_partial_derivative(X)[0], u)
    S.eq("inverse given u", model.inverse_partial_derivative(X, first_margin=True)[0], v)
    S.eq("density", model.score_samples(X)[0], 0)
    S.eq("tails", [model.lower_tail_dependence, model.upper_tail_dependence], [0, 0])


# ---------------------------------------------------------------- estimation
@case("C35", "Kendall's tau, Clayton", extra=extra, points=6, max_paths=60)
def _(S):
    tau = S.real("tau", -S.frac(9, 10), S.frac(9, 10))
    X = S.array([[S.frac(1, 4), S.frac(1, 2)]])
    S.assume(S.any([tau >= S.frac(1, 10), tau <= -S.frac(1, 10)]))
    a = S.max([tau, -tau])
    model = ClaytonCopula(kendall_tau=tau).fit(X)
    S.eq("tau = theta / (theta + 2)", model.theta_ / (model.theta_ + 2), a)


@case("C35", "Kendall's tau, Gumbel", extra=extra, points=6, max_paths=60, feas_ms=50)
def _(S):
    tau = S.real("tau", -S.frac(9, 10), S.frac(9, 10))
    X = S.array([[S.frac(1, 4), S.frac(1, 2)]])
    S.assume(S.any([tau >= S.frac(1, 10), tau <= -S.frac(1, 10)]))
    model = GumbelCopula(kendall_tau=tau).fit(X)
    S.eq("tau = 1 - 1 / theta", 1 - 1 / model.theta_, S.max([tau, -tau]))


@case("C35", "Kendall's tau, Gaussian", extra=extra, points=6)
def _(S):
    tau = S.real("tau", -S.frac(9, 10), S.frac(9, 10))
    X = S.array([[S.frac(1, 4), S.frac(1, 2)]])
    model = GaussianCopula(kendall_tau=tau)
    if S.symbolic:
        sine = core.uf("sin", math.pi * tau / 2)
        S.assume(sine <= S.frac(99, 100))
        S.assume(sine >= -S.frac(99, 100))
    S.eq("rho = sin(pi tau / 2)", model.fit(X).rho_, sine if S.symbolic else math.sin(math.pi * tau / 2))


def likelihood(S, base, rotation, rows, t):
    out = 1
    for u, v in rows:
        out = out * rotated(S, base, rotation, u, v, t)[3]
    return out


for _name, _cls, _base, _tau, _t in (("Clayton", ClaytonCopula, clayton, (1, 3), 1),):

    @case("C35", f"rotation by likelihood, {_name} {_t}", extra=extra, points=6, max_paths=100)
    def _(S, cls=_cls, base=_base, tau=_tau, t=_t):
        u = S.real("u", S.frac(1, 16), S.frac(15, 16))
        rows = [(u, exact(S, S.frac(1, 4)))]
        sign = -1 if bool(S.bool("negative")) else 1
        model = cls(kendall_tau=exact(S, S.frac(sign * tau[0], tau[1]))).fit(S.array([list(r) for r in rows]))
        S.eq("parameter", model.theta_, t)
        best = likelihood(S, base, model.rotation_, rows, exact(S, t))
        for r in ROTATIONS:
            S.le(f"at least as likely as {r}", likelihood(S, base, r, rows, exact(S, t)), best * (1 if S.symbolic else 1 + 1e-9))
