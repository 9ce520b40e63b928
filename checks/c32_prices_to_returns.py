"""C32: prices become returns with the documented treatment of missing values."""

import itertools
import math

import pandas as pd
from skfolio.preprocessing import prices_to_returns

from checks.common import REAL
from symx.harness import case

META = {
    "bounds": "3 to 4 dates, 2 assets and up to 2 factors with partly different dates; every price and every pattern of missing prices within the free cells; all joins and options",
    "outside": "more dates; prices of zero",
    "assumptions": [REAL, "the logarithm is an uninterpreted function; patterns of missing prices are decided path by path"],
}
NAN = math.nan


def missing(x):
    return isinstance(x, float) and x != x


def prices(S, name, T, n, free):
    """Prices with possibly missing cells at the free positions."""
    out = []
    for t in range(T):
        row = []
        for i in range(n):
            p = S.real(f"{name}{t}{i}", S.frac(1, 2), 4)
            if (t, i) in free and bool(S.bool(f"gap_{name}{t}{i}")):
                p = NAN
            row.append(p)
        out.append(row)
    return out


def expected(S, x, dx, y=None, dy=(), *, log=False, threshold=1, join="outer", drop=True, fill=True):
    nx = len(x[0])
    ny = len(y[0]) if y is not None else 0
    X, Y = dict(zip(dx, x, strict=True)), dict(zip(dy, y or [], strict=True))
    if y is None:
        dates = list(dx)
    else:
        dates = {
            "outer": sorted(set(dx) | set(dy)),
            "inner": [d for d in dx if d in set(dy)],
            "left": list(dx),
            "right": list(dy),
        }[join]
    rows = [(d, list(X.get(d, [NAN] * nx)), list(Y.get(d, [NAN] * ny))) for d in dates]
    if threshold is not None:
        rows = [r for r in rows if not sum(missing(v) for v in r[1]) > nx * threshold]
    table = [(d, a + b) for d, a, b in rows]
    if fill:
        last = [NAN] * (nx + ny)
        for _, r in table:
            for i, v in enumerate(r):
                if missing(v):
                    r[i] = last[i]
                last[i] = r[i]
    if drop:
        started = [False] * (nx + ny)
        kept = []
        for d, r in table:
            started = [s or not missing(v) for s, v in zip(started, r, strict=True)]
            if all(started):
                kept.append((d, r))
        table = kept
    else:
        table = [(d, r) for d, r in table if not all(missing(v) for v in r)]
    cols = [i for i in range(nx + ny) if any(not missing(r[i]) for _, r in table)]
    out = []
    for (_, a), (d, b) in itertools.pairwise(table):
        r = {}
        for i in cols:
            if missing(a[i]) or missing(b[i]):
                r[i] = NAN
            else:
                v = b[i] / a[i] - 1
                r[i] = S.log(1 + v) if log else v
        out.append((d, r))
    return cols, out


def compare(S, tag, got, cols, rows, names):
    S.true(f"{tag} columns", list(got.columns) == [names[i] for i in cols])
    S.true(f"{tag} dates", list(got.index) == [d for d, _ in rows])
    if list(got.index) != [d for d, _ in rows] or list(got.columns) != [names[i] for i in cols]:
        return
    for k, (d, r) in enumerate(rows):
        for j, i in enumerate(cols):
            v = got.iloc[k, j]
            if missing(r[i]) or missing(v):
                S.true(f"{tag} missing {d} {names[i]}", missing(r[i]) and missing(v))
            else:
                S.eq(f"{tag} return {d} {names[i]}", v, r[i])


NAMES = ["a", "b", "f", "g"]
CELLS = {(t, i) for t in range(4) for i in range(2)}

for _log, _thr, _drop, _fill in [
    (False, 1, True, True),
    (True, 1, True, True),
    (True, 1, False, True),
    (True, 0.5, False, False),
    (False, 1, False, True),
    (False, 1, True, False),
    (False, 1, False, False),
    (False, 0.5, True, True),
    (False, 0.25, False, False),
    (False, None, False, True),
]:

    @case("C32", f"assets, log {_log}, threshold {_thr}, drop {_drop}, fill {_fill}", points=4, max_paths=400)
    def _(S, log=_log, thr=_thr, drop=_drop, fill=_fill):
        x = prices(S, "x", 4, 2, CELLS - {(3, 1)})
        X = S.frame([list(r) for r in x], columns=NAMES[:2], index=list(range(4)))
        before = X.copy()
        got = prices_to_returns(X, log_returns=log, nan_threshold=thr, drop_inceptions_nan=drop, fill_nan=fill)
        cols, rows = expected(S, x, range(4), log=log, threshold=thr, drop=drop, fill=fill)
        compare(S, "asset", got, cols, rows, NAMES)
        S.true("prices unchanged", X.shape == before.shape and bool((X.isna() == before.isna()).all().all()))


for _join, _thr, _drop, _fill in [
    ("outer", 1, True, True),
    ("outer", 0.5, True, True),
    ("outer", 1, False, False),
    ("inner", 1, True, True),
    ("inner", 0.5, False, True),
    ("left", 1, False, True),
    ("right", 1, True, False),
]:

    @case("C32", f"assets and factors, {_join}, threshold {_thr}, drop {_drop}, fill {_fill}", points=4, max_paths=400)
    def _(S, join=_join, thr=_thr, drop=_drop, fill=_fill):
        dx, dy = [0, 1, 2, 4], [1, 2, 3, 4]
        x = prices(S, "x", 4, 1, {(0, 0), (1, 0), (2, 0)})
        y = prices(S, "y", 4, 2, {(0, 0), (0, 1), (1, 0), (1, 1)})
        X = S.frame([list(r) for r in x], columns=["a"], index=dx)
        Y = S.frame([list(r) for r in y], columns=["f", "g"], index=dy)
        gx, gy = prices_to_returns(X, Y, nan_threshold=thr, join=join, drop_inceptions_nan=drop, fill_nan=fill)
        cols, rows = expected(S, x, dx, y, dy, threshold=thr, join=join, drop=drop, fill=fill)
        names = ["a", "f", "g"]
        compare(S, "asset", gx, [i for i in cols if i == 0], rows, names)
        compare(S, "factor", gy, [i for i in cols if i > 0], rows, names)


@case("C32", "refused", points=2)
def _(S):
    x = prices(S, "x", 3, 2, set())
    X = S.frame(x, columns=["a", "b"], index=[0, 1, 2])
    t = S.real("threshold", -1, 3)
    _, e = S.attempt(lambda: prices_to_returns(X, nan_threshold=t))
    S.true("threshold outside its range", (e == "ValueError") == bool(S.any([t <= 0, t > 1])))
    _, e = S.attempt(lambda: prices_to_returns(S.array(x)))
    S.true("arrays are refused", e == "TypeError")
    _, e = S.attempt(lambda: prices_to_returns(X, S.array(x)))
    S.true("arrays of factors are refused", e == "TypeError")
