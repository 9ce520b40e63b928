"""C18: walk-forward splits: windows, purging, no look-ahead."""

import datetime as dt

import numpy as np
import pandas as pd
import sklearn.utils
from skfolio.model_selection import WalkForward

from symx import core, patch
from symx.arr import SymArray
from symx.harness import case

META = {
    "bounds": "integer windows: every sample count up to 100000, every train, test and purge size, up to 3 splits (5 in thorough); "
    "calendar windows: every set of 4 (5 in thorough) distinct observation days within 5 weeks, every weekday as period end, every whole-day offset within a week, train window in periods (1..2) or in days, purge 0..2",
    "outside": "more splits per run, frequencies other than weekly, intra-day timestamps and offsets",
    "assumptions": [
        "index ranges are kept as intervals with symbolic ends; pandas' date_range / get_indexer are modelled for weekly periods over whole days and the replay runs real pandas",
    ],
}

LAZY = patch.lazy_ranges()
INDEXABLE = {sklearn.utils: patch._Mod(sklearn.utils, {"indexable": lambda *a: list(a)}, wrap=False)}


class Data:
    def __init__(self, n, index=None):
        self.shape = (n, 1)
        if index is not None:
            self.index = index


def bounds(x):
    """First and one-past-last element of an index array, None when it is empty."""
    if isinstance(x, patch.SymRange):
        return x.start, x.stop
    x = [int(i) for i in x]
    assert x == list(range(x[0], x[0] + len(x))) if x else True, "not contiguous"
    return (x[0], x[-1] + 1) if x else (0, 0)


def same(S, tag, got, a, b):
    g0, g1 = bounds(got)
    S.true(tag, S.any([S.all([g0 >= g1, a >= b]), S.all([g0 == a, g1 == b, a < b])]))


def integer_case(S, K, n, train, test, purge, expend, reduce, X):
    wf = WalkForward(test_size=test, train_size=train, purged_size=purge, expend_train=expend, reduce_test=reduce)
    out, e = S.attempt(lambda: list(wf.split(X)))
    if bool(train + purge >= n):
        S.true("too few samples refused", e == "ValueError")
        return
    S.true("accepted", e is None)
    k = 0
    while True:
        ts = train + purge + k * test
        full = bool(ts + test <= n)
        if not (full or (reduce and bool(ts < n))):
            break
        S.true(f"split {k} exists", k < len(out))
        if k >= len(out):
            return
        tr, te = out[k]
        same(S, f"test {k}", te, ts, ts + test if full else n)
        same(S, f"train {k}", tr, 0 if expend else ts - purge - train, ts - purge)
        k += 1
    S.true("no further split", len(out) == k)
    S.eq("announced number of splits", wf.get_n_splits(X), k)


for expend in (False, True):
    for reduce in (False, True):
        for K, tiers in ((3, ("quick", "thorough")), (5, ("thorough",))):

            @case("C18", f"integer windows expend={expend} reduce={reduce} up to {K} splits", tiers=tiers, optional=True, max_paths=2000,
                  extra={**LAZY["extra"], **INDEXABLE}, by_name=LAZY["by_name"])
            def _(S, expend=expend, reduce=reduce, K=K):
                n = S.int("n", 1, 100000)
                train, test, purge = S.int("train", 1, 100000), S.int("test", 1, 100000), S.int("purge", 0, 100000)
                S.assume(n < train + purge + K * test)
                X = Data(n) if S.symbolic else np.broadcast_to(np.zeros((1, 1)), (n, 1))
                integer_case(S, K, n, train, test, purge, expend, reduce, X)

        @case("C18", f"small integer windows expend={expend} reduce={reduce}", max_paths=2000)
        def _(S, expend=expend, reduce=reduce):
            n, train, test, purge = (int(S.int(v, lo, hi)) for v, lo, hi in (("n", 1, 8), ("train", 1, 3), ("test", 1, 3), ("purge", 0, 2)))
            integer_case(S, 8, n, train, test, purge, expend, reduce, np.zeros((n, 1)))


# --------------------------------------------------------------------------- calendar
DAYS = ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"]
MONDAY = pd.Timestamp("2018-01-01")


class Day:
    """A whole day (stand-in for Timestamp)."""

    def __init__(self, v):
        self.v = v

    def __sub__(self, o):
        return Day(self.v - o.v) if isinstance(o, Off) else Off(self.v - o.v)

    def __add__(self, o):
        return Day(self.v + o.v)

    __radd__ = __add__

    def __lt__(self, o):
        return self.v < o.v

    def __le__(self, o):
        return self.v <= o.v

    def __gt__(self, o):
        return self.v > o.v

    def __ge__(self, o):
        return self.v >= o.v

    def __eq__(self, o):
        return self.v == o.v

    __hash__ = None


class Off:
    """A number of days (stand-in for timedelta)."""

    def __init__(self, v):
        self.v = v

    def __neg__(self):
        return Off(-self.v)


class Dates:
    """Increasing days (stand-in for DatetimeIndex)."""

    def __init__(self, v):
        self.v = list(v)

    def __len__(self):
        return len(self.v)

    @property
    def size(self):
        return len(self.v)

    @property
    def shape(self):
        return (len(self.v),)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Dates(self.v[k])
        if isinstance(k, (np.ndarray, list)):
            return Dates([d for d, m in zip(self.v, list(k), strict=True) if bool(m)])
        return Day(self.v[int(k)])

    def min(self):
        return Day(self.v[0])

    def max(self):
        return Day(self.v[-1])

    def __add__(self, o):
        return Dates([d + o.v for d in self.v])

    def __sub__(self, o):
        return Dates([d - o.v for d in self.v])

    def __iter__(self):
        return (Day(d) for d in self.v)

    def _cmp(self, f):
        return SymArray([f(d) for d in self.v]) if self.v else np.zeros(0, dtype=bool)

    def __ge__(self, o):
        return self._cmp(lambda d: d >= o.v)

    def __le__(self, o):
        return self._cmp(lambda d: d <= o.v)

    def __gt__(self, o):
        return self._cmp(lambda d: d > o.v)

    def __lt__(self, o):
        return self._cmp(lambda d: d < o.v)

    def searchsorted(self, value, side="left"):
        n = lambda x: sum(core.ite(d < x if side == "left" else d <= x, 1, 0) for d in self.v)  # noqa: E731
        return SymArray([n(x) for x in value.v]) if isinstance(value, Dates) else n(value.v)

    def get_indexer(self, target, method=None):
        out = []
        for x in target.v:
            if method in ("ffill", "pad"):
                out.append(sum(core.ite(d <= x, 1, 0) for d in self.v) - 1)
            elif method in ("bfill", "backfill"):
                c = sum(core.ite(d < x, 1, 0) for d in self.v)
                out.append(core.ite(c == len(self.v), -1, c))
            else:
                raise core.Unsupported("get_indexer method")
        return SymArray(out) if out else np.zeros(0, dtype=int)


class Weekly:
    def __init__(self, day):
        self.day = day


def date_range(start=None, end=None, freq=None, **k):
    if not isinstance(freq, Weekly):
        raise core.Unsupported("date_range")
    d = start.v + (freq.day - start.v) % 7
    out = []
    while bool(d <= end.v):
        out.append(d)
        d = d + 7
    return Dates(out)


CAL = {pd: patch._Mod(pd, {"DatetimeIndex": Dates, "date_range": date_range, "Timestamp": Day}, wrap=False)}


def pos(S, d, x, previous):
    return S.sum(S.ite(i <= x, 1, 0) for i in d) - 1 if previous else S.sum(S.ite(i < x, 1, 0) for i in d)


def calendar_case(S, m, d, day, offset, previous, train, test, purge, expend, reduce, train_days, X, freq, off, train_arg):
    wf = WalkForward(test_size=test, train_size=train_arg, purged_size=purge, expend_train=expend, reduce_test=reduce,
                     freq=freq, freq_offset=off, previous=previous)
    out = list(wf.split(X))
    S.true("announced number of splits", wf.get_n_splits(X) == len(out))
    # rebalancing days: the given weekday, shifted by the offset, within the sample
    shift = day + (offset if offset is not None else 0)
    b = d[0] + (shift - d[0]) % 7
    bs = []
    while bool(b <= d[-1]):
        bs.append(b)
        b = b + 7
    p = [pos(S, d, x, previous) for x in bs]
    splits = []
    if train_days is None:
        i = 0
        while i + train < len(bs):
            lo = 0 if expend else p[i]
            if i + train + test < len(bs):
                splits.append((lo, p[i + train] - purge, p[i + train], p[i + train + test]))
            elif reduce:
                splits.append((lo, p[i + train] - purge, p[i + train], m))
            else:
                break
            i += test
    else:
        i = 0
        while i < len(bs) and bool(bs[i] - train_days < d[0]):
            i += 1
        while i < len(bs):
            lo = 0 if expend else pos(S, d, bs[i] - train_days, True)
            if i + test < len(bs):
                splits.append((lo, p[i] - purge, p[i], p[i + test]))
            elif reduce:
                splits.append((lo, p[i] - purge, p[i], m))
            else:
                break
            i += test
    S.true("number of splits", len(out) == len(splits))
    for k, (got, (a, b, c, e)) in enumerate(zip(out, splits)):
        same(S, f"train {k}", got[0], a, b)
        same(S, f"test {k}", got[1], c, e)


for kind in ("periods", "days"):
    for with_offset in (False, True):
        for previous in (False, True):
            for m, tiers in ((4, ("quick", "thorough")), (5, ("thorough",))):

                @case("C18", f"calendar windows of {m} days, train in {kind} offset={with_offset} previous={previous}", tiers=tiers, optional=True,
                      max_paths=6000, time_limit=600, extra={**LAZY["extra"], **INDEXABLE, **CAL}, by_name=LAZY["by_name"])
                def _(S, m=m, kind=kind, with_offset=with_offset, previous=previous):
                    d = S.ints("d", m, 0, 34)
                    for i in range(m - 1):
                        S.assume(d[i] < d[i + 1])
                    day = S.int("weekday", 0, 6)
                    offset = S.int("offset", -6, 6) if with_offset else None
                    expend, reduce = bool(S.bool("expend")), bool(S.bool("reduce"))
                    test = int(S.int("test", 1, 2))
                    purge = S.int("purge", 0, 2)
                    train = int(S.int("train", 1, 2)) if kind == "periods" else None
                    tdays = S.int("train_days", 1, 20) if kind == "days" else None
                    if S.symbolic:
                        X = Data(m, Dates(d))
                        freq, off = Weekly(day), (Off(offset) if with_offset else None)
                        ta = Off(tdays) if tdays is not None else train
                    else:
                        X = pd.DataFrame(np.zeros((m, 1)), index=MONDAY + pd.to_timedelta([int(i) for i in d], unit="D"))
                        freq, off = "W-" + DAYS[int(day)], (dt.timedelta(days=int(offset)) if with_offset else None)
                        ta = dt.timedelta(days=int(tdays)) if tdays is not None else train
                    calendar_case(S, m, d, day, offset, previous, train, test, purge, expend, reduce, tdays, X, freq, off, ta)

            @case("C18", f"business days, train in {kind} offset={with_offset} previous={previous}", max_paths=6000)
            def _(S, kind=kind, with_offset=with_offset, previous=previous):
                first = int(S.int("first", 0, 4))
                d = [i for i in range(first, first + 26) if i % 7 < 5]
                day = int(S.int("weekday", 0, 6))
                offset = (-3, 2)[int(S.int("offset", 0, 1))] if with_offset else None
                test = int(S.int("test", 1, 2))
                purge = int(S.int("purge", 0, 1))
                reduce = bool(S.bool("reduce"))
                train = 1 if kind == "periods" else None
                tdays = 9 if kind == "days" else None
                X = pd.DataFrame(np.zeros((len(d), 1)), index=MONDAY + pd.to_timedelta(d, unit="D"))
                calendar_case(S, len(d), d, day, offset, previous, train, test, purge, False, reduce, tdays, X, "W-" + DAYS[day],
                              dt.timedelta(days=offset) if with_offset else None, dt.timedelta(days=tdays) if tdays else train)
