"""C20: cross-validated prediction is out of sample and complete."""

import numpy as np
import sklearn.model_selection as sks
from skfolio import MultiPeriodPortfolio, Population
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward, cross_val_predict
from skfolio.optimization import BaseOptimization, EqualWeighted
from skfolio.pre_selection import SelectKExtremes
from sklearn.pipeline import Pipeline

from checks.common import REAL, mean
from symx.harness import case

META = {
    "bounds": "6..9 observations, 2..3 assets, every real return; KFold (2..4), walk-forward (every train/test/purge size within the sample), combinatorial (3..4 folds), explicit split lists in any order; an optimizer whose weights are the training means, so that a single leaked or lost training observation changes the result",
    "outside": "parallel workers (n_jobs), metadata routing, larger samples",
    "assumptions": [REAL],
}


class TrainMean(BaseOptimization):
    """Weights are the training means (plus the factor means when given)."""

    def __init__(self, scale=1, portfolio_params=None):
        super().__init__(portfolio_params=portfolio_params)
        self.scale = scale

    def fit(self, X, y=None, **fit_params):
        v = X.to_numpy() if hasattr(X, "to_numpy") else X
        n, m = v.shape
        w = [sum(v[t, i] for t in range(n)) / n * self.scale for i in range(m)]
        if y is not None:
            u = y.to_numpy() if hasattr(y, "to_numpy") else y
            w = [a + sum(u[t, 0] for t in range(n)) / n for a in w]
        if "extra" in fit_params:
            w = [a + sum(list(fit_params["extra"])) for a in w]
        from symx.arr import SymArray
        from symx.core import is_sym

        self.weights_ = SymArray(w) if any(is_sym(a) for a in w) else np.array(w, dtype=float)
        self.n_features_in_ = m
        if hasattr(X, "columns"):
            self.feature_names_in_ = np.array(list(X.columns), dtype=object)
        return self


def data(S, n, m, name="x", frame=False):
    x = [[S.real(f"{name}_{t}_{i}", -1, 1) for i in range(m)] for t in range(n)]
    X = S.array(x)
    return x, (S.frame(X, columns=[f"a{i}" for i in range(m)]) if frame else X)


def oos(S, tag, p, x, train, test, cols, scale=1, y=None):
    w = [mean(S, [x[t][i] for t in train]) * scale for i in cols]
    if y is not None:
        w = [a + mean(S, [y[t][0] for t in train]) for a in w]
    S.eq(f"{tag} weights", p.weights, S.array(w))
    S.eq(f"{tag} returns", p.returns, S.array([S.sum(x[t][i] * a for i, a in zip(cols, w)) for t in test]))


def check_mpp(S, mp, x, splits, cols, scale=1, y=None):
    splits = sorted(splits, key=lambda s: s[1][0])
    S.true("one portfolio per split", isinstance(mp, MultiPeriodPortfolio) and len(mp) == len(splits))
    for k, (tr, te) in enumerate(splits):
        oos(S, f"fold {k}", mp[k], x, tr, te, cols, scale, y)


def kfold(n, k):
    size = [n // k + (1 if i < n % k else 0) for i in range(k)]
    out, a = [], 0
    for s in size:
        out.append(([t for t in range(n) if not a <= t < a + s], list(range(a, a + s))))
        a += s
    return out


for frame in (False, True):
    for k in (2, 3, 4):

        @case("C20", f"kfold {k} frame={frame}", max_paths=200)
        def _(S, k=k, frame=frame):
            x, X = data(S, 7, 2, frame=frame)
            cv = k if k == 3 else sks.KFold(k)
            check_mpp(S, cross_val_predict(TrainMean(), X, cv=cv), x, kfold(7, k), [0, 1])


@case("C20", "default folds", max_paths=200)
def _(S):
    x, X = data(S, 6, 2)
    check_mpp(S, cross_val_predict(TrainMean(), X), x, kfold(6, 5), [0, 1])


@case("C20", "walk forward", max_paths=2000)
def _(S):
    train, test, purge = int(S.int("train", 1, 3)), int(S.int("test", 1, 2)), int(S.int("purge", 0, 1))
    expend, reduce = bool(S.bool("expend")), bool(S.bool("reduce"))
    x, X = data(S, 7, 2)
    splits = []
    ts = train + purge
    while ts + test <= 7 or (reduce and ts < 7):
        splits.append((list(range(0 if expend else ts - purge - train, ts - purge)), list(range(ts, min(7, ts + test)))))
        ts += test
    cv = WalkForward(test_size=test, train_size=train, purged_size=purge, expend_train=expend, reduce_test=reduce)
    check_mpp(S, cross_val_predict(TrainMean(), X, cv=cv), x, splits, [0, 1])


@case("C20", "explicit splits in any order", max_paths=2000)
def _(S):
    x, X = data(S, 6, 2)
    base = kfold(6, 3)
    import itertools

    perm = list(itertools.permutations(range(3)))[int(S.int("order", 0, 5))]
    splits = [(np.array(base[i][0]), np.array(base[i][1])) for i in perm]
    check_mpp(S, cross_val_predict(TrainMean(), X, cv=splits), x, base, [0, 1])


@case("C20", "columns and parameters", max_paths=200)
def _(S):
    x, X = data(S, 6, 3)
    rf, af = S.real("rf", 0, 1), S.real("af", 1, 400)
    sc = S.real("scale", -3, 3)
    est = TrainMean(scale=sc)
    mp = cross_val_predict(est, X, cv=sks.KFold(3), column_indices=np.array([2, 0]),
                           portfolio_params=dict(name="zz", tag="tt", risk_free_rate=rf, annualized_factor=af))
    check_mpp(S, mp, x, kfold(6, 3), [2, 0], scale=sc)
    S.true("name and tag", mp.name == "zz" and mp.tag == "tt")
    S.eq("risk-free rate", mp.risk_free_rate, rf)
    S.eq("annualization", mp.annualized_factor, af)
    S.true("the estimator stays unfitted", not hasattr(est, "weights_"))


@case("C20", "factor data", max_paths=200)
def _(S):
    x, X = data(S, 6, 2)
    y, Y = data(S, 6, 1, name="y")
    check_mpp(S, cross_val_predict(TrainMean(), X, Y, cv=sks.KFold(3)), x, kfold(6, 3), [0, 1], y=y)


for F, P in ((3, 2), (4, 2), (4, 3)):

    @case("C20", f"combinatorial {F} {P}", max_paths=200, tiers=("quick", "thorough") if F == 3 else ("thorough",))
    def _(S, F=F, P=P):
        n = 3 * F + 1
        q = 1
        x, X = data(S, n, 2)
        rf = S.real("rf", 0, 1)
        pop = cross_val_predict(TrainMean(), X, cv=CombinatorialPurgedCV(n_folds=F, n_test_folds=P, purged_size=q), portfolio_params=dict(risk_free_rate=rf, name="pp"))
        import itertools
        import math

        folds = [list(range(3 * f, 3 * f + 3 if f < F - 1 else n)) for f in range(F)]
        combos = list(itertools.combinations(range(F), P))
        S.true("population", isinstance(pop, Population) and len(pop) == math.comb(F, P) * P // F)
        seen = [0] * F
        # path j takes, for every fold, the j-th combination testing that fold
        for j, mp in enumerate(pop):
            S.true(f"path {j}", isinstance(mp, MultiPeriodPortfolio) and len(mp) == F and mp.name == f"pp_{j}")
            S.eq(f"path {j} risk-free rate", mp.risk_free_rate, rf)
            for f in range(F):
                c = [c for c in combos if f in c][j]
                banned = set()
                for g in c:
                    banned |= set(range(folds[g][0] - q, folds[g][-1] + 1 + q))
                oos(S, f"path {j} fold {f}", mp[f], x, [t for t in range(n) if t not in banned], folds[f], [0, 1])
                seen[f] += 1


@case("C20", "overlapping or shuffled folds are refused", max_paths=50)
def _(S):
    x, X = data(S, 6, 2)
    _, e = S.attempt(lambda: cross_val_predict(TrainMean(), X, cv=[(np.array([0, 1]), np.array([2, 3])), (np.array([0, 1]), np.array([3, 4]))]))
    S.true("duplicated test observations", e == "ValueError")
    _, e = S.attempt(lambda: cross_val_predict(TrainMean(), X, cv=sks.KFold(3, shuffle=True, random_state=0)))
    S.true("shuffled", e == "ValueError")
    _, e = S.attempt(lambda: cross_val_predict(TrainMean(), X, cv=[(np.array([0, 1]), np.array([3, 2]))]))
    S.true("unsorted test observations", e == "ValueError")


@case("C20", "unsorted later folds are refused", max_paths=50)
def _(S):
    x, X = data(S, 6, 2)
    _, e = S.attempt(lambda: cross_val_predict(TrainMean(), X, cv=[(np.array([0, 1]), np.array([2, 3])), (np.array([0, 1]), np.array([5, 4]))]))
    S.true("unsorted test observations", e == "ValueError")
