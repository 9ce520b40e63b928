"""C23: nested and stacked optimizations combine the inner portfolios out of sample."""

import itertools

import numpy as np
import pandas as pd
import sklearn.model_selection as sks
from skfolio.cluster import HierarchicalClustering
from skfolio.model_selection import CombinatorialPurgedCV, WalkForward
from skfolio.optimization import NestedClustersOptimization, StackingOptimization

from checks.c20_cross_val_predict import TrainMean, kfold
from checks.c21_hierarchical import distance
from checks.common import REAL, mean
from symx.harness import case

META = {
    "bounds": "6 or 7 observations of 3 or 4 assets with up to 6 arbitrary returns; fixed clusters; inner and outer optimizers whose weights are training means, so that one leaked, lost or misplaced observation changes the result; in-sample, fold, walk-forward and combinatorial training of the outer optimizer",
    "outside": "parallel workers; routed metadata; clusterings other than by the given distances; larger samples",
    "assumptions": [REAL, "the inner and outer optimizers are stand-ins with weights equal to training means"],
}

BASE = [[1, -2, 3, 1], [-1, 2, 1, -3], [2, 1, -1, 1], [-3, 1, 2, 2], [1, 1, -2, -1], [2, -1, 1, 3], [-1, 3, 1, -2]]


def returns(S, n, m, free=((0, 0), (3, 1), (5, 2), (4, 0))):
    x = [[S.frac(BASE[t][i], 8) for i in range(m)] for t in range(n)]
    for t, i in free:
        x[t][i] = S.real(f"x_{t}_{i}", -1, 1)
    return x


def weights(S, x, rows, cols, scale=1):
    return {i: mean(S, [x[t][i] for t in rows]) * scale for i in cols}


def run(S, x, w, rows):
    return [S.sum(x[t][i] * a for i, a in w.items()) for t in rows]


def forward(n, train, test):
    out = []
    t = train
    while t + test <= n:
        out.append((list(range(t - train, t)), list(range(t, t + test))))
        t += test
    return out


def expected(S, x, parts, splits, outer=1):
    """parts: (columns, scale or None for a single asset held alone)"""
    n, m = len(x), len(x[0])
    rows = list(range(n))
    total = [0] * m
    for cols, scale in parts:
        w = {cols[0]: 1} if scale is None else weights(S, x, rows, cols, scale)
        pred = []
        for train, test in splits or [(rows, rows)]:
            q = {cols[0]: 1} if scale is None else weights(S, x, train, cols, scale)
            pred += run(S, x, q, test)
        out = mean(S, pred) * outer
        for i, a in w.items():
            total[i] = total[i] + a * out
    return total


CVS = {
    "in sample": (lambda: "ignore", lambda n: None),
    "3 folds": (lambda: sks.KFold(3), lambda n: kfold(n, 3)),
    "default folds": (lambda: None, lambda n: kfold(n, 5)),
    "walk forward": (lambda: WalkForward(train_size=2, test_size=2), lambda n: forward(n, 2, 2)),
}
# clusters given by places on a line
PARTS = {"two pairs": (4, [0, 20, 21, 1], 2, [[0, 3], [1, 2]]), "one asset apart": (3, [40, 0, 1], 2, [[0], [1, 2]]), "one cluster": (3, [0, 2, 1], 1, [[0, 1, 2]])}
for cname, (cv, splits) in CVS.items():
    for pname, (m, places, k, groups) in PARTS.items():
        for frame in (False, True):
            if frame and pname == "one cluster":
                continue

            @case("C23", f"nested clusters, {pname}, {cname}, frame={frame}", points=3)
            def _(S, m=m, places=places, k=k, groups=groups, cv=cv, splits=splits, frame=frame):
                n = 6
                x = returns(S, n, m)
                X = S.array(x)
                if frame:
                    X = S.frame(X, columns=[f"a{i}" for i in range(m)])
                est = NestedClustersOptimization(
                    inner_estimator=TrainMean(scale=2),
                    outer_estimator=TrainMean(scale=3),
                    distance_estimator=distance(m, places),
                    clustering_estimator=HierarchicalClustering(max_clusters=k),
                    cv=cv(),
                )
                est.fit(X)
                want = expected(S, x, [(g, None if len(g) == 1 else 2) for g in groups], splits(n), 3)
                S.eq("weights", est.weights_, want)
                S.true("one inner optimizer per larger cluster", len(est.inner_estimators_) == sum(len(g) > 1 for g in groups))
                S.true("assets seen", est.n_features_in_ == m)


for cname, (cv, splits) in CVS.items():
    for frame in (False, True):

        @case("C23", f"stacking, {cname}, frame={frame}", points=3)
        def _(S, cv=cv, splits=splits, frame=frame):
            n, m = 6, 3
            x = returns(S, n, m)
            X = S.array(x)
            if frame:
                X = S.frame(X, columns=[f"a{i}" for i in range(m)])
            sc = [1, -2, 3]
            est = StackingOptimization([(f"e{i}", TrainMean(scale=s)) for i, s in enumerate(sc)], final_estimator=TrainMean(scale=5), cv=cv())
            est.fit(X)
            S.eq("weights", est.weights_, expected(S, x, [(list(range(m)), s) for s in sc], splits(n), 5))
            S.true("names", list(est.named_estimators_) == ["e0", "e1", "e2"] and [e.scale for e in est.estimators_] == sc)
            S.true("assets seen", est.n_features_in_ == m and (not frame or list(est.feature_names_in_) == [f"a{i}" for i in range(m)]))


@case("C23", "stacking of fitted optimizers", points=3)
def _(S):
    n, m = 6, 3
    x = returns(S, n, m)
    other = returns(S, n, m, free=((2, 0), (1, 1)))
    ests = [TrainMean(scale=s).fit(S.array(other)) for s in (1, 2)]
    est = StackingOptimization([(f"e{i}", e) for i, e in enumerate(ests)], final_estimator=TrainMean(), cv="prefit").fit(S.array(x))
    total = [0] * m
    for s in (1, 2):
        w = weights(S, other, range(n), range(m), s)
        o = mean(S, run(S, x, w, range(n)))
        total = [a + w[i] * o for i, a in enumerate(total)]
    S.eq("weights", est.weights_, total)


@case("C23", "factors reach every optimizer", points=3)
def _(S):
    n, m = 6, 3
    x = returns(S, n, m, free=((0, 0), (5, 2)))
    y = [[S.frac(BASE[t][3], 8), S.frac(t, 8)] for t in range(n)]
    y[2][0] = S.real("y_2", -1, 1)
    X, Y = S.array(x), S.array(y)
    f = lambda rows: mean(S, [y[t][0] for t in rows])  # noqa: E731
    rows = list(range(n))
    sp = kfold(n, 3)
    w = [mean(S, [x[t][i] for t in rows]) + f(rows) for i in range(m)]
    pred = []
    for tr, te in sp:
        q = {i: mean(S, [x[t][i] for t in tr]) + f(tr) for i in range(m)}
        pred += run(S, x, q, te)
    out = mean(S, pred) + f(rows)
    st = StackingOptimization([("e0", TrainMean()), ("e1", TrainMean())], final_estimator=TrainMean(), cv=sks.KFold(3)).fit(X, Y)
    S.eq("stacking", st.weights_, [2 * a * out for a in w])
    # asset 0 alone in its cluster
    nc = NestedClustersOptimization(
        inner_estimator=TrainMean(), outer_estimator=TrainMean(), cv=sks.KFold(3), distance_estimator=distance(3, [40, 0, 1]), clustering_estimator=HierarchicalClustering(max_clusters=2)
    ).fit(X, Y)
    alone = mean(S, [x[t][0] for t in rows]) + f(rows)
    pred = []
    for tr, te in sp:
        q = {i: mean(S, [x[t][i] for t in tr]) + f(tr) for i in (1, 2)}
        pred += run(S, x, q, te)
    out = mean(S, pred) + f(rows)
    S.eq("nested clusters", nc.weights_, [alone, w[1] * out, w[2] * out])


@case("C23", "combinatorial paths", points=3)
def _(S):
    n, m = 6, 2
    x = returns(S, n, m, free=((0, 0), (3, 1)))
    # three folds of two, two tested at once: two paths of three portfolios
    cv = CombinatorialPurgedCV(n_folds=3, n_test_folds=2, purged_size=0, embargo_size=0)
    from skfolio import RiskMeasure

    est = StackingOptimization([("e0", TrainMean()), ("e1", TrainMean(scale=2))], final_estimator=TrainMean(), cv=cv, quantile=1, quantile_measure=RiskMeasure.WORST_REALIZATION)
    est.fit(S.array(x))
    folds = [[0, 1], [2, 3], [4, 5]]
    combos = list(itertools.combinations(range(3), 2))
    rows = list(range(n))
    total = [0] * m
    for s in (1, 2):
        paths = []
        for j in range(2):
            r = []
            for f in range(3):
                c = [c for c in combos if f in c][j]
                tr = [t for t in rows if not any(t in folds[g] for g in c)]
                r += run(S, x, weights(S, x, tr, range(m), s), folds[f])
            paths.append(r)
        worst = [S.max(*[-v for v in p]) for p in paths]
        # the path with the largest worst realization
        first = bool(worst[0] >= worst[1])
        S.assume(S.any([worst[0] != worst[1]]))
        o = mean(S, paths[0 if first else 1])
        w = weights(S, x, rows, range(m), s)
        total = [a + w[i] * o for i, a in enumerate(total)]
    S.eq("weights", est.weights_, total)


class Named(TrainMean):
    """Needs the names of the assets at prediction time as well."""

    def predict(self, X):
        if not hasattr(X, "columns"):
            raise ValueError("no names")
        return super().predict(X)


@case("C23", "names reach the inner optimizers", points=2)
def _(S):
    n, m = 6, 4
    x = returns(S, n, m)
    X = S.frame(S.array(x), columns=[f"a{i}" for i in range(m)])
    for cv in ("ignore", sks.KFold(3)):
        est = NestedClustersOptimization(inner_estimator=Named(), outer_estimator=TrainMean(), distance_estimator=distance(4, [0, 20, 21, 1]), clustering_estimator=HierarchicalClustering(max_clusters=2), cv=cv)
        est.fit(X)
        S.true("inner names", [list(e.feature_names_in_) for e in est.inner_estimators_] == [["a0", "a3"], ["a1", "a2"]] or [list(e.feature_names_in_) for e in est.inner_estimators_] == [["a1", "a2"], ["a0", "a3"]])


@case("C23", "replacing stacked optimizers", points=2)
def _(S):
    n, m = 6, 3
    x = returns(S, n, m)
    a, b = S.real("a", -3, 3), S.real("b", -3, 3)
    est = StackingOptimization([("e0", TrainMean()), ("e1", TrainMean(scale=2))], final_estimator=TrainMean(), cv="ignore")
    est.set_params(e0=TrainMean(scale=a), e1__scale=b, final_estimator=TrainMean(scale=3))
    est.fit(S.array(x))
    S.eq("weights", est.weights_, expected(S, x, [(list(range(m)), a), (list(range(m)), b)], None, 3))
