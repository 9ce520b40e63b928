"""C19: combinatorial purged cross-validation: folds, purging, embargo, paths."""

import itertools
import math

import numpy as np
from skfolio.model_selection import CombinatorialPurgedCV, optimal_folds_number

from checks.common import REAL
from symx.harness import case

META = {
    "bounds": "3..5 folds with every number of test folds (6 in thorough), every sample count up to 4 per fold plus a remainder of up to folds-1, purge 0..2 and embargo 0..2; recommended folds: every target train size, target number of paths and weights for up to 6 observations",
    "outside": "larger purge/embargo, more folds, more observations per fold",
    "assumptions": [REAL, "sizes are integers, so each path of the exploration fixes them (exhaustive within the bounds)"],
}


def fold_ranges(n, F):
    fs = n // F
    return [list(range(f * fs, (f + 1) * fs if f < F - 1 else n)) for f in range(F)]


for F in (3, 4, 5, 6):
    for P in range(2, F):
        for emb in range(3):

            @case("C19", f"{F} folds {P} test folds embargo={emb}", tiers=("thorough",) if F == 6 else ("quick", "thorough"), max_paths=3000)
            def _(S, F=F, P=P, emb=emb):
                n = int(S.int("n", F, 4 * F + F - 1))
                purge = int(S.int("purge", 0, 2))
                cv = CombinatorialPurgedCV(n_folds=F, n_test_folds=P, purged_size=purge, embargo_size=emb)
                X = np.zeros((n, 2))
                out, e = S.attempt(lambda: list(cv.split(X)))
                if purge + emb >= n // F - 1:
                    S.true("too small folds refused", e == "ValueError")
                    return
                S.true("accepted", e is None)
                folds = fold_ranges(n, F)
                combos = []
                for k, (train, tests) in enumerate(out):
                    ids = [folds.index(list(t)) if list(t) in folds else None for t in tests]
                    S.true(f"split {k} tests whole folds", None not in ids)
                    if None in ids:
                        return
                    S.true(f"split {k} chronological", ids == sorted(ids))
                    combos.append(tuple(ids))
                    banned = set()
                    for f in ids:
                        a, b = folds[f][0], folds[f][-1]
                        banned |= set(folds[f]) | set(range(a - purge, a)) | set(range(b + 1, b + 1 + purge + emb))
                    S.true(f"split {k} trains on the rest, purged and embargoed", list(train) == [i for i in range(n) if i not in banned])
                S.true("every combination of folds once", sorted(combos) == list(itertools.combinations(range(F), P)))
                S.true("number of splits", cv.n_splits == len(out) and cv.get_n_splits(X) == len(out) if hasattr(cv, "get_n_splits") else cv.n_splits == len(out))
                ids = cv.get_path_ids()
                S.true("path ids", ids.shape == (len(out), P))
                paths = {}
                for k, c in enumerate(combos):
                    for j, f in enumerate(c):
                        paths.setdefault(int(ids[k, j]), []).append(f)
                S.true("number of paths", sorted(paths) == list(range(cv.n_test_paths)) and cv.n_test_paths == math.comb(F, P) * P // F)
                S.true("every path covers every fold once in order", all(p == list(range(F)) for p in paths.values()))
                S.true("train/test table", cv.binary_train_test_sets.shape == (F, len(out))
                       and all(cv.binary_train_test_sets[f, k] == (1 if f in combos[k] else 0) for f in range(F) for k in range(len(out))))


for n in (4, 5, 6):

    @case("C19", f"recommended folds for {n} observations", max_paths=4000, tiers=("quick", "thorough") if n < 6 else ("thorough",), time_limit=900)
    def _(S, n=n):
        ft, gt = S.real("target_train", 1, n), S.real("target_paths", 1, 20)
        wf, wg = S.real("weight_train", 0, 5), S.real("weight_paths", 0, 5)
        x, y = optimal_folds_number(n_observations=n, target_train_size=ft, target_n_test_paths=gt, weight_train_size=wf, weight_n_test_paths=wg)
        x, y = int(x), int(y)
        S.true("valid", 3 <= x <= n and 2 <= y < x)

        def cost(F, P):
            paths = math.comb(F, P) * P // F
            # multiplied by both (positive) targets
            return wg * abs(paths - gt) * ft + wf * abs(S.frac(n, F) * (F - P) - ft) * gt

        for F in range(3, n + 1):
            for P in range(2, F):
                if (F, P) != (x, y):
                    S.le(f"not worse than {F} {P}", cost(x, y), cost(F, P))


@case("C19", "invalid settings are refused", max_paths=2000)
def _(S):
    F, P, q, e = (int(S.int(v, lo, hi)) for v, lo, hi in (("folds", 1, 5), ("tests", 0, 5), ("purge", -1, 1), ("embargo", -1, 1)))
    _, err = S.attempt(lambda: CombinatorialPurgedCV(n_folds=F, n_test_folds=P, purged_size=q, embargo_size=e))
    ok = F >= 3 and 2 <= P < F and q >= 0 and e >= 0
    S.true("accepted exactly when valid", (err is None) == ok and err in (None, "ValueError"))
