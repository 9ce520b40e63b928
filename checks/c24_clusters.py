"""C24: hierarchical clustering cuts the tree where the within-cluster distances bend most."""

import numpy as np
import scipy.cluster.hierarchy as sch
import scipy.spatial.distance as scd
from skfolio.cluster import HierarchicalClustering, LinkageMethod

from checks.common import REAL
from symx.arr import SymArray, has_sym
from symx.harness import case
from symx.patch import _Mod

META = {
    "bounds": "2 to 6 assets (7 in the thorough tier), five tree shapes; every distance within ranges that keep the shape of the tree, every linkage method",
    "outside": "distances that change the shape of the tree within one query; the agglomeration itself is compiled library code, run on the middle of the ranges",
    "assumptions": [REAL],
}

# nested tuples: the joins from the leaves up; the height of a join is its position in the
# order given by HEIGHT, ranges of different joins do not overlap
TREES = {
    "2": (0, 1),
    "3": ((0, 2), 1),
    "4 chain": (((0, 1), 2), 3),
    "4 pairs": ((0, 3), (1, 2)),
    "5": (((0, 3), 1), (2, 4)),
    "6": (((0, 3), 1), ((2, 4), 5)),
    "6 pairs": (((0, 1), (2, 3)), (4, 5)),
    "10 chain": ((((((((((0, 1), 2), 3), 4), 5), 6), 7), 8), 9)),
    "7": (((0, 3), (1, 6)), ((2, 4), 5)),
}


def leaves(t):
    return [t] if isinstance(t, int) else leaves(t[0]) + leaves(t[1])


def joins(t):
    """The joins in increasing order of size, then of position."""
    if isinstance(t, int):
        return []
    return sorted(joins(t[0]) + joins(t[1]) + [t], key=lambda j: len(leaves(j)))


def ranges(t, close=False):
    """For every pair of assets the range of its distance, by the join where they meet.

    The bounds grow by a factor which keeps the shape for all linkage methods; ranges
    that follow each other closely keep it for those which lie between the distances."""
    out = {}
    for k, j in enumerate(joins(t)):
        lo, hi = (1 + k / 2, 1 + k / 2 + 7 / 16) if close else (4.0**k, 1.5 * 4.0**k)
        for a in leaves(j[0]):
            for b in leaves(j[1]):
                out[tuple(sorted((a, b)))] = (lo, hi)
    return out


def middle(t, close=False):
    n = len(leaves(t))
    d = np.zeros((n, n))
    for (a, b), (lo, hi) in ranges(t, close).items():
        d[a, b] = d[b, a] = (lo + hi) / 2
    return d


def partitions(t):
    """The partition of the assets into k clusters for every k, by undoing the joins."""
    n = len(leaves(t))
    order = joins(t)
    out = {}
    for k in range(1, n + 1):
        kept = order[: n - k]
        groups = [{i} for i in range(n)]
        for j in kept:
            ids = set(leaves(j))
            groups = [g for g in groups if not g & ids] + [ids]
        out[k] = groups
    return out


def symbols(S, t, close=False):
    n = len(leaves(t))
    d = [[0] * n for _ in range(n)]
    for (a, b), (lo, hi) in ranges(t, close).items():
        d[a][b] = d[b][a] = S.real(f"d{a}{b}", lo, hi)
    return d


def dispersion(S, d, groups):
    total = 0
    for g in groups:
        pairs = [(a, b) for a in g for b in g if a < b]
        if pairs:
            total = total + S.sum(d[a][b] for a, b in pairs) / len(pairs)
    return total


def shape(tree, close=False):
    """The compiled agglomeration is run on the middle of the ranges."""
    t = TREES[tree]

    def squareform(x, *a, **k):
        if not has_sym(x):
            return scd.squareform(x, *a, **k)
        x = SymArray(x)
        if x.ndim == 1:
            n = next(k for k in range(2, 99) if k * (k - 1) // 2 == len(x))
            out = [[0] * n for _ in range(n)]
            for k, (i, j) in enumerate((i, j) for i in range(n) for j in range(i + 1, n)):
                out[i][j] = out[j][i] = x[k]
            return SymArray(out)
        n = x.shape[0]
        return SymArray([x[i, j] for i in range(n) for j in range(i + 1, n)])

    def linkage(y, *a, **k):
        if has_sym(y):
            m = middle(t, close)
            y = m[np.triu_indices(len(m), 1)]
        return sch.linkage(y, *a, **k)

    return {
        scd: _Mod(scd, {"squareform": squareform}, wrap=False),
        sch: _Mod(sch, {"linkage": linkage}, wrap=False),
    }


def together(labels, n):
    return [[int(labels[i] == labels[j]) for j in range(n)] for i in range(n)]


def same(groups, n):
    return [[int(any(i in g and j in g for g in groups)) for j in range(n)] for i in range(n)]


def best(S, d, t):
    """The first number of clusters with the largest second difference."""
    n = len(leaves(t))
    if n < 3:
        return n
    parts = partitions(t)
    top = min(n, max(8, round(n**0.5)))
    w = {k: dispersion(S, d, parts[k]) for k in range(1, top + 1)}
    gaps = {k: w[k - 1] - 2 * w[k] + w[k + 1] for k in range(2, top)}
    return gaps


def claims(S, model, d, tree):
    t = TREES[tree]
    n = len(leaves(t))
    parts = partitions(t)
    k = int(model.n_clusters_)
    labels = [int(x) for x in model.labels_]
    S.true("labels count the clusters", sorted(set(labels)) == list(range(k)))
    S.true("the clusters are the parts of the tree", together(labels, n) == same(parts[k], n))
    S.eq("condensed distance", list(model.condensed_distance_), [d[i][j] for i in range(n) for j in range(i + 1, n)])
    return k


def register(tree, method=None, tiers=("quick", "thorough"), close=False):
    t = TREES[tree]
    name = f"default number, {tree}" + (f", {method.value}" if method else "") + (", close" if close else "")

    @case("C24", name, tiers=tiers, points=3, extra=lambda: shape(tree, close), max_paths=200)
    def _(S):
        d = symbols(S, t, close)
        m = HierarchicalClustering(**({"linkage_method": method} if method else {}))
        m = m.fit(S.array(d))
        k = claims(S, m, d, tree)
        gaps = best(S, d, t)
        if isinstance(gaps, int):
            S.true("number of clusters", k == gaps)
            return
        S.true("number within the limit", k in gaps)
        for j in gaps:
            if j != k:
                S.le(f"bends more than at {j}", gaps[j], gaps[k] + TOL)


TOL = 1e-9
for _t in TREES:
    register(_t, tiers=("thorough",) if _t == "7" else ("quick", "thorough"))
for _m in LinkageMethod:
    if _m != LinkageMethod.WARD:
        register("5", _m)
for _m in (LinkageMethod.SINGLE, LinkageMethod.COMPLETE, LinkageMethod.AVERAGE, LinkageMethod.WEIGHTED):
    for _t in ("4 chain", "4 pairs", "5", "6", "6 pairs") if _m == LinkageMethod.AVERAGE else ("4 pairs", "5"):
        register(_t, _m, close=True)
register("10 chain", LinkageMethod.COMPLETE, close=True)
register("7", LinkageMethod.AVERAGE, tiers=("thorough",), close=True)


for _tree, _k in (("3", 1), ("4 pairs", 2), ("5", 3), ("5", 5), ("6", 4), ("6 pairs", 9)):

    @case("C24", f"given number, {_tree}, {_k}", points=3, extra=lambda _t=_tree: shape(_t))
    def _(S, tree=_tree, k=_k):
        t = TREES[tree]
        d = symbols(S, t)
        m = HierarchicalClustering(max_clusters=k).fit(S.array(d))
        got = claims(S, m, d, tree)
        S.true("number of clusters", got == min(k, len(leaves(t))))


@case("C24", "refused matrices", points=4, extra=lambda: shape("3"))
def _(S):
    t = TREES["3"]
    d = symbols(S, t)
    d[0][1] = d[1][0] + S.real("asymmetry", S.frac(1, 2), 1)
    _, e = S.attempt(lambda: HierarchicalClustering().fit(S.array(d)))
    S.true("an asymmetric matrix is refused", e == "ValueError")
    d = symbols(S, t)
    d[1][1] = S.real("diagonal", S.frac(1, 2), 1)
    _, e = S.attempt(lambda: HierarchicalClustering().fit(S.array(d)))
    S.true("a positive diagonal is refused", e == "ValueError")
    _, e = S.attempt(lambda: HierarchicalClustering().fit(S.array(symbols(S, t)[:2])))
    S.true("a matrix that is not square is refused", e is not None)
