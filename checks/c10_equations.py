"""C10: linear constraint expressions mean what they say."""

import itertools
import warnings

import numpy as np
import z3
from skfolio.utils.equations import equations_to_matrix, group_cardinalities_to_matrix

from checks.common import REAL
from symx import core
from symx.harness import case

META = {
    "bounds": "every expression with up to 2 terms on each side (3+1 and 1+3 in thorough) where each term is a number, a group, number*group or group*number with any sign, any of the 4 comparison operators, tight or spaced layout; 4 assets in 3 group levels; numbers are arbitrary non-negative reals; all malformed token sequences of up to 5 tokens from a 7 token alphabet",
    "outside": "longer expressions (terms are processed one after the other), other alphabets of group names",
    "assumptions": [REAL, "numeric literals are replaced by opaque tokens that the number parser maps to arbitrary reals (in the replay by decimal literals)"],
}

GROUPS = [["A", "B", "C", "D"], ["eq", "eq", "bond", "bond"], ["us", "eu", "us", "jp"]]
NAMES = ["B", "eq", "us", "jp"]
MEMBERS = {g: [i for i in range(4) if any(row[i] == g for row in GROUPS)] for g in ["A", "B", "C", "D", "eq", "bond", "us", "eu", "jp"]}
TOK = {f"{7001 + k}": core.SymReal(z3.Real(f"k_{k}")) for k in range(6)}


class Expr:
    """Builds the text of an expression together with its value on a weight vector."""

    def __init__(self, S):
        self.S = S
        self.k = 0
        self.w = S.reals("w", 4, -2, 2)

    def number(self):
        S = self.S
        v = S.real(f"k_{self.k}", 0, 16)
        txt = f"{7001 + self.k}" if S.symbolic else f"{v:.12f}"
        self.k += 1
        return txt, v

    def group(self, i, sum_to_one):
        g = NAMES[i]
        m = MEMBERS[g]
        s = self.S.sum(self.w[j] for j in m)
        return g, (s * self.S.frac(1, len(m)) if sum_to_one else s)

    def term(self, kind, gi, one):
        if kind == 0:
            return self.number()
        if kind == 1:
            return self.group(gi, one)
        (n, nv), (g, gv) = self.number(), self.group(gi, one)
        return (f"{n}{{s}}*{{s}}{g}" if kind == 2 else f"{g}{{s}}*{{s}}{n}"), nv * gv

    def side(self, kinds, signs, gi, one):
        txt, val = "", 0
        for j, (k, sg) in enumerate(zip(kinds, signs)):
            t, v = self.term(k, (gi + j) % 4, one)
            txt += ("" if j == 0 and sg > 0 else "{s}" + ("+" if sg > 0 else "-") + "{s}") + t
            val = val + sg * v
        return txt, val


def dot(S, row, w):
    return S.sum(row[i] * w[i] for i in range(4))


def meaning(S, mats, op, L, R, w, tag=""):
    """The matrices describe the same set of weights as the text."""
    ae, be, ai, bi = mats
    if op in ("==", "="):
        S.true(f"{tag}one equality", len(ae) == 1 and len(be) == 1 and len(ai) == 0 and len(bi) == 0)
        if len(ae) == 1:
            S.eq(f"{tag}same solutions", dot(S, ae[0], w) == be[0], L == R)
    else:
        S.true(f"{tag}one inequality", len(ai) == 1 and len(bi) == 1 and len(ae) == 0 and len(be) == 0)
        if len(ai) == 1:
            S.eq(f"{tag}same solutions", dot(S, ai[0], w) <= bi[0], (L <= R) if op == "<=" else (L >= R))


def conv(groups, eqs, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return equations_to_matrix(groups=np.array(groups), equations=np.array(eqs), **k)


def register(nl, nr, tiers, one):
    for kl in itertools.product(range(4), repeat=nl):

        @case("C10", f"{nl}+{nr} terms, left {''.join(map(str, kl))}{' averaged' if one else ''}", tiers=tiers, tokens=TOK, max_paths=20000, time_limit=500, nowitness=True)
        def _(S, kl=kl):
            op = (">=", "<=", "==", "=")[int(S.int("op", 0, 3))]
            sp = " " if bool(S.bool("spaced")) else ""
            signs = [1 if bool(S.bool(f"pos{j}")) else -1 for j in range(nl + nr)]
            kr = [int(S.int(f"kind{j}", 0, 3)) for j in range(nr)]
            E = Expr(S)
            lt, L = E.side(kl, signs[:nl], 0, one)
            rt, R = E.side(kr, signs[nl:], 1, one)
            text = (lt + "{s}" + op + "{s}" + rt).format(s=sp)
            meaning(S, conv(GROUPS, [text], sum_to_one=one), op, L, R, E.w)


register(1, 1, ("quick", "thorough"), False)
register(2, 1, ("quick", "thorough"), False)
register(1, 2, ("quick", "thorough"), False)
register(1, 1, ("quick", "thorough"), True)
register(2, 2, ("thorough",), False)
register(3, 1, ("thorough",), False)
register(2, 1, ("thorough",), True)


@case("C10", "several expressions keep their order", tokens=TOK, max_paths=200)
def _(S):
    E = Expr(S)
    w = E.w
    spec = []
    txt = []
    for op, gi in (("<=", 0), ("==", 1), (">=", 2), ("=", 3), ("<=", 1)):
        n, v = E.number()
        g, gv = E.group(gi, False)
        txt.append(f"{g} {op} {n}")
        spec.append((op, gv, v))
    ae, be, ai, bi = conv(GROUPS, txt)
    S.true("counts", len(ae) == 2 and len(ai) == 3)
    ei = ii = 0
    for k, (op, L, R) in enumerate(spec):
        if op in ("==", "="):
            S.eq(f"{k}", dot(S, ae[ei], w) == be[ei], L == R)
            ei += 1
        else:
            S.eq(f"{k}", dot(S, ai[ii], w) <= bi[ii], (L <= R) if op == "<=" else (L >= R))
            ii += 1


for raise_missing in (False, True):

    @case("C10", f"unknown group raise={raise_missing}", tokens=TOK, max_paths=200)
    def _(S, raise_missing=raise_missing):
        E = Expr(S)
        n, v = E.number()
        txt = [f"eq <= {n}", f"nope >= {n}", f"{n} * eq == nope", f"us == {n}"]
        r, e = S.attempt(lambda: conv(GROUPS, txt, raise_if_group_missing=raise_missing))
        if raise_missing:
            S.true("refused", e == "GroupNotFoundError")
        else:
            S.true("skipped with a warning", e is None and len(r[0]) == 1 and len(r[2]) == 1)
            S.eq("the others remain", dot(S, r[2][0], E.w) <= r[3][0], E.w[0] + E.w[1] <= v)
            S.eq("the others remain (equality)", dot(S, r[0][0], E.w) == r[1][0], E.w[0] + E.w[2] == v)


ALPHA = ["eq", "us", "N", "*", "+", "<=", "=="]


def grammar(seq):
    """Is this token sequence `side op side`, a side being a signed sum of terms?"""
    cmp_ = [i for i, t in enumerate(seq) if t in ("<=", "==")]
    if len(cmp_) != 1:
        return False

    def side(ts):
        if not ts:
            return False
        i = 0
        if ts[0] == "+":
            i = 1
        while True:
            if i >= len(ts) or ts[i] in ("*", "+"):
                return False
            if i + 2 < len(ts) and ts[i + 1] == "*":
                a, b = ts[i], ts[i + 2]
                if b in ("*", "+") or (a == "N") == (b == "N"):
                    return False
                i += 3
            else:
                i += 1
            if i == len(ts):
                return True
            if ts[i] != "+":
                return False
            i += 1

    return side(seq[: cmp_[0]]) and side(seq[cmp_[0] + 1 :])


for length, tiers in ((2, 0), (3, 0), (4, 0), (5, 0), (6, 1)):
    for first in range(len(ALPHA)):

        @case("C10", f"malformed sequences of {length} tokens starting with {ALPHA[first]}", tokens=TOK, max_paths=20000, time_limit=800,
              tiers=("thorough",) if tiers else ("quick", "thorough"), nowitness=True)
        def _(S, length=length, first=first):
            # adjacent operands without operator are joined by a space
            seq = [ALPHA[first]] + [ALPHA[int(S.int(f"t{i}", 0, len(ALPHA) - 1))] for i in range(1, length)]
            k = S.real("k_0", 0, 16)
            num = "7001" if S.symbolic else f"{k:.12f}"
            text = " ".join(num if t == "N" else t for t in seq)
            r, e = S.attempt(lambda: conv(GROUPS, [text], raise_if_group_missing=True))
            if grammar(seq):
                S.true("accepted when well formed", e is None)
            else:
                S.true("refused with a library error when malformed", e in ("EquationToMatrixError", "GroupNotFoundError"))


@case("C10", "group names in two levels are refused")
def _(S):
    k = S.real("k_0", 0, 1)
    r, e = S.attempt(lambda: conv([["A", "B"], ["eq", "A"]], ["A <= 1"]))
    S.true("refused", e == "DuplicateGroupsError")


for text, spec in {
    "1e-3 * eq <= 2.5e+1": lambda S, w: (S.frac(1, 1000) * (w[0] + w[1]), 25),
    "eq*1E-2 >= 5e-05 + us": lambda S, w: (5 * S.frac(1, 100000) + w[0] + w[2], S.frac(1, 100) * (w[0] + w[1])),
    ".5e-1 <= eq - 2.e-1*us": lambda S, w: (S.frac(1, 20), w[0] + w[1] - S.frac(1, 5) * (w[0] + w[2])),
}.items():

    @case("C10", f"scientific notation {text}")
    def _(S, text=text, spec=spec):
        w = S.reals("w", 4, -2, 2)
        _, _, a, b = conv(GROUPS, [text], raise_if_group_missing=True)
        L, R = spec(S, w)
        S.eq("same solutions", dot(S, a[0], w) <= b[0], L <= R)


for raise_missing in (False, True):

    @case("C10", f"group cardinalities raise={raise_missing}")
    def _(S, raise_missing=raise_missing):
        z = S.reals("z", 4, 0, 1)
        c = S.ints("c", 3, 0, 9)
        card = {"eq": c[0], "us": c[1], "jp": c[2]}

        def run(d):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return group_cardinalities_to_matrix(np.array(GROUPS), d, raise_if_group_missing=raise_missing)

        a, b = run(card)
        S.true("one row each", len(a) == 3 and len(b) == 3)
        for r, g in enumerate(card):
            S.eq(f"{g}", dot(S, a[r], z) <= b[r], S.sum(z[i] for i in MEMBERS[g]) <= card[g])
        r, e = S.attempt(lambda: run({**card, "nope": c[0]}))
        if raise_missing:
            S.true("missing group refused", e == "EquationToMatrixError")
        else:
            S.true("missing group skipped with a warning", e is None and len(r[0]) == 3)
