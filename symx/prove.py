"""Discharging proof obligations."""

import time

import z3

from symx import core


class QStats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by_simplify = 0


def _tactic(ms):
    t = z3.Then(
        z3.With("simplify", som=False),
        "propagate-values",
        "solve-eqs",
        "purify-arith",
        "elim-term-ite",
        "solve-eqs",
        "tseitin-cnf",
        "nlsat",
    )
    s = t.solver()
    s.set("timeout", ms)
    return s


def _solve(mk, fs, ms, st):
    t = time.time()
    try:
        s = mk(ms)
        s.add(*fs)
        r = s.check()
        m = s.model() if r == z3.sat else None
    except z3.Z3Exception:
        r, m = z3.unknown, None
    st.queries += 1
    st.solver_s += time.time() - t
    return r, m


def _plain(ms):
    s = z3.Solver()
    s.set("timeout", ms)
    return s


def _nra(ms):
    s = z3.SolverFor("QF_NRA")
    s.set("timeout", ms)
    return s


def _has_ite_or_uf(fs):
    seen = set()
    stack = list(fs)
    uf = ints = False
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                uf = True
            if z3.is_int(e) and not z3.is_int_value(e):
                ints = True
            stack.extend(e.children())
    return uf, ints


def solve(fs, st, budget_ms=20000):
    """sat/unsat/unknown of the conjunction `fs` (portfolio)."""
    fs = [f for f in fs]
    uf, ints = _has_ite_or_uf(fs)
    plans = [(_plain, min(3000, budget_ms))]
    if any(_quantified(f) for f in fs):
        plans += [(_qsat, budget_ms)]
    elif not uf and not ints:
        plans += [(_tactic, budget_ms // 2), (_nra, budget_ms // 2)]
    plans += [(_plain, budget_ms)]
    for mk, ms in plans:
        r, m = _solve(mk, fs, ms, st)
        if r != z3.unknown:
            return r, m
    return z3.unknown, None


def _qsat(ms):
    s = z3.Then("simplify", "qsat").solver()
    s.set("timeout", ms)
    return s


def _quantified(f):
    seen, stack = set(), [f]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        stack.extend(e.children())
    return False


def linearized(fs, st, ms=1000):
    """True when `fs` is already contradictory with every product read as an unknown."""
    fresh = {}

    def mono(x):
        if not z3.is_app(x) or not z3.is_mul(x):
            return x
        num = [c for c in x.children() if z3.is_rational_value(c)]
        rest = sorted((c for c in x.children() if not z3.is_rational_value(c)), key=lambda c: c.get_id())
        if len(rest) < 2:
            return x
        key = tuple(c.get_id() for c in rest)
        if key not in fresh:
            fresh[key] = (z3.Real(f"mono!{len(fresh)}"), rest)
        v = fresh[key][0]
        return z3.Product([*num, v]) if num else v

    memo = {}
    gs = []
    for f in fs:
        if _quantified(f):
            continue
        f = z3.simplify(f, som=True, flat=True, mul_to_power=False)
        gs.append(_children_first(f, memo, mono))
    return _solve(_plain, gs, ms, st)[0] == z3.unsat


def abstracted(fs, st, ms=5000):
    """True when `fs` is already contradictory with every function value read as an unknown."""
    g = z3.Goal()
    g.add(*fs)
    if any(_quantified(f) for f in fs):
        gs = [z3.simplify(f) for f in fs]
    else:
        gs = [z3.simplify(f, som=True) for f in z3.Then("simplify", "solve-eqs")(g)[0]]
    apps, seen, stack = [], set(), list(gs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not _has_var(x):
                apps.append(x)
            else:
                stack.extend(x.children())
    if not apps:
        return False
    sub = [(a, z3.Real(f"app!{i}")) for i, a in enumerate(apps)]
    gs = [z3.substitute(f, *sub) for f in gs]
    mks = (_qsat,) if any(_quantified(f) for f in gs) else (_plain, _nra)
    return any(_solve(mk, gs, ms, st)[0] == z3.unsat for mk in mks)


def _has_var(x):
    stack = [x]
    while stack:
        y = stack.pop()
        if z3.is_var(y):
            return True
        stack.extend(y.children())
    return False


def poly_zero(t):
    """Is the term identically zero (polynomial normal form)?"""
    s = z3.simplify(t, som=True, blast_distinct=True)
    return z3.is_rational_value(s) and s.numerator_as_long() == 0


class Claim:
    """An obligation: `kind` in eq/le/true between a and b under path condition pc."""

    def __init__(self, label, kind, a, b, pc, notes=()):
        self.label, self.kind, self.a, self.b, self.pc = label, kind, a, b, pc
        self.notes = notes

    def formula(self):
        """z3 Bool of the claim."""
        if self.kind == "true":
            return core.bt(self.a)
        a, b = core.lift(self.a), core.lift(self.b)
        if self.kind == "eq":
            return core.bt(a == b)
        return _le(a, b)

    def violation(self, eps):
        """z3 Bool: claim violated by more than eps (absolute)."""
        if self.kind == "true":
            return z3.Not(core.bt(self.a))
        a, b = core.lift(self.a), core.lift(self.b)
        e = z3.RealVal(core.to_fraction(eps))
        da, db = _dterm(a), _dterm(b)
        # a.n/a.d - b.n/b.d  multiplied out; use division only for the margin query
        diff = (a.n if da is None else a.n / da) - (b.n if db is None else b.n / db)
        if self.kind == "eq":
            return z3.Or(diff >= e, diff <= -e)
        return diff >= e

    def trivially(self):
        if self.kind == "eq":
            a, b = core.lift(self.a), core.lift(self.b)
            ad = a.d if a.d is not None else core._ONE
            bd = b.d if b.d is not None else core._ONE
            if a.d is not None and b.d is not None and a.d.eq(b.d):
                return poly_zero(a.n - b.n)
            return poly_zero(a.n * bd - b.n * ad)
        f = z3.simplify(self.formula())
        return z3.is_true(f)


def _dterm(a):
    return a.d


def _le(a, b):
    if a.d is None and b.d is None:
        return a.n <= b.n
    ad = a.d if a.d is not None else core._ONE
    bd = b.d if b.d is not None else core._ONE
    n = a.n * bd - b.n * ad
    d = ad * bd
    return z3.Or(z3.And(d > 0, n <= 0), z3.And(d < 0, n >= 0))


# --------------------------------------------------------------------------- case splitting
_CMP = {z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ}


def _children_first(e, memo, f):
    """Bottom-up rewrite with memo."""
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        i = x.get_id()
        if i in memo:
            continue
        if not z3.is_app(x) or x.num_args() == 0:
            memo[i] = (f(x), x)
            continue
        if not done:
            stack.append((x, True))
            stack.extend((ch, False) for ch in x.children() if ch.get_id() not in memo)
            continue
        ch = [memo[k.get_id()][0] for k in x.children()]
        if any(not a.eq(b) for a, b in zip(ch, x.children())):
            y = _rebuild(x, ch)
        else:
            y = x
        memo[i] = (f(y), x)
    return memo[e.get_id()][0]


def _rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    return x.decl()(*ch)


def _lead(p):
    """Leading rational coefficient of a polynomial in sum-of-monomials form."""
    t = p
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD:
        for a in t.children():
            if not z3.is_rational_value(a):
                t = a
                break
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(t.arg(0)):
        return core._val(t.arg(0))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        return -1
    return 1


def canon_atom(x):
    if not z3.is_app(x):
        return x
    k = x.decl().kind()
    if k not in _CMP or x.num_args() != 2 or not z3.is_real(x.arg(0)):
        return x
    a, b = x.children()
    if _contains_ite(a) or _contains_ite(b):
        return x
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = b, a
        k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
    p = z3.simplify(a - b, som=True)
    if z3.is_rational_value(p):
        v = core._val(p)
        return z3.BoolVal(v == 0 if k == z3.Z3_OP_EQ else v <= 0 if k == z3.Z3_OP_LE else v < 0)
    ld = core.Fraction(_lead(p))
    q = z3.simplify(p * z3.RealVal(1 / abs(ld)), som=True) if abs(ld) != 1 else p
    if k == z3.Z3_OP_EQ:
        if ld < 0:
            q = z3.simplify(-q, som=True)
        return q == 0
    if ld > 0:
        return q <= 0 if k == z3.Z3_OP_LE else z3.Not(z3.simplify(-q, som=True) <= 0)
    # express everything through  (positive lead) <= 0  or its strict twin
    nq = z3.simplify(-q, som=True)  # positive lead; claim is -nq <= 0
    return z3.Not(nq < 0) if k == z3.Z3_OP_LE else z3.Not(nq <= 0)


_ITE = {}


def _contains_ite(e):
    i = e.get_id()
    r = _ITE.get(i)
    if r is not None:
        return r[0]
    v = False
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_ITE:
            v = True
        else:
            v = any(_contains_ite(ch) for ch in e.children())
    _ITE[i] = (v, e)
    return v


def canon(e):
    # strict atoms with positive lead: Not(-q <= 0)  ->  q < 0 keeps atoms few
    return _children_first(e, {}, canon_atom)


def _pick(e):
    """An ite condition without nested ite (first found), or None."""
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not _contains_ite(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            cnd = x.arg(0)
            if not _contains_ite(cnd):
                while z3.is_not(cnd):
                    cnd = cnd.arg(0)
                if z3.is_and(cnd) or z3.is_or(cnd):
                    a = cnd.arg(0)
                    while z3.is_not(a):
                        a = a.arg(0)
                    return a
                return cnd
            stack.append(cnd)
            continue
        stack.extend(x.children())
    return None


def split(cl, st, budget_ms, max_leaves=3000):
    """Decide a claim by splitting on the conditions of its if-then-else terms."""
    t0 = time.time()
    if cl.kind == "true":
        goal = cl.formula()
        num = None
    else:
        a, b = core.lift(cl.a), core.lift(cl.b)
        ad = a.d if a.d is not None else core._ONE
        bd = b.d if b.d is not None else core._ONE
        if a.d is not None and b.d is not None and a.d.eq(b.d) and cl.kind == "eq":
            num = a.n - b.n
        else:
            num = a.n * bd - b.n * ad
        goal = cl.formula() if cl.kind == "le" else None
    pc = [canon(f) for f in cl.pc]
    start = canon(num if goal is None else goal)
    if not _contains_ite(start):
        return z3.unknown, None
    lin = z3.Solver()
    lin.set("timeout", 1000)
    lin.add(*pc)
    work = [(start, [])]
    leaves = 0
    deadline = t0 + budget_ms / 1000
    while work:
        if time.time() > deadline or leaves > max_leaves:
            return z3.unknown, None
        e, lits = work.pop()
        cnd = _pick(e)
        if cnd is not None:
            for v in (True, False):
                lit = cnd if v else z3.Not(cnd)
                t = time.time()
                r = lin.check(*lits, lit)
                st.queries += 1
                st.solver_s += time.time() - t
                if r == z3.unsat:
                    continue
                e2 = z3.simplify(z3.substitute(e, (cnd, z3.BoolVal(v))))
                work.append((canon(e2) if _contains_ite(e2) else e2, lits + [lit]))
            continue
        leaves += 1
        if goal is None:
            if poly_zero(e):
                continue
            neg = e != 0
        else:
            s = z3.simplify(e)
            if z3.is_true(s):
                continue
            neg = z3.Not(s)
        r, m = solve(pc + lits + [neg], st, max(1000, min(budget_ms, 5000)))
        if r == z3.unsat:
            continue
        return r, m
    return z3.unsat, None
