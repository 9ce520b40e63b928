"""Cases, the proof driver and the concrete replay."""

import hashlib
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from symx import arr, core, patch, prove
from symx.arr import SymArray
from symx.core import SymBool, SymInt, SymReal

CASES = {}


class Case:
    def __init__(self, prop, name, fn, tiers, opts):
        self.prop, self.name, self.fn, self.tiers, self.opts = prop, name, fn, tiers, opts


def case(prop, name, tiers=("quick", "thorough"), **opts):
    """Register a harness.  opts: max_paths, div, budget_ms, time_limit, tol, sort, extra."""

    def deco(fn):
        CASES.setdefault(prop, []).append(Case(prop, name, fn, tiers, opts))
        return fn

    return deco


class ReplayInvalid(Exception):
    """The concrete values do not satisfy the harness' assumptions."""


# --------------------------------------------------------------------------- sessions
class Base:
    symbolic = False
    kind = "base"

    # arithmetic helpers usable in specifications, symbolic or concrete
    def sum(self, xs):
        xs = list(xs)
        if not xs:
            return 0
        s = xs[0]
        for x in xs[1:]:
            s = s + x
        return s

    def sqrt(self, x):
        return core.sqrt(x) if self.symbolic else math.sqrt(max(x, 0.0)) if x > -1e-12 else float("nan")

    def exp(self, x):
        return arr._exp(x) if self.symbolic else math.exp(x)

    def log(self, x):
        return arr._log(x) if self.symbolic else math.log(x)

    def max(self, *xs):
        xs = list(xs[0]) if len(xs) == 1 else list(xs)
        m = xs[0]
        for x in xs[1:]:
            m = core.smax(m, x)
        return m

    def min(self, *xs):
        xs = list(xs[0]) if len(xs) == 1 else list(xs)
        m = xs[0]
        for x in xs[1:]:
            m = core.smin(m, x)
        return m

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def frac(self, a, b=1):
        """The rational a/b (exact symbolically, float concretely)."""
        return Fraction(a, b) if self.symbolic else a / b

    def array(self, x):
        if not self.symbolic:
            return np.array(_fl(x), dtype=float)
        a = SymArray(x)
        for i, e in np.ndenumerate(a.view(np.ndarray)):
            if isinstance(e, Fraction):  # Fraction op float would be a rounded float
                a.view(np.ndarray)[i] = core.lift(e)
        return a

    def frame(self, X, columns=None, index=None):
        """pandas DataFrame of a matrix."""
        import pandas as pd

        return pd.DataFrame(arr.strip(X), columns=columns, index=index)

    def all(self, xs):
        return core.band(True, *xs)

    def any(self, xs):
        return core.bor(False, *xs)

    def note(self, text):
        pass


def _fl(x):
    if isinstance(x, (list, tuple)):
        return [_fl(i) for i in x]
    return float(x) if not isinstance(x, np.ndarray) else x.astype(float)


class SymSession(Base):
    symbolic = True

    def __init__(self):
        self.base = []
        self.vars = {}
        self.claims = []
        self.decl = {}

    def _var(self, name, kind, lo, hi):
        if kind == "real":
            t = z3.Real(name)
            s = SymReal(t)
        elif kind == "int":
            t = z3.Int(name)
            s = SymInt(t)
        else:
            t = z3.Bool(name)
            s = SymBool(t)
        self.vars[name] = t
        self.decl[name] = (kind, lo, hi)
        c = core.ctx()
        if lo is not None:
            c.add(t >= (core.rv(lo) if kind == "real" else int(lo)))
        if hi is not None:
            c.add(t <= (core.rv(hi) if kind == "real" else int(hi)))
        return s

    def real(self, name, lo=None, hi=None):
        return self._var(name, "real", lo, hi)

    def int(self, name, lo=None, hi=None):
        return self._var(name, "int", lo, hi)

    def bool(self, name):
        return self._var(name, "bool", None, None)

    def reals(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + "_" + "_".join(map(str, i)), lo, hi)
        return out.view(SymArray)

    def ints(self, name, n, lo=None, hi=None):
        return [self.int(f"{name}_{i}", lo, hi) for i in range(n)]

    def assume(self, cond):
        c = core.ctx()
        if isinstance(cond, np.ndarray):
            cond = core.band(True, *list(arr.base(cond).reshape(-1)))
        if cond is True or cond is np.True_:
            return
        if cond is False or cond is np.False_:
            raise core.PathStop()
        t = core.bt(cond)
        if not c.feasible(t):
            raise core.PathStop()
        c.add(t)

    def _claim(self, label, kind, a, b=None):
        c = core.ctx()
        self.claims.append(prove.Claim(label, kind, a, b, list(c.pc), sorted(c.notes)))

    def eq(self, label, a, b):
        a, b = arr.strip(a), arr.strip(b)
        if isinstance(a, (list, tuple)):
            a = arr._obj(a)
        if isinstance(b, (list, tuple)):
            b = arr._obj(b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = arr._obj(a), arr._obj(b)
            if a.shape != b.shape:
                self._claim(label + " (shape)", "true", False)
                return
            for i in np.ndindex(*a.shape):
                self.eq(f"{label}[{','.join(map(str, i))}]" if i else label, a[i], b[i])
            return
        if isinstance(a, (bool, SymBool, np.bool_)) or isinstance(b, (bool, SymBool, np.bool_)):
            self._claim(label, "true", SymBool(core.bt(a) == core.bt(b)))
            return
        if not core._numlike(a) or not core._numlike(b):
            self._claim(label, "true", bool(a == b))
            return
        for v, o in ((a, b), (b, a)):
            if isinstance(v, float) and not math.isfinite(v):
                same = not core.is_sym(o) and (v == o or (math.isnan(v) and math.isnan(o)))
                self._claim(label, "true", same)
                return
        self._claim(label, "eq", a, b)

    def le(self, label, a, b):
        a, b = arr.strip(a), arr.strip(b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.broadcast_arrays(arr._obj(a), arr._obj(b))
            for i in np.ndindex(*a.shape):
                self.le(f"{label}[{','.join(map(str, i))}]", a[i], b[i])
            return
        for v, o, s in ((a, b, -1), (b, a, 1)):
            if isinstance(v, float) and math.isinf(v):
                self._claim(label, "true", (v > 0) == (s > 0))
                return
        self._claim(label, "le", a, b)

    def true(self, label, cond):
        if isinstance(cond, np.ndarray):
            cond = core.band(True, *list(arr.base(cond).reshape(-1)))
        self._claim(label, "true", cond)

    def attempt(self, fn):
        """(result, exception name)."""
        try:
            return fn(), None
        except Exception as e:  # noqa: BLE001
            if _is_engine_error(e):
                raise
            return None, type(e).__name__


def _is_engine_error(e):
    """Exceptions caused by numeric C code refusing symbolic objects."""
    s = str(e)
    return any(
        k in s for k in ("SymReal", "SymArray", "SymBool", "SymInt", "dtype('O')", "object arrays")
    )


class ConcSession(Base):
    """Replays a harness on concrete floats with the untouched code."""

    symbolic = False

    def __init__(self, values, tol=1e-6, rng=None, force_pc=None):
        self.values = values
        self.tol = tol
        self.failed = []
        self.passed = []
        self.lhs = {}
        self.rng = rng

    def _get(self, name, kind, lo, hi):
        if name not in self.values:
            if self.rng is None:
                v = 0 if kind != "real" else 0.0
                if lo is not None:
                    v = max(v, lo)
                if hi is not None:
                    v = min(v, hi)
            else:
                v = _rand(self.rng, kind, lo, hi)
            self.values[name] = v
        v = self.values[name]
        if kind != "bool" and self.rng is None:
            # variables met after the claim are unconstrained in its counterexample
            f = Fraction(v) if isinstance(v, str) else v
            if lo is not None and f < lo or hi is not None and f > hi:
                v = lo if lo is not None and f < lo else hi
                self.values[name] = str(v) if isinstance(v, Fraction) else v
        if kind == "real":
            return float(Fraction(v)) if isinstance(v, (str, Fraction)) else float(v)
        if kind == "int":
            return int(v)
        return bool(v)

    def real(self, name, lo=None, hi=None):
        return self._get(name, "real", lo, hi)

    def int(self, name, lo=None, hi=None):
        return self._get(name, "int", lo, hi)

    def bool(self, name):
        return self._get(name, "bool", None, None)

    def reals(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=float)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + "_" + "_".join(map(str, i)), lo, hi)
        return out

    def ints(self, name, n, lo=None, hi=None):
        return [self.int(f"{name}_{i}", lo, hi) for i in range(n)]

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise ReplayInvalid("assumption not met by the concrete values")

    def _rec(self, label, ok, lhs=None, rhs=None):
        self.lhs[label] = lhs
        (self.passed if ok else self.failed).append(
            {"claim": label, "observed": _js(lhs), "expected": _js(rhs)}
        )

    def eq(self, label, a, b):
        if isinstance(a, (list, tuple)):
            a = np.asarray(a)
        if isinstance(b, (list, tuple)):
            b = np.asarray(b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                self._rec(label + " (shape)", False, str(a.shape), str(b.shape))
                return
            for i in np.ndindex(*a.shape):
                self.eq(f"{label}[{','.join(map(str, i))}]" if i else label, a[i], b[i])
            return
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            self._rec(label, bool(a) == bool(b), bool(a), bool(b))
            return
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            self._rec(label, bool(a == b), str(a), str(b))
            return
        if math.isnan(a) or math.isnan(b):
            ok = math.isnan(a) and math.isnan(b)
        elif math.isinf(a) or math.isinf(b):
            ok = a == b
        else:
            ok = abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))
        self._rec(label, ok, a, b)

    def le(self, label, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
            for i in np.ndindex(*a.shape):
                self.le(f"{label}[{','.join(map(str, i))}]", a[i], b[i])
            return
        a, b = float(a), float(b)
        ok = a <= b + self.tol * max(1.0, abs(b) if math.isfinite(b) else 1.0)
        self._rec(label, ok, a, b)

    def true(self, label, cond):
        ok = bool(np.all(cond))
        self._rec(label, ok, ok, True)

    def attempt(self, fn):
        try:
            return fn(), None
        except Exception as e:  # noqa: BLE001
            return None, type(e).__name__


def _js(v):
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return str(v)


def _rand(rng, kind, lo, hi):
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "int":
        return rng.randint(int(lo if lo is not None else -5), int(hi if hi is not None else 5))
    a = float(lo) if lo is not None else -2.0
    b = float(hi) if hi is not None else (a + 3.0 if lo is not None else 2.0)
    if lo is None and hi is not None:
        a = b - 3.0
    a, b = max(a, -1000.0), min(b, 1000.0)
    if b - a > 8:
        b = a + 8 if lo is not None else b
    k = 64
    return str(Fraction(rng.randint(math.ceil(a * k), math.floor(b * k)), k))


def val_to_py(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return str(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    raise ValueError(f"no value for {v}")


def model_values(m, vars_):
    return {n: val_to_py(m.eval(t, model_completion=True)) for n, t in vars_.items()}


# --------------------------------------------------------------------------- replay
def replay(cs, values, exc=None):
    """Run the harness on the real, unpatched code.  Returns (confirmed, details).
    `exc`: exception seen symbolically; when the specification itself meets it again on
    the real result, that result does not have the documented form."""
    S = ConcSession(dict(values), tol=cs.opts.get("tol", 1e-6))
    err = None
    try:
        with np.errstate(all="ignore"):
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                cs.fn(S)
    except ReplayInvalid as e:
        return False, {"invalid": str(e)}
    except Exception as e:  # noqa: BLE001
        err = f"{type(e).__name__}: {e}"
        tb = traceback.extract_tb(sys.exc_info()[2])
        in_code = any("/src/skfolio/" in f.filename for f in tb)
        if in_code or type(e).__name__ == exc:
            return True, {"exception": err, "values": S.values}
        return False, {"harness_exception": err, "tb": traceback.format_exc()[-1500:]}
    return bool(S.failed), {"failed": S.failed, "values": S.values}


# --------------------------------------------------------------------------- driver
class Monitor:
    """Names of the functions of /repo/src executed (i.e. encoded)."""

    TOOL = 4

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "symx")
        except ValueError:
            return self

        def start(code, off):
            if "/src/skfolio/" in code.co_filename:
                self.seen.add(
                    code.co_filename.split("/src/")[-1] + ":" + code.co_qualname
                )
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.PY_START, start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        self.on = True
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        if getattr(self, "on", False):
            mon.set_events(self.TOOL, 0)
            mon.free_tool_id(self.TOOL)
            mon.restart_events()
        return False


def _nice(vars_, decl):
    """Magnitude constraints for well-conditioned counterexamples."""
    out = []
    for n, t in vars_.items():
        k, lo, hi = decl[n]
        if k == "real":
            if lo is None:
                out.append(t >= -8)
            if hi is None:
                out.append(t <= 8)
    return out


def run_case(cs, seed=1):
    """Explore and decide one harness.  Returns a result dict."""
    t0 = time.time()
    opts = cs.opts
    res = {
        "case": cs.name,
        "status": "ok",
        "obligations": 0,
        "discharged": 0,
        "trivial": 0,
        "paths": 0,
        "inconclusive": [],
        "violations": [],
        "errors": [],
        "notes": set(),
        "validated": 0,
        "witness": False,
        "samples": [],
    }
    st = prove.QStats()
    budget = opts.get("budget_ms", 20000)
    arr.SORT_MODE[0] = opts.get("sort", "fork")
    core.FORK_MAX[0] = bool(opts.get("fork_max"))
    rng = random.Random(seed * 7919 + int(hashlib.md5(cs.name.encode()).hexdigest()[:6], 16))
    # concrete points for checking the encoding against the implementation
    points, failed, raised = [], [], []
    if not opts.get("novalidate"):
        for _ in range(3000):
            if len(points) >= opts.get("points", 2) or time.time() - t0 > 4:
                break
            S = ConcSession({}, rng=rng, tol=opts.get("tol", 1e-6))
            try:
                with np.errstate(all="ignore"):
                    import warnings

                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        cs.fn(S)
                points.append((S.values, S.lhs))
                if S.failed:
                    failed.append((S.values, S.failed[0]["claim"]))
                res["witness"] = True  # the assumptions are satisfiable
            except ReplayInvalid:
                continue
            except Exception as e:  # noqa: BLE001 - judged symbolically below
                raised.append((S.values, f"no exception ({type(e).__name__})"))
                continue
    mon = Monitor()
    sess = [None]

    def body():
        S = sess[0] = SymSession()
        cs.fn(S)
        return S

    limit = opts.get("time_limit", 240)
    extra = opts.get("extra")
    if callable(extra):
        extra = extra()
    by_name = opts.get("by_name")
    if callable(by_name):
        by_name = by_name()
    stats = None
    sample_pc = []
    try:
        with mon, patch.symbolic(extra=extra, tokens=opts.get("tokens"), by_name=by_name):
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for c, out, exc, stats in core.explore(
                    body,
                    max_paths=opts.get("max_paths", 3000),
                    feas_ms=opts.get("feas_ms", 1500),
                    div=opts.get("div", "assume"),
                    time_limit=limit,
                ):
                    S = sess[0]
                    res["notes"].update(c.notes)
                    core._CTX[0] = c  # terms built while judging belong to this path
                    if exc is not None:
                        _judge_exception(cs, c, S, exc, res, st, budget)
                        if res["violations"] and not opts.get("all_violations"):
                            break
                        continue
                    if opts.get("novalidate") and not res["witness"]:
                        if c.check() == z3.sat:
                            res["witness"] = True
                    for cl in S.claims:
                        _judge(cs, cl, S, c, res, st, budget, rng, points)
                        if len(res["violations"]) >= 8:
                            break
                    if len(sample_pc) < 300 and not opts.get("novalidate"):
                        sample_pc.append((list(c.pc), {q.label: q for q in S.claims}, dict(S.vars)))
                    if res["violations"] and not opts.get("all_violations"):
                        break
                    if time.time() - t0 > limit:
                        raise core.Limit("time limit of the case")
        core._CTX[0] = None
        if not res["violations"] and not opts.get("novalidate"):
            if not points:
                points = _model_points(cs, sample_pc, st, res)
            _validate(points, sample_pc, res, st, opts)
    except core.Limit as e:
        res["inconclusive"].append(f"exploration stopped: {e}")
    except Exception:  # noqa: BLE001
        res["errors"].append(traceback.format_exc()[-3000:])
    finally:
        core._CTX[0] = None
    if stats is not None:
        res["paths"] = stats.paths
        res["decisions"] = stats.decisions
        res["feasibility_queries"] = stats.feas
        st.solver_s += stats.solver_s
    if res["paths"] == 0 and not res["errors"] and not res["inconclusive"]:
        res["errors"].append("vacuous: no feasible path")
    if not res["witness"] and not res["violations"] and not res["errors"]:
        if not opts.get("nowitness") and not res["validated"]:
            res["errors"].append("vacuous: no witness for the assumptions")
    if not res["violations"]:
        # the real code fails at a validation point although nothing was found, or while
        # the solver could not answer: still a counterexample on the real code
        for values, label in failed + (raised if res["errors"] or res["inconclusive"] else []):
            if _confirm(cs, values, res, label, "validation point")[0]:
                break
        else:
            if failed:
                res["errors"].append(f"the real code failed at a validation point, not reproduced: {failed[0][1]}")
    res["queries"] = st.queries
    res["solver_s"] = round(st.solver_s, 3)
    res["functions"] = sorted(mon.seen)
    res["notes"] = sorted(res["notes"])
    res["wall_s"] = round(time.time() - t0, 3)
    if res["violations"]:
        res["status"] = "violation"
    elif res["errors"]:
        res["status"] = "error"
    elif res["inconclusive"]:
        res["status"] = "inconclusive"
    return res


def _unpatched(fn):
    """Run `fn` with the symbolic context suspended (proxies are transparent to floats)."""
    old = core._CTX[0]
    core._CTX[0] = None
    try:
        return fn()
    finally:
        core._CTX[0] = old


def _confirm(cs, values, res, label, why, exc=None):
    """Queue a candidate; the caller replays it outside of the patched modules."""
    ok, det = replay_isolated(cs, values, exc)
    if ok:
        res["violations"].append(
            {"case": cs.name, "claim": label, "values": det.get("values", values), "detail": det, "how": why, "exc": exc}
        )
    return ok, det


def replay_isolated(cs, values, exc=None):
    """Replay in a forked child in which the modules are restored first."""
    return _unpatched(lambda: _with_restored(lambda: replay(cs, values, exc)))


def _with_restored(fn):
    stack = patch.ACTIVE_UNDO
    saved = []
    for d, k, v in reversed(stack):
        saved.append((d, k, d.get(k, patch.MISSING)))
        if v is patch.MISSING:
            d.pop(k, None)
        else:
            d[k] = v
    try:
        return fn()
    finally:
        for d, k, v in reversed(saved):
            if v is patch.MISSING:
                d.pop(k, None)
            else:
                d[k] = v


def _judge_exception(cs, c, S, exc, res, st, budget):
    res["obligations"] += 1
    label = f"no exception ({type(exc).__name__}: {str(exc)[:120]})"
    if isinstance(exc, core.Unsupported) or _is_engine_error(exc):
        tb = "".join(traceback.format_exception(exc))[-2500:]
        # is the path feasible at all?
        r, m = prove.solve(c.pc, st, budget)
        if r == z3.unsat:
            res["discharged"] += 1
            return
        res["errors"].append("unsupported operation: " + tb)
        return
    nice = _nice(S.vars, S.decl)
    for extra in (nice, []):
        r, m = prove.solve(c.pc + extra, st, budget)
        if r == z3.unsat and not extra:
            res["discharged"] += 1
            return
        if r == z3.sat:
            vals = model_values(m, S.vars)
            ok, det = _confirm(cs, vals, res, label, "exception path", type(exc).__name__)
            if ok:
                return
    if r == z3.unsat:
        res["discharged"] += 1
        return
    tb = "".join(traceback.format_exception(exc))[-2500:]
    res["errors"].append(f"symbolic-only exception not reproduced: {label}\n{tb}")


def _judge(cs, cl, S, c, res, st, budget, rng, points):
    res["obligations"] += 1
    try:
        triv = cl.trivially()
    except z3.Z3Exception:
        triv = False
    if triv:
        res["discharged"] += 1
        res["trivial"] += 1
        return
    neg = z3.Not(cl.formula())
    # 1. quick attempt
    r, m = prove._solve(prove._plain, cl.pc + [neg], min(1500, budget), st)
    if r == z3.unsat:
        res["discharged"] += 1
        return
    if r == z3.unknown and (prove.linearized(cl.pc + [neg], st) or prove.abstracted(cl.pc + [neg], st)):
        res["discharged"] += 1
        return
    if r == z3.unknown:
        r, m = prove.split(cl, st, budget)
        if r == z3.unsat:
            res["discharged"] += 1
            return
    nice = _nice(S.vars, S.decl)
    tried = []

    def try_model(m, why):
        vals = model_values(m, S.vars)
        key = json.dumps(vals, sort_keys=True)
        if key in tried:
            return False
        tried.append(key)
        ok, det = _confirm(cs, vals, res, cl.label, why)
        if not ok:
            res.setdefault("_last", []).append({"label": cl.label, "values": vals, "det": det})
        return ok

    # 2. robust counterexample (margin, bounded inputs)
    if r == z3.sat or r == z3.unknown:
        for eps in ("1/10", "1/1000", "1/100000"):
            r2, m2 = prove._solve(
                prove._plain, cl.pc + nice + [cl.violation(Fraction(eps))], 2500, st
            )
            if r2 == z3.sat and try_model(m2, f"margin {eps}"):
                return
            if cl.kind == "true":
                break
    # 3. probing: fix inputs to the concrete points / random values
    for k in range(6):
        fix = []
        for n, t in S.vars.items():
            kind, lo, hi = S.decl[n]
            if rng.random() < (0.85 if k < 4 else 0.5):
                v = _rand(rng, kind, lo, hi)
                fix.append(t == (z3.RealVal(Fraction(v)) if kind == "real" else v))
        r2, m2 = prove._solve(prove._plain, cl.pc + fix + [cl.violation(Fraction(1, 1000))], 1000, st)
        if r2 == z3.sat and try_model(m2, "probe"):
            return
    # 4. full strength
    if r != z3.sat:
        r, m = prove.solve(cl.pc + [neg], st, budget)
        if r == z3.unsat:
            res["discharged"] += 1
            return
        if r == z3.unknown:
            res["inconclusive"].append(f"{cl.label}: solver answered unknown within {budget} ms")
            return
    if r == z3.sat:
        if m is not None and try_model(m, "model"):
            return
        r3, m3 = prove.solve(cl.pc + nice + [neg], st, budget)
        if r3 == z3.sat and try_model(m3, "bounded model"):
            return
        res["errors"].append(
            f"counterexample for '{cl.label}' did not reproduce on the real code: "
            + json.dumps(res.get("_last", [])[-1:], default=str)[:3000]
        )


def _model_points(cs, paths, st, res):
    """Concrete points taken from solver models of the first path conditions."""
    out = []
    for pc, _, vars_ in paths[:2]:
        r, m = prove.solve(pc, st, 4000)
        if r != z3.sat:
            continue
        res["witness"] = True
        vals = model_values(m, vars_)
        S = ConcSession(dict(vals), tol=cs.opts.get("tol", 1e-6))
        try:
            with np.errstate(all="ignore"):
                import warnings

                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    cs.fn(S)
        except Exception:  # noqa: BLE001 - e.g. rounding pushed it out of the assumptions
            continue
        out.append((vals, S.lhs))
    return out


def _validate(points, paths, res, st, opts):
    """Push concrete points through both the encoding and the implementation."""
    for vals, lhs in points:
        hit = False
        for pc, claims, vars_ in paths:
            fix = []
            for n, t in vars_.items():
                if n not in vals:
                    continue
                v = vals[n]
                if z3.is_real(t):
                    fix.append(t == z3.RealVal(Fraction(v)))
                elif z3.is_int(t):
                    fix.append(t == int(v))
                else:
                    fix.append(t == bool(v))
            r, m = prove._solve(prove._plain, pc + fix, 3000, st)
            if r != z3.sat:
                continue
            hit = True
            uf = prove._has_ite_or_uf(pc)[0]
            for label, cl in claims.items():
                if label not in lhs or cl.kind == "true" or lhs[label] is None:
                    continue
                a = core.lift(cl.a)
                if uf or prove._has_ite_or_uf([a.n] + ([a.d] if a.d is not None else []))[0]:
                    continue
                try:
                    n = float(Fraction(val_to_py(m.eval(a.n, model_completion=True))))
                    d = 1.0 if a.d is None else float(Fraction(val_to_py(m.eval(a.d, model_completion=True))))
                except (ValueError, ZeroDivisionError):
                    continue
                try:
                    obs = float(lhs[label])
                except (TypeError, ValueError):
                    continue
                if not math.isfinite(obs) or d == 0:
                    continue
                if abs(n / d - obs) > 1e-5 * max(1.0, abs(obs)):
                    res["errors"].append(
                        f"encoding disagrees with the implementation on '{label}': {n / d} vs {obs} at {vals}"
                    )
                    return
            res["validated"] += 1
            if len(res["samples"]) < 2:
                res["samples"].append({"case": res["case"], "inputs": vals})
            break
        if not hit:
            res["notes"].add("a validation point matched no recorded path")


def source_hash(root="/repo/src/skfolio"):
    h = hashlib.sha256()
    for dp, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(".py"):
                p = os.path.join(dp, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]
