"""Harnesses: one piece of driver code that runs both symbolically and concretely.

A harness is a function `h(c)`.  `c` is a `SymCtx` during the check (its inputs are solver
variables, its assertions are solver queries) and a `ConCtx` during validation and replay (its
inputs are ordinary floats and the code under test is the unpatched code).
"""

from __future__ import annotations

import math
import os
import random
import time
import traceback
import zlib
from fractions import Fraction

REGISTRY: dict[str, "Harness"] = {}


class Harness:
    def __init__(self, name, fn, **opts):
        self.name = name
        self.fn = fn
        self.opts = opts
        self.doc = (fn.__doc__ or "").strip()


def harness(name=None, **opts):
    """Register a harness.

    Options: tier ('quick' or 'thorough'), timeout (seconds per query), max_paths, bounds (text).
    """

    def deco(fn):
        n = name or fn.__name__
        REGISTRY[n] = Harness(n, fn, **opts)
        return fn

    return deco


class Skip(BaseException):
    """A concrete run left the assumptions of the harness."""


class Failure(Exception):
    """Raised in stop-at-first-failure mode."""


# ---------------------------------------------------------------------------------------------
# concrete context


class ConCtx:
    """Runs a harness on ordinary numbers; collects failed assertions."""

    symbolic = False

    def __init__(self, env, thorough=False, slack=1.0):
        self.env = dict(env)
        self.thorough = thorough
        self.failures = []
        self.obs = []
        self.slack = slack
        self.known = []

    # inputs
    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False, pos=False):
        v = self.env.get(name)
        if v is None:
            # not reached on the symbolic path: some number within the bounds
            a = -1.0 if lo is None else float(lo)
            b = a + 2.0 if hi is None else float(hi)
            part = (zlib.crc32(f"{self.env.get('draw!', 0)} {name}".encode()) % 9973 + 1) / 9974
            v = a + (b - a) * (0.5 if self.env.get("draw!") is None else part)
        return v

    def choice(self, name, options):
        return options[int(self.env.get(name, 0))]

    def boolean(self, name):
        return bool(self.env.get(name, False))

    def const(self, x):
        return float(x)

    # assertions
    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def assume_eq(self, a, b):
        if abs(a - b) > 1e-9 * max(1.0, abs(a), abs(b)):
            raise Skip()

    def fork(self, cond):
        return bool(cond)

    def guess(self, x):
        """The value of x at one witness of the path (a hint only, never a verdict)."""
        return float(x)

    def check(self, cond, label):
        self.obs.append((label, bool(cond), None))
        if not bool(cond):
            self.failures.append((label, "condition is false"))

    def check_eq(self, a, b, label, tol=1e-7, scale=None, **kw):
        a, b = float(a), float(b)
        self.obs.append((label, a, b))
        s = max(1.0, abs(a), abs(b)) if scale is None else max(float(scale), abs(a), abs(b))
        if not (abs(a - b) <= tol * s):
            self.failures.append((label, f"{a!r} != {b!r}"))

    def check_close(self, a, b, tol, label, **kw):
        a, b, tol = float(a), float(b), float(tol)
        self.obs.append((label, a, b))
        if not (abs(a - b) <= tol * 1.0000001 + 1e-15):
            self.failures.append((label, f"|{a!r} - {b!r}| > {tol!r}"))

    def check_ge(self, a, b, label, **kw):
        a, b = float(a), float(b)
        self.obs.append((label, a, b))
        if not (a >= b - 1e-9 * max(1.0, abs(a), abs(b))):
            self.failures.append((label, f"{a!r} < {b!r}"))

    def check_gt(self, a, b, label, **kw):
        a, b = float(a), float(b)
        self.obs.append((label, a, b))
        if not a > b:
            self.failures.append((label, f"{a!r} <= {b!r}"))

    def fail(self, label):
        self.check(False, label)

    def observe(self, label, v):
        self.obs.append((label, float(v), None))

    def raises(self, excs, fn, label):
        """The call must raise one of excs."""
        try:
            fn()
        except excs:
            return True
        except Exception as ex:  # noqa: BLE001
            self.failures.append((label, f"raised {type(ex).__name__} instead"))
            return False
        self.failures.append((label, "no error was raised"))
        return False

    def derivative(self, f, xs, ds, h=1e-5):
        """Directional derivative of f at xs in direction ds (central difference)."""
        up = f(*[x + h * d for x, d in zip(xs, ds)])
        dn = f(*[x - h * d for x, d in zip(xs, ds)])
        return (up - dn) / (2 * h)

    def defined(self):
        return _Null()

    def linear_naming(self):
        return _Null()

    def reciprocals(self):
        return _Null()

    def snapped_naming(self, at_least=2):
        return _Null()

    def fresh_path(self):
        return _Null()

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def all_of(self, xs):
        return all(bool(x) for x in xs)

    def any_of(self, xs):
        return any(bool(x) for x in xs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def not_(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def maximum(self, *xs):
        return max(xs)

    def minimum(self, *xs):
        return min(xs)


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def run_concrete(h: Harness, env, thorough=False):
    """(status, ctx): status is 'ok', 'violated', 'skipped' or 'raised'."""
    c = ConCtx(env, thorough)
    try:
        h.fn(c)
    except Skip:
        return "skipped", c
    except Exception as ex:  # noqa: BLE001
        c.failures.append((f"unexpected {type(ex).__name__}", str(ex)[:300]))
        c.tb = traceback.format_exc()
        return "raised", c
    return ("violated" if c.failures else "ok"), c


# ---------------------------------------------------------------------------------------------
# symbolic context


class Candidate:
    """A possible violation: assertion label, path condition, and violated formula."""

    def __init__(self, label, kind, envs, detail=""):
        self.label, self.kind, self.envs, self.detail = label, kind, envs, detail


class SymCtx:
    """Runs a harness with symbolic inputs."""

    symbolic = True

    def __init__(self, eng, h: Harness, thorough, on_candidate, rng):
        self.e = eng
        self.h = h
        self.thorough = thorough
        self.on_candidate = on_candidate
        self.rng = rng
        self.failures = []
        self.kinds = {}
        self.obs = []
        self.labels = set()
        self.unsettled = []

    # -- inputs --------------------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False, pos=False):
        from vt.engine import Sym, z3, _rv, exact

        e = self.e
        s = Sym.var(name)
        if name in self.kinds:
            return s
        self.kinds[name] = "real"
        e.base.append(name)
        lo = None if lo is None else exact(lo)
        hi = None if hi is None else exact(hi)
        e.bounds[name] = (lo, hi)
        v = z3.Real(name)
        if lo is not None:
            e.add_pc(v > _rv(lo) if open_lo else v >= _rv(lo))
        if hi is not None:
            e.add_pc(v < _rv(hi) if open_hi else v <= _rv(hi))
        return s

    def choice(self, name, options):
        from vt.engine import z3

        e = self.e
        self.kinds[name] = "choice"
        e.base.append(name)
        v = z3.Real(name)
        n = len(options)
        if n == 0:
            raise ValueError("empty choice")
        for k in range(n - 1):
            if e.decide_free(v == k):
                e.bounds[name] = (k, k)
                return options[k]
        e.add_pc(v == n - 1)
        e.bounds[name] = (n - 1, n - 1)
        return options[n - 1]

    def boolean(self, name):
        from vt.engine import SymBool, z3

        e = self.e
        self.kinds[name] = "bool"
        e.base.append(name)
        v = z3.Real(name)
        if name not in e.bounds:
            e.bounds[name] = (0, 1)
            e.add_pc(z3.Or(v == 0, v == 1))
        return SymBool(v == 1)

    def const(self, x):
        from vt.engine import Sym, exact

        return Sym.of(exact(x))

    # -- modes ---------------------------------------------------------------------------------
    def defined(self):
        """Inside: divisors are assumed non-zero, logarithms and roots defined."""
        return _Mode(self.e, "assume_defined", 1)

    def linear_naming(self):
        """Inside: affine forms that enter products are named instead of expanded."""
        return _Mode(self.e, "naming", True)

    def snapped_naming(self, at_least=2):
        """As linear_naming; forms that agree up to rounding of the coefficients get one name.

        Forms of fewer terms than at_least are expanded.
        """
        return _Mode(self.e, "naming", "snap", naming_min=at_least)

    def reciprocals(self):
        """Inside: the reciprocal of a general divisor is named, so that sums stay polynomial."""
        return _Mode(self.e, "reciprocals", True)

    def derivative(self, f, xs, ds, h=None):
        """Directional derivative of f at xs in direction ds (exact, by dual numbers)."""
        from vt.engine import Dual

        r = f(*[Dual(x, d) for x, d in zip(xs, ds)])
        return r.b if isinstance(r, Dual) else self._sym(0)

    # -- assumptions ---------------------------------------------------------------------------
    def assume(self, cond):
        from vt.engine import PathAbort, zbool

        if isinstance(cond, bool):
            if not cond:
                raise PathAbort()
            return
        self.e.assume(zbool(cond))

    def assume_eq(self, a, b):
        self.assume(self._sym(a) == b)

    def fork(self, cond):
        return bool(cond)

    def guess(self, x):
        """The value of x at one witness of the path (a hint only, never a verdict)."""
        from vt.engine import NumEval, Inconclusive

        e = self.e
        x = self._sym(x)
        if x.k == "c":
            return float(x.c)
        if getattr(self, "_witness_at", None) != len(e.pc):
            env = self.path_env()
            if env is None:
                raise Inconclusive("no witness of the path")
            self._witness, self._witness_at = env, len(e.pc)
        return NumEval(dict(self._witness), e.atoms).sym(x)

    @staticmethod
    def _sym(a):
        from vt.engine import Sym

        return Sym.of(a)

    # -- assertions ----------------------------------------------------------------------------
    def check(self, cond, label):
        from vt.engine import zbool, z3

        self.e.stats.checks += 1
        self.labels.add(label)
        if isinstance(cond, bool):
            self.obs.append((label, cond, None))
            if cond:
                self.e.stats.discharged += 1
                self.e.stats.trivial += 1
            else:
                self._violated(label, z3.BoolVal(True), "false on this path")
            return
        self.obs.append((label, cond, None))
        self._query(label, z3.Not(zbool(cond)))

    def check_eq(self, a, b, label, tol=1e-7, scale=None, **kw):
        from vt.engine import z3, Unsupported, Sym

        self.e.stats.checks += 1
        self.labels.add(label)
        if isinstance(a, float) and not math.isfinite(a) or isinstance(b, float) and not math.isfinite(b):
            self.obs.append((label, a, b))
            if a == b:
                self.e.stats.discharged += 1
                self.e.stats.trivial += 1
            else:
                self._violated(label, z3.BoolVal(True), f"{a} != {b}")
            return
        a, b = self._sym(a), self._sym(b)
        self.obs.append((label, a, b))
        d = a - b
        if d.k == "c":
            # constants that come out of float arithmetic are equal up to the stated tolerance
            lim = Fraction(tol if tol < 1e-9 else 1e-9) * max(1, abs(a.c) if a.k == "c" else 1)
            if abs(d.c) <= lim:
                self.e.stats.discharged += 1
                self.e.stats.trivial += 1
            else:
                self._violated(label, z3.BoolVal(True), f"differ by {float(d.c):.3g}")
            return
        if kw.get("rounding") and self._equal_up_to_rounding(a, b):
            self.e.stats.discharged += 1
            return
        self._query(label, d.numer() != 0, eq=(a, b), tol=tol)

    def _equal_up_to_rounding(self, a, b, tol=Fraction(1, 10**9)):
        """Do the two sides agree up to rounding errors of the constants in the program?

        Both are expanded; every monomial m becomes an unknown m with |m| <= p, and the solver is
        asked whether |a - b| can exceed tol times the largest coefficient of a times the sum of the p.
        """
        from vt.engine import z3, polynomial

        if a.dens() or b.dens():
            return False
        diff = (a - b).numer()
        pd = polynomial(diff)
        # a lower bound of the largest coefficient will do
        pa = polynomial(a.numer(), limit=2000)
        if pd is None or pa is None:
            return False
        if self._rounding_only(pd, pa, tol):
            return True
        # the names of affine forms may hide that these are nothing but rounding errors
        names = {n for m in pd for n, _ in m if self.e.atoms.get(n, ("",))[0] == "lin"}
        if not names or len(pd) > 50 or any(sum(p for n, p in m if n in names) > 1 for m in pd):
            return False
        pd = polynomial(z3.substitute(diff, [(z3.Real(n), self.e.atoms[n][1].numer()) for n in names]))
        return pd is not None and self._rounding_only(pd, pa, tol)

    def _rounding_only(self, pd, pa, tol):
        """Is the polynomial pd at most tol times the largest coefficient of pa times its monomials?"""
        from vt.engine import z3, _rv

        big = max([abs(v) for v in pa.values()] + [Fraction(0)])
        vals = [v for v in pd.values() if v]
        if not vals:
            return True
        t0 = time.time()
        try:
            # in portions, whose bounds add up
            for at in range(0, len(vals), 20):
                s = z3.Solver()
                s.set("timeout", 20000)
                terms, sizes = [], []
                for k, v in enumerate(vals[at : at + 20]):
                    m, p = z3.Real(f"m{k}"), z3.Real(f"p{k}")
                    s.add(m <= p, -m <= p)
                    # rounded away from zero, which only enlarges the values of the product
                    terms.append(_rv(Fraction(math.ceil(abs(v) * 2**50 / big), 2**50)) * m)
                    sizes.append(p)
                self.e.stats.queries += 1
                # both signs of m are possible, so one direction covers the other
                s.add(z3.Sum(terms) > _rv(tol) * z3.Sum(sizes))
                if s.check() != z3.unsat:
                    return False
            return True
        finally:
            self.e.stats.solver_s += time.time() - t0

    def check_close(self, a, b, tol, label, **kw):
        from vt.engine import exact

        a, b = self._sym(a), self._sym(b)
        tol = self._sym(tol)
        self.e.stats.checks += 1
        self.labels.add(label)
        self.obs.append((label, a, b))
        d = a - b
        from vt.engine import z3, zbool

        self._query(label, zbool_or(d > tol, d < -tol))

    def check_ge(self, a, b, label, **kw):
        from vt.engine import zbool

        self.e.stats.checks += 1
        self.labels.add(label)
        a, b = self._sym(a), self._sym(b)
        self.obs.append((label, a, b))
        self._query(label, zbool(a < b), gap=(b, a))

    def check_gt(self, a, b, label, **kw):
        from vt.engine import zbool

        self.e.stats.checks += 1
        self.labels.add(label)
        a, b = self._sym(a), self._sym(b)
        self.obs.append((label, a, b))
        self._query(label, zbool(a <= b))

    def fail(self, label):
        self.check(False, label)

    def observe(self, label, v):
        self.obs.append((label, self._sym(v), None))

    def raises(self, excs, fn, label):
        from vt.engine import z3

        self.e.stats.checks += 1
        self.labels.add(label)
        try:
            fn()
        except excs:
            self.e.stats.discharged += 1
            return True
        except Exception as ex:  # noqa: BLE001
            self._violated(label, z3.BoolVal(True), f"raised {type(ex).__name__}: {ex}")
            return False
        self._violated(label, z3.BoolVal(True), "no error was raised")
        return False

    # -- queries -------------------------------------------------------------------------------
    def _query(self, label, bad, eq=None, gap=None, tol=1e-7):
        from vt.engine import z3

        e = self.e
        s = z3.simplify(bad)
        if z3.is_false(s):
            e.stats.discharged += 1
            e.stats.trivial += 1
            return
        from vt.engine import is_linear

        if is_linear(s) and e.follows_linearly(z3.Not(s)):
            e.stats.discharged += 1
            return
        if eq is not None and not e.atoms and e.solve_quick([s]) == "unsat":
            e.stats.discharged += 1
            return
        if eq is not None and len(e.atoms) > 30 and self._violated_at_samples(label, eq, tol):
            return
        core = e.pc + e.axioms + e.congruence()
        r, m = e.solve(core + [s], self.h.opts.get("timeout"))
        if r == "sat" and e.defs:
            r, m = e.solve(core + e.defs + [s], self.h.opts.get("timeout"))
        if r == "unsat":
            e.stats.discharged += 1
            return
        self._violated(label, s, r, model=m, eq=eq, gap=gap, tol=tol)

    def _violated_at_samples(self, label, eq, tol):
        """Before a large query: does the real code violate the equation at drawn inputs?"""

        def ok(ev):
            a, b = ev.sym(eq[0]), ev.sym(eq[1])
            return abs(a - b) > 10 * tol * max(1.0, abs(a), abs(b))

        envs = self.samples(self.middle_env(), 2, ok, tries=12)
        return bool(envs) and bool(self.on_candidate(Candidate(label, "sampled", envs)))

    def path_env(self, extra=(), model=None):
        """Concrete inputs from a model of the path condition (None if unsatisfiable)."""
        from vt.engine import z3, _model_fraction

        e = self.e
        if model is None:
            r, model = e.solve(e.pc + e.axioms + e.defs + list(extra))
            if r != "sat":
                return None
        env = {}
        for n in e.base:
            v = model.eval(z3.Real(n), model_completion=True)
            try:
                q = _model_fraction(v)
            except BaseException:  # noqa: BLE001
                return None
            env[n] = int(q) if self.kinds.get(n) in ("choice", "bool") else float(q)
        return env

    def middle_env(self):
        """Inputs in the middle of their bounds (choices as on this path)."""
        e = self.e
        mid = {}
        for n in e.base:
            lo, hi = e.bounds.get(n, (None, None))
            mid[n] = 0.0 if self.kinds.get(n) == "real" else 0
            if lo is not None and hi is not None:
                mid[n] = float(lo + hi) / 2 if self.kinds.get(n) == "real" else int(lo)
        return mid

    def drawn_env(self):
        """Inputs drawn within their bounds (choices as on this path)."""
        env = self.middle_env()
        for n in env:
            lo, hi = self.e.bounds.get(n, (None, None))
            if self.kinds.get(n) == "real" and lo is not None and hi is not None:
                env[n] = self.rng.uniform(float(lo), float(hi))
        return env

    def nearby(self, target):
        """Inputs that satisfy the linear part of the path condition, near the given ones."""
        from vt.engine import z3, _rv, _model_fraction

        e = self.e
        s = e.lin
        s.push()
        try:
            lits = {}
            for k, (n, v) in enumerate(target.items()):
                p = z3.Bool(f"near!{k}")
                x, q = z3.Real(n), Fraction(v)
                w = Fraction(1, 1000) * max(1, abs(q))
                s.add(z3.Implies(p, z3.And(x >= _rv(q - w), x <= _rv(q + w))))
                lits[f"near!{k}"] = p
            t0 = time.time()
            e.stats.queries += 1
            while time.time() - t0 < 5 and not e.out_of_time():
                r = s.check(*lits.values())
                if r == z3.sat:
                    m = s.model()
                    out = {}
                    for n in target:
                        v = m.eval(z3.Real(n), model_completion=True)
                        out[n] = float(_model_fraction(v))
                    return out
                core = [str(c) for c in s.unsat_core()] if r == z3.unsat else []
                if not core:
                    return None
                del lits[self.rng.choice(core)]
            return None
        finally:
            s.pop()

    def samples(self, base_env, want, ok, tries=400):
        """Random inputs around base_env that satisfy the path condition and `ok`."""
        from vt.engine import NumEval, z3

        e = self.e
        out = []
        names = [n for n in e.base if self.kinds.get(n) == "real"]
        missed = 0
        for k in range(tries):
            env = dict(base_env)
            mode = k % 4
            for n in names:
                lo, hi = e.bounds.get(n, (None, None))
                if mode == 3 and self.rng.random() < 0.5:
                    continue
                if lo is not None and hi is not None:
                    lo, hi = float(lo), float(hi)
                    if mode == 1 and hi - lo > 4:
                        hi = lo + 4
                    v = lo + (hi - lo) * self.rng.random()
                elif lo is not None:
                    v = float(lo) + self.rng.random() * (2 if mode else 1)
                elif hi is not None:
                    v = float(hi) - self.rng.random() * 2
                else:
                    v = self.rng.uniform(-2, 2)
                env[n] = round(v, 3) if mode == 0 else v
            if missed > 3 and k % 2 == 0:
                # drawn inputs rarely take this path
                near = self.nearby({n: env[n] for n in names})
                if near is None:
                    missed = -tries
                    continue
                env.update(near)
            ev = NumEval(dict(env), e.atoms)
            try:
                if not all(ev.z(t) for t in e.pc):
                    missed += 1
                    continue
                if not ok(ev):
                    continue
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            out.append(env)
            if len(out) >= want:
                break
        return out

    def not_encoded(self, why):
        """The path cannot be followed further: do drawn inputs on it show a violation?"""
        from vt.engine import Inconclusive, Unsupported

        try:
            envs = self.samples(self.drawn_env(), 3, lambda ev: True, tries=20)
        except (Inconclusive, Unsupported, RecursionError):
            envs = []
        envs = [{**env, "draw!": k} for k, env in enumerate(envs)]
        return self.on_candidate(Candidate(f"not encoded ({why}), at drawn inputs", "drawn", envs))

    def _violated(self, label, bad, why, model=None, eq=None, gap=None, tol=1e-7):
        """Concretise a counterexample and hand it to the replay."""
        from vt.engine import z3, Inconclusive, _rv

        e = self.e
        envs = []
        # 1. a well-conditioned model: moderate inputs, clear margin
        if why != "unknown":
            box = []
            for n in e.base:
                if self.kinds.get(n) == "real":
                    v = z3.Real(n)
                    box += [v <= 8, v >= -8]
            margin = []
            if eq is not None:
                a, b = eq
                d = a - b
                if not d.dens():
                    margin = [z3.Or(d.numer() > _rv(Fraction(1, 100)), d.numer() < _rv(Fraction(-1, 100)))]
            if gap is not None:
                d = gap[0] - gap[1]
                if not d.dens():
                    margin = [d.numer() > _rv(Fraction(1, 100))]
            for extra in ((box + margin) if margin else None, box, margin or None):
                if extra is None:
                    continue
                try:
                    env = self.path_env([bad] + list(extra))
                except Inconclusive:
                    env = None
                if env is not None:
                    envs.append(env)
                    break
        if model is not None:
            env = self.path_env(model=model)
            if env is not None:
                envs.append(env)
        if not envs:
            env = self.path_env([bad] if why != "unknown" else [])
            if env is not None:
                envs.append(env)
        # 2. samples on the path that violate the assertion numerically (also used when the solver
        #    gave up; they can only produce a violation, never a verdict that the property holds)
        base = envs[0] if envs else self.path_env()
        if base is None:
            base = self.middle_env()
            if why != "unknown":
                envs.append(base)
        if base is not None:

            def ok(ev):
                if eq is not None:
                    a, b = ev.sym(eq[0]), ev.sym(eq[1])
                    return abs(a - b) > 10 * tol * max(1.0, abs(a), abs(b))
                if gap is not None:
                    return ev.sym(gap[0]) - ev.sym(gap[1]) > 1e-6
                return bool(ev.z(bad))

            try:
                envs += self.samples(base, 3, ok)
            except BaseException as ex:  # noqa: BLE001
                if not isinstance(ex, Exception) and type(ex).__name__ != "Unsupported":
                    raise
        if base is not None and getattr(e, "noise_path", None) is e.axioms:
            # rounding errors are over-approximated: also try extreme and drawn inputs
            names = [n for n in e.base if self.kinds.get(n) == "real"]
            lim = {n: e.bounds.get(n, (None, None)) for n in names}
            if names and all(a is not None and b is not None for a, b in lim.values()):
                for k in range(4):
                    pick = (lambda a, b: b, lambda a, b: a)[k] if k < 2 else self.rng.uniform
                    envs.append({**base, **{n: float(pick(float(a), float(b))) for n, (a, b) in lim.items()}})
        if not envs and why == "unknown":
            self.unsettled.append((label, "solver gave no answer"))
            return
        reproduced = self.on_candidate(Candidate(label, why, envs))
        if not reproduced:
            self.unsettled.append(
                (label, f"{why}; no counterexample reproduced on the real code out of {len(envs)}")
            )

    # -- helpers -------------------------------------------------------------------------------
    def sqrt(self, x):
        return self._sym(x).sqrt()

    def exp(self, x):
        return self._sym(x).exp()

    def log(self, x):
        return self._sym(x).log()

    def all_of(self, xs):
        from vt.engine import all_of

        return all_of(list(xs))

    def any_of(self, xs):
        from vt.engine import any_of

        return any_of(list(xs))

    def implies(self, a, b):
        from vt.engine import implies

        return implies(a, b)

    def not_(self, a):
        return (not a) if isinstance(a, bool) else ~a

    def ite(self, c, a, b):
        from vt.engine import ite

        return ite(c, a, b)

    def maximum(self, *xs):
        from vt.engine import smax

        return smax(*[self._sym(x) for x in xs])

    def minimum(self, *xs):
        from vt.engine import smin

        return smin(*[self._sym(x) for x in xs])


def zbool_or(a, b):
    from vt.engine import z3, zbool

    return z3.Or(zbool(a), zbool(b))


class _Mode:
    def __init__(self, e, attr, val, **more):
        self.e, self.new = e, {attr: val, **more}

    def __enter__(self):
        self.old = {k: getattr(self.e, k) for k in self.new}
        self.set(self.new)
        return self

    def __exit__(self, *a):
        self.set(self.old)
        return False

    def set(self, vals):
        for k, v in vals.items():
            setattr(self.e, k, v)


# ---------------------------------------------------------------------------------------------
# one harness, all paths


def run_symbolic(h: Harness, thorough, deadline, on_candidate, seed=1, stop=None):
    """Explore every feasible path of the harness; returns a result dict."""
    from vt.engine import Engine, PathAbort, Inconclusive, Unsupported, NumEval, Sym, SymBool, z3

    eng = Engine(
        query_timeout=h.opts.get("timeout", 20.0),
        max_paths=h.opts.get("max_paths", 5000),
        deadline=deadline,
    )
    rng = random.Random(seed)
    res = {
        "harness": h.name,
        "labels": set(),
        "unsettled": [],
        "violations": 0,
        "validated": 0,
        "mismatch": [],
        "vacuous": 0,
        "samples": [],
        "error": None,
    }
    found = {"n": 0}

    def cand(cd):
        ok = on_candidate(cd)
        if ok:
            found["n"] += 1
        return ok

    from vt.state import State

    state = State()

    def path():
        state.restore()
        c = SymCtx(eng, h, thorough, cand, rng)
        raised = None
        try:
            h.fn(c)
        except PathAbort:
            eng.stats.aborted += 1
            return True
        except Unsupported as ex:
            res["unsettled"].append(("encoding", f"not encoded: {ex}"))
            if not found["n"]:
                c.not_encoded(str(ex)[:80])
            res.setdefault("tb", traceback.format_exc())
            return found["n"] == 0 and len(res["unsettled"]) < 5
        except Exception as ex:  # noqa: BLE001
            raised = ex
            res.setdefault("tb", traceback.format_exc())
        finally:
            res["unsettled"] += c.unsettled
        eng.stats.paths += 1
        res["labels"] |= c.labels
        if raised is not None:
            eng.stats.raised += 1
            r, m = eng.solve(eng.pc + eng.axioms + eng.congruence() + eng.defs)
            if r == "unsat":
                return True
            c.unsettled = []
            c._violated(
                f"unexpected {type(raised).__name__}: {str(raised)[:120]}",
                z3.BoolVal(True),
                "an error is raised",
                model=m,
            )
            res["unsettled"] += c.unsettled
            return found["n"] == 0 and len(res["unsettled"]) < 5
        if found["n"]:
            return False
        # reachability witness and validation of the encoding against the real code
        mid = c.drawn_env()
        env, envs = None, []
        if len(eng.atoms) > 30:
            # the solver would need long for a witness: look for one by evaluation first
            try:
                envs = c.samples(mid, 1, lambda ev: True, tries=40)
            except Unsupported:
                envs = []
        if not envs:
            try:
                r, m = eng.solve(eng.pc + eng.axioms + eng.defs, timeout=10)
                if r == "sat":
                    env = c.path_env(model=m)
                elif r == "unsat":
                    res["vacuous"] += 1
                    return True
            except Inconclusive:
                env = None
            if env is None:
                env = mid
            try:
                envs = c.samples(env, 1, lambda ev: True, tries=60)
            except Unsupported:
                envs = []
        else:
            env = envs[0]
        envs.append(env)
        if eng.stats.paths <= h.opts.get("validate", 40):
            for en in envs:
                state.restore()
                v = _validate(h, thorough, eng, c, en)
                if v is True:
                    res["validated"] += 1
                    eng.stats.validated += 1
                    if len(res["samples"]) < 3:
                        res["samples"].append({k: en[k] for k in list(en)[:40]})
                    break
                if v is not None:
                    # the real code does something else here: does it break the property?
                    if c.on_candidate(Candidate(f"at {v[0]}", "real code differs", [en])):
                        return False
                    res["mismatch"].append(v)
        return True

    t0 = time.time()
    try:
        eng.explore(path)
    except Inconclusive as ex:
        res["unsettled"].append(("exploration", str(ex)))
    except Unsupported as ex:
        res["unsettled"].append(("encoding", str(ex)))
    except z3.Z3Exception as ex:
        res["unsettled"].append(("solver", str(ex)[:200]))
    res["stats"] = eng.stats.as_dict()
    res["wall_s"] = round(time.time() - t0, 2)
    res["violations"] = found["n"]
    res["labels"] = sorted(res["labels"])
    return res


def _validate(h, thorough, eng, c, env):
    """Run the harness on concrete inputs and compare every observed quantity."""
    from vt.engine import Engine, NumEval, Sym, SymBool, Unsupported

    saved, Engine.current = Engine.current, None
    try:
        status, cc = run_concrete(h, env, thorough)
    finally:
        Engine.current = saved
    if status in ("skipped", "raised"):
        return None
    if len(cc.obs) != len(c.obs):
        return None  # rounding put the concrete run on another path
    ev = NumEval(dict(env), eng.atoms)
    try:
        for (l1, a, b), (l2, x, y) in zip(c.obs, cc.obs):
            if l1 != l2:
                return None
            for s, v in ((a, x), (b, y)):
                if s is None or isinstance(s, (bool, SymBool)) or v is None or isinstance(v, bool):
                    continue
                n = ev.sym(s)
                if not math.isfinite(n) or not math.isfinite(v):
                    return None
                if abs(n - v) > 1e-5 * max(1.0, abs(n), abs(v)):
                    return (l1, n, v)
    except (ValueError, ZeroDivisionError, OverflowError, Unsupported):
        return None
    return True
