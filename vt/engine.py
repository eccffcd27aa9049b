"""A small symbolic executor for generic Python arithmetic.

The code under test is ordinary Python that only uses the arithmetic protocol of its inputs.
`Sym` implements that protocol and builds SMT terms, `SymBool.__bool__` asks the solver which
branches are feasible and re-executes the program once per feasible path (depth first, by replay of
the decision prefix), and `Ctx.check*` turns an assertion into the query "path condition and not
assertion".  Python's int and Fraction are exact; float is modelled as a real number (see
DESIGN.md, "What the numbers mean").
"""

from __future__ import annotations

import math
import re
import random
import time
from fractions import Fraction

from vt.boot import load_z3

z3 = load_z3()


# ---------------------------------------------------------------------------------------------
# control flow of the exploration (BaseException: the code under test must not catch these)


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(BaseException):
    """The code under test used an operation that the encoding does not cover."""


class Inconclusive(BaseException):
    """The solver did not answer, or a bound of the exploration was exceeded."""


# ---------------------------------------------------------------------------------------------
# constants


def exact(x) -> Fraction:
    """The real number that a Python constant stands for.

    int and Fraction are themselves, as is a small multiple of a power of two.  A float whose shortest decimal is short is that decimal.  Any
    other float is the nearest rational with denominator up to 720 if that is within a few units
    in the last place (the usual case: the source says 1 / 3) or has the same first 15 digits
    (sympy prints 16 / 9 that way), else its shortest decimal.  So a float of less than 2^-50 is
    taken for a rounding error around zero, unless it is smaller than 2^-60.
    """
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if hasattr(x, "item"):
        x = x.item()
        if isinstance(x, (int, Fraction)):
            return Fraction(x)
        if isinstance(x, Sym):
            return x
    if not isinstance(x, float):
        raise Unsupported(f"constant of type {type(x).__name__}")
    if 0 < abs(x) < 2.0**-60:  # too small for the rounding error of a number of order one
        return Fraction(x)
    if abs(x) >= 2.0**-45 and x.as_integer_ratio()[0].bit_length() <= 8:
        return Fraction(x)  # a small multiple of a power of two
    r = repr(x)
    if len(r.replace("-", "").replace(".", "").split("e")[0].strip("0")) <= 8:
        return Fraction(r)
    q = Fraction(x).limit_denominator(720)
    if abs(q - Fraction(x)) <= Fraction(1, 2**50) * max(1, abs(q)):
        return q
    if "%.15g" % float(q) == r:  # printed with 15 digits, as sympy does in generated code
        return q
    return Fraction(r)


def _rv(c: Fraction):
    return z3.RealVal(str(c))


# ---------------------------------------------------------------------------------------------
# the exploration state


class Stats:
    """Counters measured during a run."""

    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.discharged = 0
        self.trivial = 0
        self.atoms = 0
        self.validated = 0
        self.raised = 0

    def as_dict(self):
        return {k: (round(v, 3) if isinstance(v, float) else v) for k, v in vars(self).items()}


def is_linear(t, limit=20000):
    """Is this formula built from linear arithmetic only?"""
    core, ctx = z3.z3core, t.ctx.ref()
    seen, todo = set(), [t.as_ast()]
    while todo:
        a = todo.pop()
        k = core.Z3_get_ast_id(ctx, a)
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > limit:
            return False
        if core.Z3_is_numeral_ast(ctx, a):
            continue
        app = core.Z3_to_app(ctx, a)
        args = [core.Z3_get_app_arg(ctx, app, i) for i in range(core.Z3_get_app_num_args(ctx, app))]
        op = core.Z3_get_decl_kind(ctx, core.Z3_get_app_decl(ctx, app))
        if op == z3.Z3_OP_MUL and sum(not core.Z3_is_numeral_ast(ctx, x) for x in args) > 1:
            return False
        if op in (z3.Z3_OP_POWER, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or (
            args and op == z3.Z3_OP_UNINTERPRETED
        ):
            return False
        todo.extend(args)
    return True


class Engine:
    """State of the symbolic exploration of one harness."""

    current: "Engine | None" = None

    def __init__(self, query_timeout=20.0, max_paths=5000, deadline=None):
        self.stats = Stats()
        self.query_timeout = query_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.naming = False
        self.reciprocals = False
        self.reset()

    # -- per path ------------------------------------------------------------------------------
    def reset(self):
        self.pc = []  # path condition: list of z3 BoolRef
        self.trace = []  # decisions taken: list of bool
        self.known = {}  # ast id -> decided value
        self.keep = []  # keeps z3 asts alive, so that ids stay valid
        self.canon = {}  # coefficients of a polynomial -> its term and coefficients
        self.canon_ids = {}  # term -> the term and coefficients it stands for
        self.atoms = {}  # atom name -> (function, argument Sym)
        self.atom_keys = {}
        self.snap = {}
        self.snap_seen = {}
        self.naming_min = 2
        self.axioms = []
        self.defs = []
        self.bounds = {}  # base variable -> (lo, hi)
        self.base = []
        self.assume_defined = 0
        self.n_atoms = 0
        self.inc = z3.Solver()
        self.inc.set("timeout", int(3000))
        self.lin = z3.SolverFor("QF_LRA")  # the linear ones among all conditions
        self.lin.set("timeout", 3000)

    def out_of_time(self):
        return self.deadline is not None and time.time() > self.deadline

    # -- solving -------------------------------------------------------------------------------
    def solve(self, assertions, timeout=None, want_model=False):
        """Satisfiability of a conjunction; returns ('sat'|'unsat'|'unknown', model)."""
        if self.out_of_time():
            raise Inconclusive("time budget of the harness exhausted")
        timeout = self.query_timeout if timeout is None else timeout
        self.stats.queries += 1
        t0 = time.time()
        try:
            for kind, share in (("smt", 0.1), ("nlsat", 0.5), ("qfnra", 0.4)):
                if kind == "smt":
                    s = z3.Solver()
                elif kind == "nlsat":
                    s = z3.Then("simplify", "purify-arith", "elim-term-ite", "qfnra-nlsat").solver()
                else:
                    s = z3.SolverFor("QF_NRA")
                s.set("timeout", max(300, int(timeout * share * 1000)))
                s.add(*assertions)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r == z3.unsat:
                    return "unsat", None
                if r == z3.sat:
                    try:
                        return "sat", s.model()
                    except z3.Z3Exception:
                        continue
            return "unknown", None
        finally:
            self.stats.solver_s += time.time() - t0

    def solve_quick(self, assertions):
        """Is the assertion unsatisfiable on its own (no path condition, no axioms)?"""
        self.stats.queries += 1
        t0 = time.time()
        s = z3.Then("simplify", "purify-arith", "elim-term-ite", "qfnra-nlsat").solver()
        s.set("timeout", 5000)
        s.add(*assertions)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += time.time() - t0
        return str(r)

    def decide_free(self, cond) -> bool:
        """decide() for a fresh selector variable: both values are feasible."""
        pos = len(self.trace)
        if pos < len(self.prefix):
            val, forced, _ = self.prefix[pos]
        else:
            self.stats.decisions += 1
            val, forced = True, False
        self.trace.append((val, forced, None))
        self.add_pc(cond if val else z3.Not(cond))
        return val

    def _inc_check(self, cond):
        """Feasibility of the path condition plus cond, incremental solver first."""
        if self.out_of_time():
            raise Inconclusive("time budget of the harness exhausted")
        self.stats.queries += 1
        t0 = time.time()
        self.inc.push()
        self.inc.add(cond)
        r = self.inc.check()
        self.inc.pop()
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            res, _ = self.solve(self.pc + self.axioms + [cond])
            return res
        return "sat" if r == z3.sat else "unsat"

    def add_pc(self, cond):
        self.pc.append(cond)
        self.inc.add(cond)
        if is_linear(cond):
            self.lin.add(cond)

    def add_axiom(self, cond):
        self.axioms.append(cond)
        self.inc.add(cond)
        if is_linear(cond):
            self.lin.add(cond)

    def follows_linearly(self, cond):
        """Does cond follow from the linear conditions of the path alone? (False: not known)"""
        self.stats.queries += 1
        t0 = time.time()
        self.lin.push()
        self.lin.add(z3.Not(cond))
        r = self.lin.check()
        self.lin.pop()
        self.stats.solver_s += time.time() - t0
        return r == z3.unsat

    def decide(self, cond) -> bool:
        """Choose a feasible truth value of cond; the other one is explored later."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = z3.simplify(cond, som=True)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.known:
            return self.known[key]
        self.keep.append(cond)
        neg = z3.Not(cond)
        self.keep.append(neg)
        pos = len(self.trace)
        if pos < len(self.prefix):
            val, forced, _ = self.prefix[pos]
            self.trace.append((val, forced, None))
        else:
            self.stats.decisions += 1
            if is_linear(cond):
                if self.follows_linearly(cond):
                    a, b = "sat", "unsat"
                elif self.follows_linearly(neg):
                    a, b = "unsat", None
                else:
                    a = b = None
            else:
                a = b = None
            if a is None:
                a = self._inc_check(cond)
            if a == "unknown":
                raise Inconclusive(f"branch feasibility unknown: {str(cond)[:300]}")
            if a == "unsat":
                val, forced = False, True
            else:
                if b is None:
                    b = self._inc_check(neg)
                if b == "unknown":
                    raise Inconclusive(f"branch feasibility unknown: {str(neg)[:300]}")
                val, forced = True, b == "unsat"
            self.trace.append((val, forced, None))
        self.known[key] = val
        if not forced:
            self.add_pc(cond if val else neg)
        return val

    def assume(self, cond):
        """Restrict the path to cond."""
        if cond is True or z3.is_true(cond):
            return
        if cond is False:
            raise PathAbort()
        self.add_pc(cond)

    # -- atoms ---------------------------------------------------------------------------------
    def atom(self, fn, key, arg):
        """A fresh real standing for fn(arg); equal keys give the same atom."""
        k = (fn, key)
        if k in self.atom_keys:
            return self.atom_keys[k], False
        self.n_atoms += 1
        self.stats.atoms += 1
        name = f"@{fn}{self.n_atoms}"
        s = Sym.var(name)
        self.atoms[name] = (fn, arg)
        self.atom_keys[k] = s
        return s, True

    def congruence(self):
        """exp, log and sqrt are strictly increasing functions of their arguments."""
        out = []
        items = [(n, fn, a) for n, (fn, a) in self.atoms.items() if fn in ("exp", "log", "sqrt")]
        for i, (n1, f1, a1) in enumerate(items):
            for n2, f2, a2 in items[i + 1 :]:
                if f1 != f2:
                    continue
                z1, z2 = z3.Real(n1), z3.Real(n2)
                eq, lt = a1 == a2, a1 < a2
                if isinstance(eq, bool):
                    out.append(z1 == z2 if eq else (z1 < z2 if bool(lt) else z1 > z2))
                    continue
                eq, lt = eq.z, lt.z
                out.append(z3.Implies(eq, z1 == z2))
                out.append(z3.Implies(lt, z1 < z2))
                out.append(z3.Implies(z3.And(z3.Not(eq), z3.Not(lt)), z1 > z2))
        return out

    def explore(self, run_path):
        """Run run_path once per feasible path."""
        self.prefix = []
        while True:
            if self.stats.paths + self.stats.aborted >= self.max_paths:
                raise Inconclusive(f"more than {self.max_paths} paths")
            self.reset()
            Engine.current = self
            try:
                cont = run_path()
            finally:
                Engine.current = None
            if cont is False:
                return
            t = self.trace
            while t and (t[-1][1] or t[-1][0] is False):
                t = t[:-1]
            if not t:
                return
            self.prefix = t[:-1] + [(False, False, None)]


def _engine() -> Engine:
    e = Engine.current
    if e is None:
        raise RuntimeError("symbolic value used outside an exploration")
    return e


# ---------------------------------------------------------------------------------------------
# numeric evaluation of z3 terms


class NumEval:
    """Evaluate z3 terms over floats, giving atoms their real meaning."""

    def __init__(self, env, atoms):
        self.env = env
        self.atoms = atoms
        self.memo = {}

    def name(self, n):
        if n in self.env:
            return self.env[n]
        if n in self.atoms:
            fn, arg = self.atoms[n]
            v = self.sym(arg)
            if fn == "exp":
                r = math.exp(v)
            elif fn == "log":
                r = math.log(v)
            elif fn == "sqrt":
                r = math.sqrt(v) if v >= 0 else math.sqrt(max(v, -0.0)) if v > -1e-12 else math.nan
            elif fn == "lin":
                r = v
            elif fn == "inv":
                r = 1 / v
            elif fn.startswith("round"):
                r = round(v, int(fn[5:]))
            else:
                r = fn_table[fn](v)
            self.env[n] = r
            return r
        self.env[n] = 0.0
        return 0.0

    def sym(self, s):
        if not isinstance(s, Sym):
            return float(s)
        if s.k == "c":
            return float(s.c)
        if s.k == "a":
            return float(s.c) + sum(float(c) * self.name(n) for n, c in s.lin.items())
        v = self.z(s.n)
        for f, p in s.d.values():
            v = v / self.z(f) ** p
        return v

    def z(self, t):
        stack = [t]
        memo = self.memo
        while stack:
            e = stack[-1]
            i = e.get_id()
            if i in memo:
                stack.pop()
                continue
            if z3.is_rational_value(e):
                memo[i] = (e.numerator_as_long() / e.denominator_as_long(), e)
                stack.pop()
                continue
            if z3.is_algebraic_value(e):
                memo[i] = (float(e.approx(20).as_fraction()), e)
                stack.pop()
                continue
            ch = e.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            a = [memo[c.get_id()][0] for c in ch]
            k = e.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED:
                r = self.name(e.decl().name())
            elif k == z3.Z3_OP_ADD:
                r = sum(a)
            elif k == z3.Z3_OP_MUL:
                r = 1.0
                for x in a:
                    r *= x
            elif k == z3.Z3_OP_SUB:
                r = a[0]
                for x in a[1:]:
                    r -= x
            elif k == z3.Z3_OP_UMINUS:
                r = -a[0]
            elif k == z3.Z3_OP_DIV:
                r = a[0] / a[1] if a[1] else math.nan
            elif k == z3.Z3_OP_POWER:
                r = a[0] ** a[1]
            elif k == z3.Z3_OP_ITE:
                r = a[1] if a[0] else a[2]
            elif k == z3.Z3_OP_LE:
                r = a[0] <= a[1]
            elif k == z3.Z3_OP_GE:
                r = a[0] >= a[1]
            elif k == z3.Z3_OP_LT:
                r = a[0] < a[1]
            elif k == z3.Z3_OP_GT:
                r = a[0] > a[1]
            elif k == z3.Z3_OP_EQ:
                r = a[0] == a[1]
            elif k == z3.Z3_OP_DISTINCT:
                r = a[0] != a[1]
            elif k == z3.Z3_OP_AND:
                r = all(a)
            elif k == z3.Z3_OP_OR:
                r = any(a)
            elif k == z3.Z3_OP_NOT:
                r = not a[0]
            elif k == z3.Z3_OP_IMPLIES:
                r = (not a[0]) or a[1]
            elif k == z3.Z3_OP_TRUE:
                r = True
            elif k == z3.Z3_OP_FALSE:
                r = False
            else:
                raise Unsupported(f"numeric evaluation of {e.decl()}")
            memo[i] = (r, e)
            stack.pop()
        return memo[t.get_id()][0]


fn_table = {}


class Printed(str):
    """A printed symbolic number: equal to another one if the printed digits are."""

    def __new__(cls, text, value):
        out = super().__new__(cls, text)
        out.value = value
        return out

    def __eq__(self, o):
        return bool(self.value == o.value) if isinstance(o, Printed) else False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 17


# ---------------------------------------------------------------------------------------------
# symbolic booleans


class SymBool:
    """A truth value that may depend on the symbolic inputs."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return _engine().decide(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        return SymBool(self.z == zbool(o))

    def __ne__(self, o):
        return SymBool(self.z != zbool(o))

    def __hash__(self):
        return hash(("SymBool", self.z.get_id()))

    def __repr__(self):
        return "SymBool"


def zbool(x):
    """z3 term of a Python or symbolic truth value."""
    if isinstance(x, SymBool):
        return x.z
    return z3.BoolVal(bool(x))


def implies(a, b):
    """Symbolic implication."""
    return SymBool(z3.Implies(zbool(a), zbool(b)))


def all_of(xs):
    """Symbolic conjunction (no forking)."""
    return SymBool(z3.And(*[zbool(x) for x in xs]))


def any_of(xs):
    """Symbolic disjunction (no forking)."""
    return SymBool(z3.Or(*[zbool(x) for x in xs]))


# ---------------------------------------------------------------------------------------------
# symbolic reals


def _product(z, p):
    r = None
    for _ in range(p):
        r = z if r is None else r * z
    return r


class Sym:
    """A real number: a constant, an affine form, or a general fraction of polynomials.

    k == 'c': constant c.  k == 'a': c + sum(lin[v] * v).  k == 'g': n / prod(f ** p for f, p in d).
    """

    __slots__ = ("k", "c", "lin", "n", "d", "_z")

    def __init__(self, value=0):
        # Sym(0) must work like float(0): Pyomo asks for it
        e = exact(value)
        if isinstance(e, Sym):
            raise Unsupported("nested symbolic value")
        self.k, self.c, self.lin, self.n, self.d, self._z = "c", e, None, None, None, None

    # -- construction --------------------------------------------------------------------------
    @staticmethod
    def const(c):
        s = Sym.__new__(Sym)
        s.k, s.c, s.lin, s.n, s.d, s._z = "c", Fraction(c), None, None, None, None
        return s

    @staticmethod
    def affine(lin, c):
        lin = {n: v for n, v in lin.items() if v}
        if not lin:
            return Sym.const(c)
        s = Sym.__new__(Sym)
        s.k, s.c, s.lin, s.n, s.d, s._z = "a", c, lin, None, None, None
        return s

    @staticmethod
    def var(name):
        return Sym.affine({name: Fraction(1)}, Fraction(0))

    @staticmethod
    def general(n, d=None):
        s = Sym.__new__(Sym)
        s.k, s.c, s.lin, s.n, s.d, s._z = "g", None, None, n, d or {}, None
        return s

    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return Sym.general(z3.If(x.z, z3.RealVal(1), z3.RealVal(0)))
        e = exact(x)
        return e if isinstance(e, Sym) else Sym.const(e)

    # -- views ---------------------------------------------------------------------------------
    def numer(self):
        """z3 term of the numerator (the whole value if there is no denominator)."""
        if self.k == "g":
            return self.n
        if self._z is None:
            if self.k == "c":
                self._z = _rv(self.c)
            else:
                terms = []
                for n, v in sorted(self.lin.items()):
                    zv = z3.Real(n)
                    terms.append(zv if v == 1 else _rv(v) * zv)
                if self.c:
                    terms.append(_rv(self.c))
                self._z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return self._z

    def dens(self):
        return self.d if self.k == "g" else {}

    def key(self):
        """Hashable canonical key."""
        if self.k == "c":
            return ("c", self.c)
        if self.k == "a":
            return ("a", self.c, tuple(sorted(self.lin.items())))
        e, _ = canonical(self.n)
        return ("g", e.get_id(), tuple(sorted((i, p) for i, (_, p) in self.d.items())))

    @property
    def is_const(self):
        return self.k == "c"

    # -- arithmetic ----------------------------------------------------------------------------
    @staticmethod
    def _operand(o):
        if o.__class__ is Sym:
            return o
        if isinstance(o, (int, float, Fraction)) or isinstance(o, SymBool):
            if o.__class__ is float and not math.isfinite(o):
                raise Unsupported("arithmetic with a non-finite constant")
            return Sym.of(o)
        if hasattr(o, "dtype") and hasattr(o, "item") and getattr(o, "ndim", 1) == 0:
            return Sym.of(o)
        return None

    def __add__(self, o):
        b = Sym._operand(o)
        if b is None:
            return NotImplemented
        a = self
        if a.k == "c" and b.k == "c":
            return Sym.const(a.c + b.c)
        if a.k == "c" and not a.c:
            return b
        if b.k == "c" and not b.c:
            return a
        if a.k != "g" and b.k != "g":
            lin = dict(a.lin) if a.lin else {}
            if b.lin:
                for n, v in b.lin.items():
                    lin[n] = lin.get(n, 0) + v
            return Sym.affine(lin, a.c + b.c)
        ad, bd = a.dens(), b.dens()
        if not ad and not bd:
            return Sym.general(a.numer() + b.numer())
        if {i: p for i, (_, p) in ad.items()} == {i: p for i, (_, p) in bd.items()}:
            return Sym.general(a.numer() + b.numer(), ad)
        lcm = dict(ad)
        for i, (f, p) in bd.items():
            if i not in lcm or lcm[i][1] < p:
                lcm[i] = (f, p)

        def lift(x, xd):
            n = x.numer()
            for i, (f, p) in lcm.items():
                q = p - (xd[i][1] if i in xd else 0)
                if q:
                    n = n * _product(f, q)
            return n

        return Sym.general(lift(a, ad) + lift(b, bd), lcm)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        if self.k == "c":
            return Sym.const(-self.c)
        if self.k == "a":
            return Sym.affine({n: -v for n, v in self.lin.items()}, -self.c)
        return Sym.general(-self.n, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = Sym._operand(o)
        return NotImplemented if b is None else self + (-b)

    def __rsub__(self, o):
        b = Sym._operand(o)
        return NotImplemented if b is None else b + (-self)

    def _named(self):
        """Under linear naming an affine form with several terms becomes one atom."""
        if self.k == "a" and len(self.lin) > 1:
            e = Engine.current
            if e is not None and e.naming == "snap":
                return self._snapped(e)
            if e is not None and e.naming:
                lead = min(self.lin)
                f = self.lin[lead]
                scaled = self if f == 1 else Sym.affine({n: v / f for n, v in self.lin.items()}, self.c / f)
                s, new = e.atom("lin", scaled.key(), scaled)
                if new:
                    e.defs.append(s.numer() == scaled.numer())
                return s if f == 1 else Sym.affine({next(iter(s.lin)): f}, Fraction(0))
        return self

    def _snapped(self, e):
        """As naming, but affine forms that differ by rounding of their coefficients share a name."""
        form = self._representative(e)
        if form.k != "a" or len(form.lin) < max(2, e.naming_min):
            return form
        s, new = e.atom("lin", form.key(), form)
        if new:
            e.defs.append(s.numer() == form.numer())
        return s

    def _representative(self, e):
        """The first affine form seen on this path that differs from this one by rounding only."""
        if self.k != "a":
            return self
        whole = self.key()
        if whole in e.snap_seen:
            return e.snap_seen[whole]
        form = e.snap_seen[whole] = self._first_like(e)
        return form

    def _first_like(self, e):
        big = max(abs(v) for v in self.lin.values())
        tiny = big / 10**10
        lin = {n: v for n, v in self.lin.items() if abs(v) > tiny}
        bucket = e.snap.setdefault(tuple(sorted(lin)), [])
        for f, c0, form in bucket:
            if abs(self.c - c0) <= 100 * tiny and all(abs(v - f[n]) <= tiny for n, v in lin.items()):
                return form
        form = Sym.affine(lin, self.c)
        bucket.append((lin, self.c, form))
        return form

    def __mul__(self, o):
        b = Sym._operand(o)
        if b is None:
            return NotImplemented
        a = self
        if b.k == "c":
            a, b = b, a
        if a.k == "c":
            if not a.c:
                return Sym.const(0)
            if a.c == 1:
                return b
            if b.k == "c":
                return Sym.const(a.c * b.c)
            if b.k == "a":
                return Sym.affine({n: v * a.c for n, v in b.lin.items()}, b.c * a.c)
            return Sym.general(a.numer() * b.n, b.d)
        a, b = a._named(), b._named()
        if a.k != "g" and b.k != "g":
            if len(a.lin) == 1 and len(b.lin) == 1 and not a.c and not b.c:
                (n1, v1), (n2, v2) = next(iter(a.lin.items())), next(iter(b.lin.items()))
                m = z3.Real(n1) * z3.Real(n2)
                return Sym.general(m if v1 * v2 == 1 else _rv(v1 * v2) * m)
            return Sym.general(a.numer() * b.numer())
        d = dict(a.dens())
        for i, (f, p) in b.dens().items():
            d[i] = (f, p + (d[i][1] if i in d else 0))
        return Sym.general(a.numer() * b.numer(), d)

    def __rmul__(self, o):
        return self.__mul__(o)

    def _nonzero_or_raise(self):
        e = _engine()
        cond = self.numer() == 0
        if e.assume_defined:
            s = z3.simplify(cond, som=True)
            if z3.is_true(s):
                raise ZeroDivisionError("division by zero")
            if s.get_id() not in e.known:
                e.keep.append(s)
                e.known[s.get_id()] = False
                e.assume(z3.Not(cond))
            return
        if e.decide(cond):
            raise ZeroDivisionError("division by zero")

    def __truediv__(self, o):
        b = Sym._operand(o)
        if b is None:
            return NotImplemented
        if b.k == "c":
            if not b.c:
                raise ZeroDivisionError("division by zero")
            return self * Sym.const(1 / b.c)
        if self.k == "c" and not self.c:
            b._nonzero_or_raise()
            return self
        b = b._named()
        b._nonzero_or_raise()
        if _engine().reciprocals:
            return self * b._reciprocal()
        scale = Fraction(1)
        if b.k == "a":
            if len(b.lin) == 1 and not b.c:
                ((n, v),) = b.lin.items()
                scale = 1 / v
                f = z3.Real(n)
            else:
                f = b.numer()
        else:
            f = b.n
        f, _ = canonical(f)
        if z3.is_rational_value(f):
            scale = scale / Fraction(f.numerator_as_long(), f.denominator_as_long())
            d = {}
        else:
            d = {f.get_id(): (f, 1)}
        num = self.numer()
        sd = dict(self.dens())
        for i, (f2, p) in b.dens().items():  # 1 / (n / d) = d / n
            q = sd[i][1] if i in sd else 0
            c = min(p, q)
            if c:
                if q == c:
                    del sd[i]
                else:
                    sd[i] = (f2, q - c)
            if p > c:
                num = num * _product(f2, p - c)
        for i, (f2, p) in d.items():
            sd[i] = (f2, p + (sd[i][1] if i in sd else 0))
        if scale != 1:
            num = _rv(scale) * num
        return Sym.general(num, sd)

    def _reciprocal(self):
        """A name for 1 / self (self is known to be non-zero)."""
        e = _engine()
        if self.k == "g" and not self.d:
            # 1 / (f * f) is the square of 1 / f
            f = z3.simplify(self.n)
            if z3.is_mul(f) or z3.is_app_of(f, z3.Z3_OP_POWER):
                r = Sym.const(1)
                for part, p in _factors(f):
                    g = Sym.const(1 / part) if isinstance(part, Fraction) else Sym.general(part)._reciprocal_atom()
                    for _ in range(p):
                        r = r * g
                return r
        return self._reciprocal_atom()

    def _reciprocal_atom(self):
        e = _engine()
        if self.k == "g" and not self.d:
            _, poly = canonical(self.n)
            if poly and poly[0][1] < 0:
                return -(-self)._reciprocal_atom()
        s, new = e.atom("inv", self.key(), self)
        if new:
            z = s.numer()
            prod = z * self.numer()
            if self.dens():
                raise Unsupported("reciprocal of a fraction")
            e.add_axiom(prod == 1)
        return s

    def __rtruediv__(self, o):
        b = Sym._operand(o)
        return NotImplemented if b is None else b / self

    def __pow__(self, k):
        if isinstance(k, Sym):
            if k.k != "c":
                raise Unsupported("symbolic exponent")
            k = k.c
        k = exact(k)
        if isinstance(k, Sym):
            raise Unsupported("symbolic exponent")
        if k.denominator == 2:
            return self.sqrt() ** k.numerator
        if k.denominator != 1:
            raise Unsupported(f"exponent {k}")
        k = k.numerator
        if k < 0:
            return Sym.const(1) / (self ** (-k))
        if k > 64:
            raise Unsupported(f"exponent {k}")
        if self.k == "c":
            return Sym.const(self.c**k)
        if k == 0:
            return Sym.const(1)
        b = self._named()
        r = b
        for _ in range(k - 1):
            r = r * b
        return r

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        if self.k == "c":
            return Sym.const(abs(self.c))
        neg = (self < 0).z
        s = z3.simplify(neg, som=True)
        if z3.is_true(s):
            return -self
        if z3.is_false(s):
            return self
        e = _engine()
        if s.get_id() in e.known:
            return -self if e.known[s.get_id()] else self
        return ite(SymBool(neg), -self, self)

    def sqrt(self):
        if self.k == "c":
            if self.c < 0:
                raise ValueError("math domain error")
            a, b = math.isqrt(self.c.numerator), math.isqrt(self.c.denominator)
            if a * a == self.c.numerator and b * b == self.c.denominator:
                return Sym.const(Fraction(a, b))
            return _sqrt_const(self.c)
        e = _engine()
        if self.k == "g" and not self.d:
            h = _square_of_positive(self.n)
            if h is not None:
                c, name = h
                return Sym.const(c).sqrt() * Sym.var(name)
        s, new = e.atom("sqrt", self.key(), self)
        if new:
            neg = self < 0
            if e.assume_defined:
                e.assume(z3.Not(neg.z))
            elif e.decide(neg.z):
                del e.atom_keys[("sqrt", self.key())]
                raise ValueError("math domain error")
            z = s.numer()
            e.add_axiom(z >= 0)
            prod = z * z
            for f, p in self.dens().values():
                prod = prod * _product(f, p)
            e.add_axiom(prod == self.numer())
        return s

    def exp(self):
        if self.k == "a" and Engine.current is not None and Engine.current.naming == "snap":
            self = self._representative(Engine.current)
        if self.k == "c" and not self.c:
            return Sym.const(1)
        e = _engine()
        s, new = e.atom("exp", self.key(), self)
        if new:
            z = s.numer()
            e.add_axiom(z > 0)
            le, ge = (self <= 0), (self >= 0)
            e.add_axiom(z3.Implies(zbool(le), z <= 1))
            e.add_axiom(z3.Implies(zbool(ge), z >= 1))
            e.add_axiom(zbool(s >= self + 1))
            # exp(x) > 1 + x and exp(x) (1 - x) < 1 for x != 0
            e.add_axiom(zbool(s * (1 - self) <= 1))
            ne = zbool(self != 0)
            e.add_axiom(z3.Implies(ne, zbool(s > self + 1)))
            e.add_axiom(z3.Implies(ne, zbool(s * (1 - self) < 1)))
        return s

    def log(self):
        if self.k == "a" and Engine.current is not None and Engine.current.naming == "snap":
            self = self._representative(Engine.current)
        if self.k == "c":
            if self.c <= 0:
                raise ValueError("math domain error")
            if self.c == 1:
                return Sym.const(0)
        e = _engine()
        s, new = e.atom("log", self.key(), self)
        if new:
            bad = self <= 0
            if e.assume_defined:
                e.assume(z3.Not(zbool(bad)))
            elif bool(bad):
                del e.atom_keys[("log", self.key())]
                raise ValueError("math domain error")
            e.add_axiom(zbool(s <= self - 1))
            e.add_axiom(z3.Implies(zbool(self >= 1), s.numer() >= 0))
            e.add_axiom(z3.Implies(zbool(self <= 1), s.numer() <= 0))
            e.add_axiom(z3.Implies(zbool(self != 1), zbool(s < self - 1)))
        return s

    # -- comparisons ---------------------------------------------------------------------------
    def _cmp(self, o, op, cop):
        if isinstance(o, float) and not math.isfinite(o):
            return cop(0.0, o)
        b = Sym._operand(o)
        if b is None:
            return NotImplemented
        diff = self - b
        if diff.k == "c":
            return cop(diff.c, 0)
        n = diff.numer()
        for f, p in diff.dens().values():
            if p % 2:
                n = n * f
        return SymBool(op(n, z3.RealVal(0)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return False
        b = Sym._operand(o)
        if b is None:
            return NotImplemented
        diff = self - b
        if diff.k == "c":
            return diff.c == 0
        return SymBool(diff.numer() == 0)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.z))

    def __hash__(self):
        if self.k == "c":
            return hash(self.c)
        return 7

    def __bool__(self):
        return bool(self != 0)

    # -- rounding (splits into one path per integer value) --------------------------------------
    def _concretise(self, kind):
        if self.k == "c":
            return kind(self.c)
        e = _engine()
        # a deterministic order that does not depend on the path: ask for the integer by asking
        # for a model of the current path condition, so every path gets a feasible value
        tried = 0
        while True:
            tried += 1
            if tried > 200:
                raise Inconclusive("too many integer values of a symbolic expression")
            pos = len(e.trace)
            n = e.prefix[pos][2] if pos < len(e.prefix) else kind(self._model_value())
            e.trace.append((True, True, n))
            if kind is math.floor:
                c = (self >= n) & (self < n + 1)
            elif kind is math.ceil:
                c = (self > n - 1) & (self <= n)
            elif kind is round:
                lo_ok = (self >= Fraction(2 * n - 1, 2)) if n % 2 == 0 else (self > Fraction(2 * n - 1, 2))
                hi_ok = (self <= Fraction(2 * n + 1, 2)) if n % 2 == 0 else (self < Fraction(2 * n + 1, 2))
                c = lo_ok & hi_ok
            else:  # int: towards zero
                if n > 0:
                    c = (self >= n) & (self < n + 1)
                elif n < 0:
                    c = (self > n - 1) & (self <= n)
                else:
                    c = (self > -1) & (self < 1)
            if bool(c):
                return n

    def _model_value(self):
        e = _engine()
        r, m = e.solve(e.pc + e.axioms + e.defs)
        if r == "unsat":
            raise PathAbort()
        if r != "sat":
            raise Inconclusive("no model for a symbolic integer")
        v = m.eval(self.numer(), model_completion=True)
        num = _model_fraction(v)
        for f, p in self.dens().values():
            num = num / _model_fraction(m.eval(f, model_completion=True)) ** p
        return num

    def __int__(self):
        return self._concretise(int)

    __trunc__ = __int__

    def __floor__(self):
        return self._concretise(math.floor)

    def __ceil__(self):
        return self._concretise(math.ceil)

    def __round__(self, nd=None):
        if nd:
            return self._rounded(nd)
        return self._concretise(round)

    def __floordiv__(self, o):
        return math.floor(self / o)

    def __rfloordiv__(self, o):
        return math.floor(Sym.of(o) / self)

    def __mod__(self, o):
        return self - (self // o) * o

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __float__(self):
        if self.k == "c":
            return float(self.c)
        raise Unsupported("float() of a symbolic value")

    def __index__(self):
        if self.k == "c" and self.c.denominator == 1:
            return self.c.numerator
        raise TypeError("'float' object cannot be interpreted as an integer")

    def is_integer(self):
        return bool(self == self._concretise(math.floor))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if self.k == "c":
            return repr(float(self.c))
        return f"Sym({str(self.numer())[:120]}{'/...' if self.dens() else ''})"

    def __format__(self, spec):
        # a printed precision loses digits
        if self.k == "c":
            return format(float(self.c), spec)
        m = re.fullmatch(r"\.?(\d*)[fF]", spec[spec.find(".") :] if "." in spec else spec)
        if m and Engine.current is not None:
            return Printed(f"Rounded({self!r})", self._rounded(int(m[1] or 6)))
        return f"Rounded({self!r})" if spec else repr(self)

    def _rounded(self, nd):
        """A number that differs from this one by half a unit of the last digit at most."""
        if self.k == "c":
            return Sym.const(Fraction(round(self.c, nd)))
        e = _engine()
        s, new = e.atom(f"round{nd}", self.key(), self)
        if new:
            half = Fraction(1, 2 * 10**nd)
            e.add_axiom(((s - self <= half) & (s - self >= -half)).z)
        return s


def _model_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return v.approx(30).as_fraction()
    raise Inconclusive(f"model value {v}")


def _sqrt_const(c: Fraction):
    """sqrt of a positive rational that is not a perfect square."""
    e = _engine()
    s, new = e.atom("sqrt", ("c", c), Sym.const(c))
    if new:
        scale = 10**24
        r = math.isqrt(c.numerator * scale * scale // c.denominator)
        z = s.numer()
        e.add_axiom(z > _rv(Fraction(r, scale)))
        e.add_axiom(z < _rv(Fraction(r + 1, scale)))
        e.add_axiom(z * z == _rv(c))
    return s


def polynomial(t, limit=None, expand=True):
    """Coefficients {monomial: Fraction} of a z3 term, or None if it is no polynomial.

    With a limit, only the first so many terms are looked at; with expand off, terms with products of sums
    count as no polynomials.
    """
    if expand:
        t = z3.simplify(t, som=True, som_blowup=10**7)
    # the plain C interface: the terms are kept alive by t
    core, ctx = z3.z3core, t.ctx.ref()
    leaves = {}

    def leaf(a):
        """(Fraction, None) or (None, name) or None for an application."""
        k = core.Z3_get_ast_id(ctx, a)
        if k not in leaves:
            if core.Z3_is_numeral_ast(ctx, a):
                leaves[k] = (Fraction(core.Z3_get_numeral_string(ctx, a)), None)
            elif core.Z3_get_app_num_args(ctx, core.Z3_to_app(ctx, a)) == 0:
                d = core.Z3_get_app_decl(ctx, core.Z3_to_app(ctx, a))
                leaves[k] = (None, core.Z3_get_symbol_string(ctx, core.Z3_get_decl_name(ctx, d)))
            else:
                leaves[k] = None
        return leaves[k]

    def args(a):
        a = core.Z3_to_app(ctx, a)
        return [core.Z3_get_app_arg(ctx, a, k) for k in range(core.Z3_get_app_num_args(ctx, a))]

    def kind(a):
        return core.Z3_get_decl_kind(ctx, core.Z3_get_app_decl(ctx, core.Z3_to_app(ctx, a)))

    root = t.as_ast()
    top = args(root) if leaf(root) is None and kind(root) == z3.Z3_OP_ADD else [root]
    out = {}
    for m in top[:limit]:
        c, key = Fraction(1), {}
        todo = [(m, 1)]
        while todo:
            u, p = todo.pop()
            v = leaf(u)
            if v is None:
                op = kind(u)
                if op == z3.Z3_OP_MUL:
                    todo.extend((x, p) for x in args(u))
                    continue
                if op == z3.Z3_OP_POWER:
                    base, exp = args(u)
                    q = leaf(exp)
                    if q and q[0] is not None and q[0].denominator == 1 and q[0] > 0:
                        todo.append((base, p * int(q[0])))
                        continue
                return None
            if v[0] is not None:
                c *= v[0] ** p
            else:
                key[v[1]] = key.get(v[1], 0) + p
        key = tuple(sorted(key.items()))
        out[key] = out.get(key, 0) + c
    return out


def canonical(t, most=300):
    """The first term seen on this path that is the same polynomial, and its coefficients.

    Terms of more than so many monomials are only simplified; they have no coefficients.
    """
    e = _engine()
    t = z3.simplify(t, som=True)
    if t.get_id() in e.canon_ids:
        return e.canon_ids[t.get_id()]
    e.keep.append(t)
    out = (t, None)
    if t.num_args() <= most:
        p = polynomial(t, expand=False)
        if p is not None:
            p = tuple(sorted((m, v) for m, v in p.items() if v))
            out = e.canon.setdefault(p, (t, p))
    e.canon_ids[t.get_id()] = out
    return out


def _factors(t):
    """Factors of a product as (Fraction or term, exponent)."""
    out, todo = [], [(t, 1)]
    while todo:
        u, p = todo.pop()
        if z3.is_rational_value(u):
            out.append((Fraction(u.numerator_as_long(), u.denominator_as_long()), p))
        elif z3.is_mul(u):
            todo.extend((x, p) for x in u.children())
        elif z3.is_app_of(u, z3.Z3_OP_POWER) and z3.is_rational_value(u.arg(1)):
            q = u.arg(1).as_fraction()
            if q.denominator != 1 or q <= 0:
                out.append((u, p))
            else:
                todo.append((u.arg(0), p * int(q)))
        else:
            out.append((u, p))
    return out


def _square_of_positive(n):
    """Recognise c * v * v with c a positive rational and v a variable known to be positive."""
    t = z3.simplify(n, som=True)
    c, names = Fraction(1), []
    todo = [t]
    while todo:
        u = todo.pop()
        if z3.is_rational_value(u):
            c *= Fraction(u.numerator_as_long(), u.denominator_as_long())
        elif z3.is_mul(u):
            todo.extend(u.children())
        elif z3.is_app_of(u, z3.Z3_OP_POWER) and z3.is_rational_value(u.arg(1)):
            if u.arg(1).as_fraction() != 2:
                return None
            todo.extend([u.arg(0), u.arg(0)])
        elif z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.append(u.decl().name())
        else:
            return None
    if len(names) != 2 or names[0] != names[1] or c <= 0:
        return None
    lo = _engine().bounds.get(names[0], (None, None))[0]
    if lo is None or lo < 0:
        return None
    return c, names[0]


def ite(c, a, b):
    """If-then-else without forking."""
    if isinstance(c, bool):
        return a if c else b
    a, b = Sym.of(a), Sym.of(b)
    ad = {i: p for i, (_, p) in a.dens().items()}
    bd = {i: p for i, (_, p) in b.dens().items()}
    if ad == bd:
        return Sym.general(z3.If(zbool(c), a.numer(), b.numer()), a.dens())
    d = dict(a.dens())
    for i, (f, p) in b.dens().items():
        if i not in d or d[i][1] < p:
            d[i] = (f, p)

    def lift(x, xd):
        n = x.numer()
        for i, (f, p) in d.items():
            q = p - xd.get(i, 0)
            if q:
                n = n * _product(f, q)
        return n

    return Sym.general(z3.If(zbool(c), lift(a, ad), lift(b, bd)), d)


def smax(*xs):
    """Maximum without forking."""
    r = xs[0]
    for x in xs[1:]:
        r = ite(x > r, x, r)
    return r


def smin(*xs):
    """Minimum without forking."""
    r = xs[0]
    for x in xs[1:]:
        r = ite(x < r, x, r)
    return r


# ---------------------------------------------------------------------------------------------
# directional derivatives


class Dual:
    """a + b * eps with eps^2 = 0: carries an exact directional derivative."""

    __slots__ = ("a", "b")

    def __init__(self, a=0, b=0):
        self.a, self.b = a, b

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(x, 0)

    def __add__(self, o):
        if not _dualable(o):
            return NotImplemented
        o = Dual.of(o)
        return Dual(self.a + o.a, self.b + o.b)

    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.a, -self.b)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not _dualable(o):
            return NotImplemented
        o = Dual.of(o)
        return Dual(self.a - o.a, self.b - o.b)

    def __rsub__(self, o):
        return Dual.of(o) - self

    def __mul__(self, o):
        if not _dualable(o):
            return NotImplemented
        o = Dual.of(o)
        return Dual(self.a * o.a, self.a * o.b + self.b * o.a)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _dualable(o):
            return NotImplemented
        o = Dual.of(o)
        if isinstance(o.b, int) and o.b == 0:
            return Dual(self.a / o.a, self.b / o.a)
        return Dual(self.a / o.a, (self.b * o.a - self.a * o.b) / (o.a * o.a))

    def __rtruediv__(self, o):
        return Dual.of(o) / self

    def __pow__(self, k):
        if isinstance(k, Dual):
            raise Unsupported("dual exponent")
        kk = exact(k)
        if kk == 0:
            return Dual(1, 0)
        if kk.denominator == 1:
            kk = kk.numerator
            return Dual(self.a**kk, (self.a ** (kk - 1)) * kk * self.b)
        return Dual(self.a**k, float(kk) * self.a ** (k - 1) * self.b)

    def exp(self):
        e = _unary("exp", self.a)
        return Dual(e, e * self.b)

    def log(self):
        return Dual(_unary("log", self.a), self.b / self.a)

    def sqrt(self):
        r = _unary("sqrt", self.a)
        if _is_zero(r):
            return Root(self)
        return Dual(r, self.b / (2 * r))

    def __abs__(self):
        return self if self.a >= 0 else -self

    def __lt__(self, o):
        return self.a < Dual.of(o).a

    def __le__(self, o):
        return self.a <= Dual.of(o).a

    def __gt__(self, o):
        return self.a > Dual.of(o).a

    def __ge__(self, o):
        return self.a >= Dual.of(o).a

    def __eq__(self, o):
        return self.a == Dual.of(o).a

    def __hash__(self):
        return 11

    def __repr__(self):
        return f"Dual({self.a!r}, {self.b!r})"


def _is_zero(x):
    return (x.k == "c" and x.c == 0) if isinstance(x, Sym) else x == 0


class Root(Dual):
    """The root of a smooth non-negative number that vanishes at this point.

    It has no derivative here, but its powers from the square on do, and so do its products with
    other numbers that vanish here.
    """

    __slots__ = ("rad",)

    def __init__(self, rad):
        self.a, self.rad = rad.a, rad

    @property
    def b(self):
        raise ZeroDivisionError("derivative of a root at zero")

    def __pow__(self, k):
        k = exact(k)
        if k == 2:
            return self.rad
        if k > 2:
            return Dual(self.a, 0)
        return Dual.__pow__(self, k)

    def __mul__(self, o):
        if isinstance(o, Root) and o.rad is self.rad:
            return self.rad
        if _dualable(o) and _is_zero(Dual.of(o).a):
            return Dual(self.a, 0)
        return Dual.__mul__(self, o)

    __rmul__ = __mul__


def _dualable(o):
    return isinstance(o, (Dual, Sym, int, float, Fraction)) or (
        hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0
    )


def _unary(fn, x):
    if isinstance(x, Sym):
        return getattr(x, fn)()
    return getattr(math, fn)(x)
