"""Stand-ins for the C-implemented leaves that cannot be executed symbolically.

`install()` must run before the package under test is imported.  Every patched function behaves
exactly like the original unless one of its arguments is symbolic.  `install_solver()` registers
the stand-in for the external optimiser (ipopt is not installed here): see `StubSolver`.
"""

import builtins
import math
import sys

from vt.boot import load_z3, use_repo


def _is_sym(x):
    from vt.engine import Sym, Dual

    return isinstance(x, (Sym, Dual))


def _is_noisy(x):
    from vt.noise import Noisy

    return isinstance(x, Noisy)


def _wrap1(orig, meth):
    def f(x, *rest, **kw):
        if (_is_sym(x) or _is_noisy(x)) and not rest and not kw:
            return getattr(x, meth)()
        return orig(x, *rest, **kw)

    f.__name__ = getattr(orig, "__name__", "f")
    f.__wrapped__ = orig
    return f


def _flat(a):
    import numpy as np

    if isinstance(a, np.ndarray):
        return list(a.flat) if a.dtype == object else None
    if isinstance(a, (list, tuple)):
        out = []
        for x in a:
            if isinstance(x, (list, tuple, np.ndarray)):
                sub = _flat(x)
                if sub is None:
                    sub = list(np.asarray(x).flat)
                out.extend(sub)
            else:
                out.append(x)
        return out
    return None


def _wrap_extreme(orig, pick):
    def f(*args, **kw):
        if not kw:
            xs = args
            if len(args) == 1:
                xs = args[0]
                if not isinstance(xs, (list, tuple)):
                    xs = list(xs)
            if builtins_any(_is_sym(x) for x in xs):
                if builtins_all(isinstance(x, (int, float)) or _is_sym(x) for x in xs):
                    return _extreme(pick, xs)
            return orig(xs) if len(args) == 1 else orig(*xs)
        return orig(*args, **kw)

    f.__wrapped__ = orig
    return f


builtins_any, builtins_all = any, all


def _extreme(pick, xs):
    """Infinite bounds next to symbolic values do not split the path either."""
    finite = [x for x in xs if not isinstance(x, float) or math.isfinite(x)]
    if len(finite) == len(xs):
        return pick(*xs)
    wins = -math.inf if pick(0.0, 1.0) == 0.0 else math.inf
    if builtins_any(isinstance(x, float) and math.isnan(x) for x in xs):
        raise _unsupported("extreme of not-a-number")
    return wins if builtins_any(isinstance(x, float) and x == wins for x in xs) else pick(*finite)


def _unsupported(what):
    from vt.engine import Unsupported

    return Unsupported(what)


def _wrap_np_extreme(orig, pick):
    def f(a, *rest, **kw):
        if not rest and not kw:
            xs = _flat(a)
            if xs and builtins_any(_is_sym(x) for x in xs):
                return _extreme(pick, xs)
        if set(kw) <= {"axis"} and len(rest) + len(kw) == 1:
            import numpy as np

            axis = rest[0] if rest else kw["axis"]
            b = np.asarray(a)
            if axis is None:
                return f(b)
            if b.dtype == object and isinstance(axis, int) and b.ndim > 1:
                return np.apply_along_axis(lambda v: np.array(f(v), dtype=object), axis, b)
        if type(a).__name__ == "Objects":
            import numpy as np

            a = a.view(np.ndarray)
        return orig(a, *rest, **kw)

    f.__wrapped__ = orig
    return f


_installed = False


def install():
    """Patch the numeric leaves; idempotent."""
    global _installed
    if _installed:
        return
    _installed = True
    load_z3()
    use_repo()
    import numpy as np

    from vt import engine
    from vt.engine import Sym, smax, smin

    for name, meth in (("sqrt", "sqrt"), ("exp", "exp"), ("log", "log"), ("fabs", "__abs__")):
        setattr(math, name, _wrap1(getattr(math, name), meth))
    orig_hypot = math.hypot

    def hypot(*xs):
        if builtins_any(_is_noisy(x) for x in xs):
            return sum(x * x for x in xs).sqrt()
        if builtins_any(_is_sym(x) for x in xs):
            return sum((x * x for x in xs), Sym.const(0)).sqrt()
        return orig_hypot(*xs)

    math.hypot = hypot
    orig_isclose = math.isclose

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if _is_noisy(a) or _is_noisy(b):
            d, m = abs(a - b), max(abs(a), abs(b))
            return bool(d <= rel_tol * m) or bool(d <= abs_tol)
        if _is_sym(a) or _is_sym(b):
            return abs(a - b) <= smax(rel_tol * smax(abs(a), abs(b)), Sym.of(abs_tol))
        return orig_isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    math.isclose = isclose
    orig_isfinite, orig_isnan = math.isfinite, math.isnan
    math.isfinite = lambda x: True if _is_sym(x) else orig_isfinite(x)
    math.isnan = lambda x: False if _is_sym(x) else orig_isnan(x)

    builtins.max = _wrap_extreme(builtins.max, smax)
    builtins.min = _wrap_extreme(builtins.min, smin)
    for name in ("max", "amax"):
        setattr(np, name, _wrap_np_extreme(getattr(np, name), smax))
    for name in ("min", "amin"):
        setattr(np, name, _wrap_np_extreme(getattr(np, name), smin))

    from vt import npstubs

    npstubs.install(np)

    import pyomo.environ as pyo
    from pyomo.common.numeric_types import RegisterNumericType
    from pyomo.core.base.range import NumericRange

    RegisterNumericType(Sym)
    t = NumericRange._types_comparable_to_int
    if isinstance(t, set):
        t.add(Sym)
    else:
        NumericRange._types_comparable_to_int = set(t) | {Sym}
    for name, meth in (("sqrt", "sqrt"), ("exp", "exp"), ("log", "log")):
        setattr(pyo, name, _wrap1(getattr(pyo, name), meth))
    # setting a variable outside its domain or bounds only logs a warning: do not split paths on it
    from pyomo.core.base import var as _pvar

    data = getattr(_pvar, "_GeneralVarData", None) or _pvar.VarData
    set_value = data.set_value
    data.set_value = lambda self, val, skip_validation=False: set_value(self, val, True)
    engine.PATCHED = True


# ---------------------------------------------------------------------------------------------
# the optimiser


class SolverHook:
    """What the next call of the stand-in solver does (set by the harness)."""

    on_solve = None


class StubSolver:
    """Stands for the external non-linear solver.

    Its contract: a call returns with some values in the variables of the model that are not fixed.
    The harness' hook chooses those values (usually: arbitrary values between the variable's
    bounds), so a statement checked with it holds whatever the optimiser finds.
    """

    def __init__(self, *a, **kw):
        self.options = {}

    def solve(self, model, *a, **kw):
        if SolverHook.on_solve is not None:
            SolverHook.on_solve(model)
        return {"Solver": [{"Status": "ok", "Termination condition": "optimal"}]}

    def available(self, exception_flag=True):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def install_solver():
    """Make pyo.SolverFactory('ipopt') return the stand-in."""
    import pyomo.environ as pyo

    if getattr(pyo.SolverFactory, "_vt", False):
        return
    try:
        pyo.SolverFactory.unregister("ipopt")
    except Exception:  # noqa: BLE001
        pass
    pyo.SolverFactory.register("ipopt", doc="stand-in")(StubSolver)
    pyo.SolverFactory._vt = True
