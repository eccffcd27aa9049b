"""Numbers with symbolic rounding errors.

`Noisy` models a float: every arithmetic operation returns the exact result plus a fresh unknown
of at most 2^-52 times the largest possible magnitude of the result.  The value is kept as an
affine form over these unknowns (products and roots are linearised with a further bounded unknown),
so branch conditions are linear and the solver decides them for all rounding errors at once.
"""

from __future__ import annotations

import math
from fractions import Fraction

ULP = Fraction(1, 2**52)


def _up(x: Fraction) -> Fraction:
    """A short rational that is at least x >= 0."""
    if not x:
        return Fraction(0)
    f = float(x)
    return Fraction(math.ldexp(math.ceil(math.ldexp(math.frexp(f)[0], 20)) + 1, math.frexp(f)[1] - 20))


def _isqrt(x: Fraction, up: bool) -> Fraction:
    """A rational bound of sqrt(x)."""
    if x <= 0:
        return Fraction(0)
    k = 10**60
    r = math.isqrt(x.numerator * k * k // x.denominator)
    return Fraction(r + 1 if up else r, k)


class Noisy:
    """c plus the sum of lin[v] * v over unknowns v in [-1, 1]."""

    __slots__ = ("c", "lin")
    always_ask = False

    def __init__(self, c, lin=None):
        self.c, self.lin = c, lin or {}

    @staticmethod
    def of(x):
        return x if isinstance(x, Noisy) else Noisy(Fraction(x))

    def rad(self):
        return sum((abs(v) for v in self.lin.values()), Fraction(0))

    def sym(self):
        """The value as an encoded real; states the bounds of its unknowns."""
        from vt.engine import Sym, _engine, z3

        e = _engine()
        if getattr(e, "noise_axioms", None) is not e.axioms:
            e.noise_axioms, e.noise_stated = e.axioms, set()
        for n in self.lin:
            if n not in e.noise_stated:
                e.noise_stated.add(n)
                e.add_axiom(z3.And(z3.Real(n) >= -1, z3.Real(n) <= 1))
        return Sym.affine(dict(self.lin), self.c)

    @staticmethod
    def fresh(r):
        """A form for an unknown of absolute value at most r."""
        from vt.engine import _engine

        e = _engine()
        if getattr(e, "noise_path", None) is not e.axioms:
            e.noise_path, e.noise_count = e.axioms, 0
        e.noise_count += 1
        return {f"@e{e.noise_count}": _up(r)}

    def rounded(self, extra=Fraction(0)):
        m = (abs(self.c) + self.rad()) * ULP + extra
        if not m:
            return self
        lin = dict(self.lin)
        lin.update(Noisy.fresh(m))
        return Noisy(self.c, lin)

    @staticmethod
    def ok(o):
        return isinstance(o, (Noisy, int, float, Fraction))

    def __add__(self, o):
        if not Noisy.ok(o):
            return NotImplemented
        o = Noisy.of(o)
        if not o.lin and not o.c:
            return self
        if not self.lin and not self.c:
            return o
        lin = dict(self.lin)
        for n, v in o.lin.items():
            lin[n] = lin.get(n, 0) + v
        return Noisy(self.c + o.c, {n: v for n, v in lin.items() if v}).rounded()

    __radd__ = __add__

    def __neg__(self):
        return Noisy(-self.c, {n: -v for n, v in self.lin.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not Noisy.ok(o):
            return NotImplemented
        return self + (-Noisy.of(o))

    def __rsub__(self, o):
        return Noisy.of(o) + (-self)

    def __mul__(self, o):
        if not Noisy.ok(o):
            return NotImplemented
        o2 = Noisy.of(o)
        if o2 is self or (o2.c == self.c and o2.lin == self.lin):
            # a square is not negative: keep that, it is what the norm needs
            r = self.rad()
            lo = max(abs(self.c) - r, Fraction(0)) ** 2
            hi = (abs(self.c) + r) ** 2
            if lo == hi:
                return Noisy(lo).rounded()
            return Noisy((lo + hi) / 2, Noisy.fresh((hi - lo) / 2 * (1 + 4 * ULP)))
        lin = {}
        for n, v in self.lin.items():
            lin[n] = lin.get(n, 0) + v * o2.c
        for n, v in o2.lin.items():
            lin[n] = lin.get(n, 0) + v * self.c
        lin = {n: v for n, v in lin.items() if v}
        q = Noisy(self.c * o2.c, lin)
        if abs(o2.c) == 1 and not o2.lin or abs(self.c) == 1 and not self.lin:
            return q
        return q.rounded(self.rad() * o2.rad())

    __rmul__ = __mul__

    def inv(self):
        r = self.rad()
        if abs(self.c) <= r:
            raise ZeroDivisionError("the divisor may be zero")
        a, b = 1 / (self.c - r), 1 / (self.c + r)
        m, h = (a + b) / 2, abs(a - b) / 2
        return Noisy(m, Noisy.fresh(h)) if h else Noisy(m)

    def __truediv__(self, o):
        if not Noisy.ok(o):
            return NotImplemented
        o = Noisy.of(o)
        if not o.lin:
            if o.c == 0:
                raise ZeroDivisionError("float division by zero")
            return Noisy(self.c / o.c, {n: v / o.c for n, v in self.lin.items()}).rounded()
        if o.c == self.c and o.lin == self.lin:
            return Noisy(Fraction(1))
        return self * o.inv()

    def __rtruediv__(self, o):
        return Noisy.of(o) / self

    def __pow__(self, k):
        if not isinstance(k, int) or k < 1:
            return NotImplemented
        r = self
        for _ in range(k - 1):
            r = r * self
        return r

    def sqrt(self):
        r = self.rad()
        lo, hi = _isqrt(self.c - r, False), _isqrt(self.c + r, True)
        if hi == 0:
            return Noisy(Fraction(0))
        return Noisy((lo + hi) / 2, Noisy.fresh((hi - lo) / 2 + hi * ULP))

    def __abs__(self):
        if abs(self.c) > self.rad():
            return self if self.c > 0 else -self
        m = (abs(self.c) + self.rad()) / 2
        return Noisy(m, Noisy.fresh(m)) if m else self

    def _cmp(self, o, op):
        if not Noisy.ok(o):
            return NotImplemented
        d = Noisy.of(o)
        lin = dict(self.lin)
        for n, v in d.lin.items():
            lin[n] = lin.get(n, 0) - v
        lin = {n: v for n, v in lin.items() if v}
        diff = Noisy(self.c - d.c, lin)
        # settled by the bounds of the unknowns alone: no need to ask the solver
        if abs(diff.c) > diff.rad() and not Noisy.always_ask:
            return {"__lt__": diff.c < 0, "__le__": diff.c < 0, "__gt__": diff.c > 0,
                    "__ge__": diff.c > 0, "__eq__": False, "__ne__": True}[op]
        return getattr(diff.sym(), op)(0)

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, "__eq__") if Noisy.ok(o) else False

    def __ne__(self, o):
        return self._cmp(o, "__ne__") if Noisy.ok(o) else True

    def __hash__(self):
        return 13

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        return int(self.sym())

    __trunc__ = __int__

    def __floor__(self):
        return math.floor(self.sym())

    def __ceil__(self):
        return math.ceil(self.sym())

    def __round__(self, nd=None):
        return round(self.sym(), nd)

    def __floordiv__(self, o):
        return math.floor(self / o)

    def __rfloordiv__(self, o):
        return math.floor(Noisy.of(o) / self)

    def __mod__(self, o):
        return self - (self // o) * o

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"Noisy({float(self.c)!r})"


def scale_choice(c, name, options):
    """One of the given rationals, as a float with symbolic rounding in the symbolic run."""
    p, q = c.choice(name, options)
    if not c.symbolic:
        return p / q
    return Noisy(Fraction(p / q))


def noisy_real(c, name, lo, hi):
    """A real input between lo and hi, in this representation."""
    u = c.real(name, -1, 1)
    if not c.symbolic:
        return (lo + hi) / 2 + (hi - lo) / 2 * u
    lo, hi = Fraction(lo), Fraction(hi)
    return Noisy((lo + hi) / 2, {name: (hi - lo) / 2})


def mid(x):
    """The centre of a noisy value (a hint only)."""
    return float(x.c) if isinstance(x, Noisy) else float(x)
