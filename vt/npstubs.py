"""numpy and math functions that only accept floats, extended to symbolic values.

Each replacement calls the original unless one of its arguments is (or contains) a symbolic value,
or unless the package under test allocates a float array during a symbolic execution: such an array
has to be able to hold symbolic values, so it gets the dtype object.  The package works the same
with either.
"""

import math
import sys

from vt.engine import Engine, Sym, smax, smin

PACKAGE = "tvemoves_rufbad"


def _is_sym(x):
    return x.__class__ is Sym


def _objects(np, *args):
    """Whether one of the arguments is symbolic or an array of objects."""
    for a in args:
        if _is_sym(a):
            return True
        if isinstance(a, np.ndarray):
            if a.dtype == object:
                return True
        elif isinstance(a, (list, tuple)) and _objects(np, *a):
            return True
    return False


def _has_sym(np, a):
    if _is_sym(a):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(_is_sym(x) for x in a.flat)
    if isinstance(a, (list, tuple)):
        return any(_has_sym(np, x) for x in a)
    return False


def _floats(np, a):
    """An array of objects without symbolic values, as floats."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a.astype(float)
    return a


def _from_package(depth=2):
    name = sys._getframe(depth).f_globals.get("__name__", "")
    return name == PACKAGE or name.startswith(PACKAGE + ".")


class _Ufunc:
    """A replacement that still has the attributes (reduce, outer, ...) of the original."""

    def __init__(self, f, orig, fold=None):
        self._f, self.__wrapped__ = f, orig
        if fold is not None:
            self.reduce = fold

    def __call__(self, *args, **kw):
        return self._f(*args, **kw)

    def __getattr__(self, name):
        return getattr(self.__dict__["__wrapped__"], name)


def _elementwise(np, orig, one, out_dtype=None):
    def f(*args, **kw):
        if kw or not _objects(np, *args):
            return orig(*args, **kw)
        if not any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
            return one(*args)
        arrays = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in args])
        out = np.empty(arrays[0].shape, dtype=out_dtype or object)
        for k in np.ndindex(*out.shape):
            out[k] = one(*[a[k] for a in arrays])
        return out

    return _Ufunc(f, orig)


def close(a, b, rtol, atol):
    """numpy's |a - b| <= atol + rtol |b|."""
    return bool(abs(a - b) <= atol + rtol * abs(b))


def install(np):
    for name, one in (
        ("sqrt", math.sqrt),
        ("exp", math.exp),
        ("log", math.log),
        ("square", lambda x: x * x),
        ("reciprocal", lambda x: 1 / x),
        ("isfinite", math.isfinite),
        ("isnan", math.isnan),
        ("isinf", lambda x: False if _is_sym(x) else math.isinf(x)),
        ("hypot", math.hypot),
        ("sign", lambda x: 1.0 if x > 0 else -1.0 if x < 0 else 0.0),
        ("floor", math.floor),
        ("ceil", math.ceil),
        ("rint", round),
        ("maximum", lambda a, b: smax(a, b)),
        ("minimum", lambda a, b: smin(a, b)),
        ("fmax", lambda a, b: smax(a, b)),
        ("fmin", lambda a, b: smin(a, b)),
        ("abs", abs),
        ("absolute", abs),
        ("fabs", abs),
        ("power", lambda a, b: a**b),
        ("float_power", lambda a, b: a**b),
    ):
        out = bool if name.startswith("is") else None
        setattr(np, name, _elementwise(np, getattr(np, name), one, out))

    def folding(uf, extreme):
        def fold(a, axis=0, *rest, **kw):
            if rest or kw or not _objects(np, a):
                return uf.__wrapped__.reduce(a, axis, *rest, **kw)
            a = np.asarray(a)
            return extreme(a) if a.ndim == 1 else extreme(a, axis=axis)

        uf.reduce = fold

    for name in ("maximum", "fmax"):
        folding(getattr(np, name), np.max)
    for name in ("minimum", "fmin"):
        folding(getattr(np, name), np.min)

    class Objects(np.ndarray):
        """Arrays of the package: methods written in C that compare the entries."""

        def max(self, axis=None, *rest, **kw):
            if rest or kw or self.dtype != object:
                return self.view(np.ndarray).max(axis, *rest, **kw)
            return np.max(self.view(np.ndarray), axis=axis)

        def min(self, axis=None, *rest, **kw):
            if rest or kw or self.dtype != object:
                return self.view(np.ndarray).min(axis, *rest, **kw)
            return np.min(self.view(np.ndarray), axis=axis)

        def clip(self, min=None, max=None, **kw):
            if kw or self.dtype != object:
                return self.view(np.ndarray).clip(min, max, **kw)
            return np.clip(self, min, max)

        def round(self, decimals=0, **kw):
            return np.round(self.view(np.ndarray), decimals, **kw)

        def ptp(self):
            return self.max() - self.min()

    def tracked(a):
        """Arrays made by the package during a symbolic execution."""
        if Engine.current is not None and type(a) is np.ndarray and a.dtype == object and _from_package(3):
            return a.view(Objects)
        return a

    oi, oa = np.isclose, np.allclose

    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not _objects(np, a, b):
            return oi(a, b, rtol, atol, equal_nan)
        f = _elementwise(np, oi, lambda x, y: close(x, y, rtol, atol), bool)
        return f(a, b)

    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not _objects(np, a, b):
            return oa(a, b, rtol, atol, equal_nan)
        return bool(np.all(isclose(a, b, rtol, atol)))

    np.isclose, np.allclose = isclose, allclose

    oround = np.round

    def around(a, decimals=0, **kw):
        if kw or not _objects(np, a):
            return oround(a, decimals, **kw)
        f = _elementwise(np, oround, lambda x: round(x, decimals) if decimals else round(x))
        return f(a)

    np.round = np.around = around

    oclip = np.clip

    def clip(a, lo=None, hi=None, **kw):
        if kw or not _objects(np, a, lo, hi):
            return oclip(a, lo, hi, **kw)
        out = a
        if lo is not None:
            out = np.maximum(out, lo)
        if hi is not None:
            out = np.minimum(out, hi)
        return out

    np.clip = clip

    def allocator(name):
        orig = getattr(np, name)

        def f(*args, **kw):
            a = orig(*args, **kw)
            if Engine.current is not None and a.dtype == float and _from_package():
                a = a.astype(object)
                if name.startswith("empty"):
                    a[...] = 0.0
            return tracked(a)

        f.__wrapped__ = orig
        setattr(np, name, f)

    for name in ("zeros", "ones", "empty", "eye", "identity", "zeros_like", "ones_like", "empty_like"):
        allocator(name)

    ofull = np.full

    def full(shape, value, dtype=None, **kw):
        if Engine.current is not None and (_is_sym(value) or _from_package()):
            if dtype in (None, float, np.float64) and not isinstance(value, (int, bool)):
                return ofull(shape, value, dtype=object, **kw)
        return ofull(shape, value, dtype, **kw)

    np.full = full

    olin, oar = np.linspace, np.arange

    def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        if not _objects(np, start, stop):
            return olin(start, stop, num, endpoint, retstep, dtype, axis)
        a, b = np.asarray(start, dtype=object), np.asarray(stop, dtype=object)
        div = num - 1 if endpoint else num
        step = (b - a) / div if div else math.nan
        out = np.array([a + step * k if k else a + 0 * b for k in range(num)], dtype=object)
        if out.ndim > 1 and axis:
            out = np.moveaxis(out, 0, axis)
        return (out, step) if retstep else out

    def arange(*args, **kw):
        if not _objects(np, *args):
            return oar(*args, **kw)
        start, stop, step = (0, *args, 1) if len(args) == 1 else (*args, 1)[:3]
        n = math.ceil((stop - start) / step)
        return np.array([start + step * k for k in range(max(n, 0))], dtype=object)

    np.linspace, np.arange = linspace, arange

    def converter(name):
        orig = getattr(np, name)

        def f(a, dtype=None, *rest, **kw):
            if dtype in (float, np.float64, "float", "float64") and _has_sym(np, a):
                dtype = object
            return tracked(orig(a, dtype, *rest, **kw))

        f.__wrapped__ = orig
        setattr(np, name, f)

    for name in ("array", "asarray", "ascontiguousarray"):
        converter(name)

    la = np.linalg
    od, oinv, on, os_ = la.det, la.inv, la.norm, la.solve

    def minor(m, i, j):
        return [r[:j] + r[j + 1 :] for k, r in enumerate(m) if k != i]

    def determinant(m):
        if len(m) == 1:
            return m[0][0]
        return sum((-1) ** j * m[0][j] * determinant(minor(m, 0, j)) for j in range(len(m)))

    def small(a):
        m = [list(r) for r in a]
        return m if len(m) <= 6 and all(len(r) == len(m) for r in m) else None

    def det(a):
        if _has_sym(np, a) and small(a):
            return determinant(small(a))
        return od(_floats(np, a))

    def inv(a):
        if _has_sym(np, a) and small(a):
            m = small(a)
            d = determinant(m)
            n = len(m)
            if n == 1:
                return np.array([[1 / d]], dtype=object)
            out = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    out[i, j] = (-1) ** (i + j) * determinant(minor(m, j, i)) / d
            return out
        return oinv(_floats(np, a))

    def solve(a, b):
        if _has_sym(np, a) or _has_sym(np, b):
            return np.dot(inv(a), np.asarray(b, dtype=object))
        return os_(_floats(np, a), _floats(np, b))

    def norm(a, ord=None, axis=None, keepdims=False):
        if not _objects(np, a) or keepdims:
            return on(a, ord, axis, keepdims)
        arr = np.asarray(a, dtype=object)
        if axis is not None:
            return np.sqrt((arr * arr).sum(axis=axis))
        if ord in (None, 2, "fro") and (ord != 2 or arr.ndim == 1):
            return math.sqrt(sum(x * x for x in arr.flat))
        if ord == 1 and arr.ndim == 1:
            return sum(abs(x) for x in arr.flat)
        if ord == math.inf and arr.ndim == 1:
            return smax(*[abs(x) for x in arr.flat])
        return on(_floats(np, arr), ord, axis, keepdims)

    la.det, la.inv, la.norm, la.solve = det, inv, norm, solve

    # functions of math that call float()
    def guard(name, one):
        orig = getattr(math, name)

        def f(*args, **kw):
            if not kw and any(_has_sym(np, a) for a in args):
                return one(*args)
            return orig(*args, **kw)

        f.__wrapped__ = orig
        setattr(math, name, f)

    guard("fsum", lambda xs: sum(xs))
    guard("pow", lambda a, b: a**b)
    guard("copysign", lambda a, b: abs(a) if b >= 0 else -abs(a))
    guard("dist", lambda p, q: math.sqrt(sum((a - b) * (a - b) for a, b in zip(p, q))))
    guard("isinf", lambda x: False)


class _FloatType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or _is_sym(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class Float(metaclass=_FloatType):
    """`float` as seen by the package: keeps symbolic values."""

    def __new__(cls, x=0.0):
        return x if _is_sym(x) else float(x)

    fromhex = float.fromhex


def wrap_package():
    """Replace `float` in the modules of the package under test."""
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == PACKAGE or name.startswith(PACKAGE + ".")):
            mod.__dict__.setdefault("float", Float)
