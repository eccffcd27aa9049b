"""C15 Tensor operations obey the laws of linear algebra."""

import itertools
import re

from vt.harness import harness
from vt.common import vec, mat, ten, eq_vec, eq_mat, eq_ten, det_ref
from tvemoves_rufbad.tensors import (
    Vector,
    Matrix,
    Tensor3D,
    BarycentricCoordinates,
    inverse_2x2,
)

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "shapes larger than the stated ones; overflow and rounding"
ENTRIES = "all real entries"


def snap(t):
    if isinstance(t, Vector):
        return list(t.data)
    if isinstance(t, Matrix):
        return [list(r) for r in t.data]
    return [[list(r) for r in m] for m in t.data]


def same(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b


def untouched(c, label, t, before):
    now = snap(t)
    c.check(same(now, before) or (not c.symbolic and now == before), f"{label}: operand unchanged")


@harness(bounds=f"vectors of size 1 to 4, {ENTRIES}")
def vector_arithmetic(c):
    """Entrywise operations, scalar product, norm."""
    n = c.choice("n", [1, 2, 3, 4])
    u, v, s = vec(c, "u", n), vec(c, "v", n), c.real("s")
    a, b = list(u.data), list(v.data)
    su, sv = snap(u), snap(v)
    eq_vec(c, -u, [-x for x in a], "-u")
    eq_vec(c, u + v, [x + y for x, y in zip(a, b)], "u+v")
    eq_vec(c, u - v, [x - y for x, y in zip(a, b)], "u-v")
    eq_vec(c, u * s, [x * s for x in a], "u*s")
    eq_vec(c, s * u, [x * s for x in a], "s*u")
    eq_vec(c, 3 * u, [x * 3 for x in a], "3*u")
    c.check_eq(u.dot(v), sum(x * y for x, y in zip(a, b)), "u.v")
    c.check_eq(u.dot(v), v.dot(u), "u.v = v.u")
    c.check_eq(u.normsqr(), sum(x * x for x in a), "|u|^2")
    nrm = u.norm()
    c.check_eq(nrm * nrm, sum(x * x for x in a), "|u|*|u|")
    c.check_ge(nrm, 0, "|u| >= 0")
    with c.defined():
        c.assume(s != 0)
        eq_vec(c, u / s, [x / s for x in a], "u/s")
    untouched(c, "u", u, su)
    untouched(c, "v", v, sv)


@harness(bounds=f"vectors of size 1 to 4, {ENTRIES}")
def vector_structure(c):
    """Access, slices, iteration, stacking, reshaping, mapping."""
    n = c.choice("n", [1, 2, 3, 4])
    u, v = vec(c, "u", n), vec(c, "v", n)
    a, b = list(u.data), list(v.data)
    su = snap(u)
    c.check(len(u) == n and u.size == n and tuple(u.shape) == (n,), "size and shape")
    for i in range(n):
        c.check_eq(u[i], a[i], f"u[{i}]")
    it = list(iter(u))
    c.check(len(it) == n, "iteration length")
    for i in range(n):
        c.check_eq(it[i], a[i], f"iter {i}")
    for lo in range(n):
        for hi in range(lo + 1, n + 1):
            eq_vec(c, u[lo:hi], a[lo:hi], f"u[{lo}:{hi}]")
    eq_mat(c, u.stack(v), [a, b], "stack")
    eq_vec(c, u.extend(v), a + b, "extend")
    eq_mat(c, u.transpose(), [a], "transpose")
    eq_vec(c, u.map(lambda x: x * x + 1), [x * x + 1 for x in a], "map")
    for r in range(1, n + 1):
        if n % r == 0:
            k = n // r
            eq_mat(c, u.reshape(r, k), [a[i * k : (i + 1) * k] for i in range(r)], f"reshape {r}")
    arr = u.numpy()
    c.check(arr.shape == (n,), "numpy shape")
    for i in range(n):
        c.check_eq(arr[i], a[i], f"numpy {i}")
    arr[0] = 7.0
    untouched(c, "u", u, su)


@harness(bounds=f"matrices up to 3x3, {ENTRIES}")
def matrix_arithmetic(c):
    """Entrywise operations, scalar product and norms."""
    m, n = c.choice("shape", [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3)])
    A, B, s = mat(c, "a", m, n), mat(c, "b", m, n), c.real("s")
    a, b = snap(A), snap(B)
    R = lambda f: [[f(a[i][j], b[i][j]) for j in range(n)] for i in range(m)]  # noqa: E731
    eq_mat(c, -A, R(lambda x, y: -x), "-A")
    eq_mat(c, A + B, R(lambda x, y: x + y), "A+B")
    eq_mat(c, A - B, R(lambda x, y: x - y), "A-B")
    eq_mat(c, A * s, R(lambda x, y: x * s), "A*s")
    eq_mat(c, s * A, R(lambda x, y: x * s), "s*A")
    eq_mat(c, A.map(lambda x: 2 * x - 1), R(lambda x, y: 2 * x - 1), "map")
    eq_mat(c, A.transpose(), [[a[i][j] for i in range(m)] for j in range(n)], "transpose")
    eq_vec(c, A.flatten(), [x for r in a for x in r], "flatten")
    dot = sum(x * y for r, q in zip(a, b) for x, y in zip(r, q))
    c.check_eq(A.scalar_product(B), dot, "A:B")
    nsq = sum(x * x for r in a for x in r)
    c.check_eq(A.normsqr(), nsq, "|A|^2")
    nrm = A.norm()
    c.check_eq(nrm * nrm, nsq, "|A|*|A|")
    c.check_ge(nrm, 0, "|A| >= 0")
    for i in range(m):
        for j in range(n):
            c.check_eq(A[i, j], a[i][j], f"A[{i},{j}]")
    arr = A.numpy()
    c.check(arr.shape == (m, n), "numpy shape")
    for i in range(m):
        for j in range(n):
            c.check_eq(arr[i, j], a[i][j], f"numpy {i},{j}")
    eq_ten(c, A.stack(B), [a, b], "stack")
    with c.defined():
        c.assume(s != 0)
        eq_mat(c, A / s, R(lambda x, y: x / s), "A/s")
    untouched(c, "A", A, a)
    untouched(c, "B", B, b)


@harness(bounds=f"products of matrices up to 3x3 and 2x3 by 3x4, {ENTRIES}")
def matrix_products(c):
    """Matrix-matrix and matrix-vector products, trace."""
    m, k, n = c.choice(
        "shape", [(1, 1, 1), (2, 2, 2), (2, 3, 2), (3, 2, 1), (1, 3, 4), (2, 3, 4), (3, 3, 3)]
    )
    A, B, v = mat(c, "a", m, k), mat(c, "b", k, n), vec(c, "v", k)
    a, b, x = snap(A), snap(B), snap(v)
    ref = [[sum(a[i][l] * b[l][j] for l in range(k)) for j in range(n)] for i in range(m)]
    eq_mat(c, A @ B, ref, "A@B")
    eq_vec(c, A.dot(v), [sum(a[i][l] * x[l] for l in range(k)) for i in range(m)], "A.v")
    c.check_eq(A.trace(), sum(a[i][i] for i in range(min(m, k))), "trace")
    untouched(c, "A", A, a)
    untouched(c, "B", B, b)
    untouched(c, "v", v, x)


@harness(bounds=f"square matrices of size 1 to 4, {ENTRIES}")
def determinant_definition(c):
    """The determinant equals its cofactor expansion."""
    n = c.choice("n", [1, 2, 3, 4])
    A = mat(c, "a", n, n)
    a = snap(A)
    c.check_eq(A.det(), det_ref(a), "det A")
    untouched(c, "A", A, a)


@harness(bounds=f"square matrices of size 2 and 3, {ENTRIES}")
def determinant_laws(c):
    """Multiplicative, invariant under transposition, alternating."""
    n = c.choice("n", [2, 3])
    A, B = mat(c, "a", n, n), mat(c, "b", n, n)
    c.check_eq((A @ B).det(), A.det() * B.det(), "det(AB) = det A det B")
    c.check_eq(A.transpose().det(), A.det(), "det(A^T) = det A")
    sw = Matrix([A.data[1], A.data[0]] + A.data[2:])
    c.check_eq(sw.det(), -1 * A.det(), "det alternates")


@harness(bounds=f"2x2 matrices with non-zero determinant, {ENTRIES}")
def inverse(c):
    """inverse_2x2 is a two-sided inverse."""
    A = mat(c, "a", 2, 2)
    a = snap(A)
    c.assume(a[0][0] * a[1][1] - a[0][1] * a[1][0] != 0)
    I = inverse_2x2(A)
    eq_mat(c, A @ I, [[1, 0], [0, 1]], "A inv(A)", tol=1e-6)
    eq_mat(c, I @ A, [[1, 0], [0, 1]], "inv(A) A", tol=1e-6)
    untouched(c, "A", A, a)


@harness(bounds=f"tensors up to 2x3x2 and 3x2x3, {ENTRIES}")
def tensor3d(c):
    """Entrywise operations and norm of third-order tensors."""
    l, m, n = c.choice("shape", [(1, 1, 1), (2, 2, 2), (2, 3, 2), (3, 2, 3), (2, 2, 1)])
    A, B = ten(c, "a", l, m, n), ten(c, "b", l, m, n)
    a, b = snap(A), snap(B)
    R = lambda f: [  # noqa: E731
        [[f(a[i][j][k], b[i][j][k]) for k in range(n)] for j in range(m)] for i in range(l)
    ]
    eq_ten(c, -A, R(lambda x, y: -x), "-A")
    eq_ten(c, A + B, R(lambda x, y: x + y), "A+B")
    eq_ten(c, A - B, R(lambda x, y: x - y), "A-B")
    eq_ten(c, A.map(lambda x: x * x - x), R(lambda x, y: x * x - x), "map")
    nsq = sum(x * x for q in a for r in q for x in r)
    c.check_eq(A.normsqr(), nsq, "|A|^2")
    nrm = A.norm()
    c.check_eq(nrm * nrm, nsq, "|A|*|A|")
    c.check_ge(nrm, 0, "|A| >= 0")
    for i in range(l):
        for j in range(m):
            for k in range(n):
                c.check_eq(A[i, j, k], a[i][j][k], f"A[{i},{j},{k}]")
    arr = A.numpy()
    c.check(arr.shape == (l, m, n), "numpy shape")
    for i in range(l):
        for j in range(m):
            for k in range(n):
                c.check_eq(arr[i, j, k], a[i][j][k], f"numpy {i},{j},{k}")
    untouched(c, "A", A, a)
    untouched(c, "B", B, b)


@harness(bounds=f"two tensors of the same class and up to 3 entries, {ENTRIES}")
def equality(c):
    """== holds exactly when all entries agree."""
    kind = c.choice("kind", ["v", "m", "t"])
    n = 3
    x = [c.real(f"x{i}") for i in range(n)]
    y = [c.real(f"y{i}") for i in range(n)]
    build = {
        "v": Vector,
        "m": lambda d: Matrix([d]),
        "t": lambda d: Tensor3D([[d]]),
    }[kind]
    agree = c.all_of([a == b for a, b in zip(x, y)])
    if build(list(x)) == build(list(y)):
        c.check(agree, "== only if all entries agree")
    else:
        c.check(c.not_(agree), "!= only if some entry differs")
    c.check(bool(build(list(x)) == build(list(x))), "reflexive")


@harness(bounds="all shapes with up to 6 entries")
def equality_of_shapes(c):
    """Tensors of different shape or class are never equal."""
    d = [1, 2, 3, 4, 5, 6]
    things = [Vector(d[:k]) for k in range(1, 7)]
    for m in (1, 2, 3, 6):
        n = 6 // m
        things.append(Matrix([d[i * n : (i + 1) * n] for i in range(m)]))
    things.append(Matrix([d[:2], d[2:4]]))
    things.append(Tensor3D([[d[:3], d[3:]]]))
    things.append(Tensor3D([[d[:2], d[2:4], d[4:]]]))
    things.append(Tensor3D([[d[:3]], [d[3:]]]))
    x = c.real("x")
    for i, s in enumerate(things):
        for j, t in enumerate(things):
            c.check(bool(s == t) is (i == j), f"shape equality {i} {j}")
        c.check(not bool(s == "tensor"), f"{i} differs from other objects")
        scaled = s.map(lambda e: e * x)
        c.assume(x != 1)
        c.check(not bool(scaled == s), f"{i} differs from a scaled copy")


@harness(bounds=f"all barycentric coordinates")
def barycentric(c):
    """Barycentric coordinates sum to one and are read back in order."""
    a, b = c.real("a"), c.real("b")
    l = BarycentricCoordinates(a, b)
    c.check_eq(l.l1, a, "l1")
    c.check_eq(l.l2, b, "l2")
    c.check_eq(l.l1 + l.l2 + l.l3, 1, "sum")
    it = list(l)
    c.check(len(l) == 3 and len(it) == 3, "three coordinates")
    for i in range(3):
        c.check_eq(l[i], [a, b, 1 - a - b][i], f"l[{i}]")
        c.check_eq(it[i], [a, b, 1 - a - b][i], f"iter {i}")
    x = BarycentricCoordinates(a, b)
    x.assert_bounds()
    for i, v in enumerate([a, b, 1 - a - b]):
        c.check_eq(x[i], c.maximum(0, c.minimum(1, v)), f"assert_bounds clamps {i}")


@harness(bounds=f"vectors of size 1 to 3, matrices up to 3x2, tensors up to 2x3x2, {ENTRIES}")
def printed(c):
    """The printed forms name every entry in its place: evaluating them gives the tensor back."""
    shape = c.choice("shape", [(1,), (3,), (1, 1), (2, 3), (3, 2), (1, 1, 1), (2, 3, 2), (3, 1, 2)])
    kind, equal = {1: (Vector, eq_vec), 2: (Matrix, eq_mat), 3: (Tensor3D, eq_ten)}[len(shape)]
    names = {f"x{n}": c.real(f"x{n}") for n in flat_names(shape)}
    # the entries have many digits also where the solver chooses simple numbers
    t = kind(nested([x + 1 / 3 for x in names.values()], shape))
    before = snap(t)
    lost = itertools.count()
    known = {"Sym": lambda e: e, "Rounded": lambda e: e + c.real(f"lost digits {next(lost)}"), **names}
    again = eval(repr(t), {"Vector": Vector, "Matrix": Matrix, "Tensor3D": Tensor3D, **known})
    equal(c, again, before, "repr")
    c.check(c.symbolic or again == t, "repr evaluates to an equal tensor")
    text = re.sub(r"\([^()]*\)", lambda m: re.sub(r"\s", "", m[0]), str(t))
    plain = eval(re.sub(r"[\s,]+", ",", text.strip()), known)
    equal(c, kind(plain), before, "str")
    untouched(c, "t", t, before)


def nested(values, shape):
    if len(shape) == 1:
        return list(values)
    n = len(values) // shape[0]
    return [nested(values[i * n : (i + 1) * n], shape[1:]) for i in range(shape[0])]


def flat_names(shape):
    names = [""]
    for n in shape:
        names = [s + str(i) for s in names for i in range(n)]
    return names


@harness(bounds="all barycentric coordinates")
def printed_weights(c):
    """The printed forms of barycentric coordinates show the three weights."""
    a, b = c.real("a"), c.real("b")
    l = BarycentricCoordinates(a, b)
    names = {"Sym": lambda e: e, "BarycentricCoordinates": lambda *w: w, "a": a, "b": b}
    for kind, text in (("repr", repr(l)), ("str", str(l))):
        shown = eval(text, dict(names))
        c.check(len(shown) == 3, f"{kind}: three weights")
        for i, w in enumerate((a, b, 1 - a - b)):
            c.check_eq(shown[i], w, f"{kind}: weight {i}")
