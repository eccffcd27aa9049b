"""C16 Ill-shaped tensor operations and out-of-range indices are refused."""

from vt.harness import harness
from vt.common import vec, mat, ten
from tvemoves_rufbad.tensors import (
    Vector,
    Matrix,
    Tensor3D,
    BarycentricCoordinates,
    inverse_2x2,
)

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "shapes larger than the stated ones"
SH2 = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 2), (2, 3)]
SH3 = [(1, 1, 1), (2, 2, 2), (2, 2, 3), (2, 3, 2), (3, 2, 2), (1, 2, 4)]


def expect(c, ok, fn, label):
    """fn() succeeds if ok and raises an error otherwise."""
    if ok:
        try:
            fn()
        except Exception as ex:  # noqa: BLE001
            c.fail(f"{label}: refused although the shapes fit ({type(ex).__name__})")
        else:
            c.check(True, f"{label}: accepted")
    else:
        c.raises((Exception,), fn, f"{label}: refused")


@harness(bounds="all pairs of vector sizes 1 to 4, all entries")
def vector_shapes(c):
    """Operations of two vectors need equal sizes."""
    m, n = c.choice("m", [1, 2, 3, 4]), c.choice("n", [1, 2, 3, 4])
    u, v = vec(c, "u", m), vec(c, "v", n)
    expect(c, m == n, lambda: u + v, "u+v")
    expect(c, m == n, lambda: u - v, "u-v")
    expect(c, m == n, lambda: u.dot(v), "u.v")
    expect(c, m == n, lambda: u.stack(v), "stack")
    for r in range(0, 4):
        for k in range(0, 4):
            if r * k:
                expect(c, r * k == m, lambda: u.reshape(r, k), f"reshape({r},{k})")
    c.raises((Exception,), lambda: 2 / u, "number / vector")


@harness(bounds="all pairs of 7 matrix shapes up to 3 rows and columns, all entries")
def matrix_shapes(c):
    """Operations of two matrices need matching shapes."""
    p, q = c.choice("p", SH2), c.choice("q", SH2)
    A, B = mat(c, "a", *p), mat(c, "b", *q)
    v = vec(c, "v", q[0])
    expect(c, p == q, lambda: A + B, "A+B")
    expect(c, p == q, lambda: A - B, "A-B")
    expect(c, p == q, lambda: A.scalar_product(B), "A:B")
    expect(c, p == q, lambda: A.stack(B), "stack")
    expect(c, p[1] == q[0], lambda: A @ B, "A@B")
    expect(c, p[1] == q[0], lambda: A.dot(v), "A.v")
    expect(c, p[0] == p[1], A.det, "det")
    if p == (2, 2):
        c.assume(A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0] != 0)
    expect(c, p == (2, 2), lambda: inverse_2x2(A), "inverse")
    c.raises((Exception,), lambda: 2 / A, "number / matrix")


@harness(bounds="all pairs of 6 tensor shapes up to 3 per axis, all entries")
def tensor_shapes(c):
    """Operations of two third-order tensors need equal shapes."""
    p, q = c.choice("p", SH3), c.choice("q", SH3)
    A, B = ten(c, "a", *p), ten(c, "b", *q)
    expect(c, p == q, lambda: A + B, "A+B")
    expect(c, p == q, lambda: A - B, "A-B")


@harness(bounds="row lengths 1 to 3 of up to three rows")
def ragged(c):
    """Ragged data is refused."""
    x = c.real("x")
    l1, l2, l3 = (c.choice(f"l{i}", [1, 2, 3]) for i in (1, 2, 3))
    rows = [[x] * l1, [x] * l2, [x] * l3]
    flat = l1 == l2 == l3
    expect(c, flat, lambda: Matrix(rows), "matrix")
    expect(c, flat, lambda: Tensor3D([rows]), "tensor, one block")
    expect(c, flat, lambda: Tensor3D([[[x] * l1] * 2, [[x] * l2, [x] * l3]]), "tensor, two blocks")
    expect(
        c,
        l1 == l2,
        lambda: Tensor3D([[[x, x]] * l1, [[x, x]] * l2]),
        "tensor, different numbers of rows",
    )


def index_cases(n):
    return [-n - 1, -n, -1] + list(range(n)) + [n, n + 1]


@harness(bounds="sizes 1 to 4, indices from -size-1 to size+1")
def vector_index(c):
    """Indices of vectors and barycentric coordinates."""
    n = c.choice("n", [1, 2, 3, 4])
    u = vec(c, "u", n)
    i = c.choice("i", index_cases(n))
    if 0 <= i < n:
        c.check_eq(u[i], u.data[i], "entry")
    else:
        c.raises((IndexError,), lambda: u[i], "index out of range")
    if n == 3:
        a, b = c.real("a"), c.real("b")
        l = BarycentricCoordinates(a, b)
        if 0 <= i < 3:
            c.check_eq(l[i], [a, b, 1 - a - b][i], "barycentric entry")
        else:
            c.raises((IndexError,), lambda: l[i], "barycentric index out of range")


@harness(bounds="all 7 matrix shapes, each index from -size-1 to size+1")
def matrix_index(c):
    """Indices of matrices."""
    p = c.choice("p", SH2)
    A = mat(c, "a", *p)
    i, j = c.choice("i", index_cases(p[0])), c.choice("j", index_cases(p[1]))
    if 0 <= i < p[0] and 0 <= j < p[1]:
        c.check_eq(A[i, j], A.data[i][j], "entry")
    else:
        c.raises((IndexError,), lambda: A[i, j], "index out of range")


@harness(bounds="4 tensor shapes, each index from -size-1 to size+1", validate=60, max_paths=9000)
def tensor_index(c):
    """Indices of third-order tensors."""
    p = c.choice("p", [(2, 1, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1)])
    A = ten(c, "a", *p)
    for i in index_cases(p[0]):
        for j in index_cases(p[1]):
            for k in index_cases(p[2]):
                if 0 <= i < p[0] and 0 <= j < p[1] and 0 <= k < p[2]:
                    c.check_eq(A[i, j, k], A.data[i][j][k], f"entry {i},{j},{k}")
                else:
                    c.raises((IndexError,), lambda: A[i, j, k], f"index {i},{j},{k} out of range")
