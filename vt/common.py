"""Helpers shared by the harnesses; everything works with floats and with symbolic reals."""

from __future__ import annotations

from itertools import permutations

from tvemoves_rufbad.tensors import Vector, Matrix, Tensor3D, BarycentricCoordinates


# ------------------------------------------------------------------ inputs
def vec(c, name, n, **kw):
    return Vector([c.real(f"{name}{i}", **kw) for i in range(n)])


def mat(c, name, m, n, **kw):
    return Matrix([[c.real(f"{name}{i}{j}", **kw) for j in range(n)] for i in range(m)])


def ten(c, name, l, m, n, **kw):
    return Tensor3D(
        [[[c.real(f"{name}{i}{j}{k}", **kw) for k in range(n)] for j in range(m)] for i in range(l)]
    )


def strain(c, name="F"):
    """An arbitrary 2x2 matrix with positive determinant."""
    F = mat(c, name, 2, 2)
    c.assume(det2(F) > 0)
    return F


def det2(F):
    return F[0, 0] * F[1, 1] - F[0, 1] * F[1, 0]


def rotation(c, name="t"):
    """Every rotation except the half turn, by the tangent of half its angle."""
    t = c.real(name)
    d = 1 + t * t
    cs, sn = (1 - t * t) / d, 2 * t / d
    return [[cs, -sn], [sn, cs]]


def mul2(A, B):
    """Reference product of 2x2 arrays or matrices (independent of Matrix.__matmul__)."""
    a = lambda i, j: A[i][j] if isinstance(A, list) else A[i, j]  # noqa: E731
    b = lambda i, j: B[i][j] if isinstance(B, list) else B[i, j]  # noqa: E731
    return Matrix([[a(i, 0) * b(0, j) + a(i, 1) * b(1, j) for j in range(2)] for i in range(2)])


# ------------------------------------------------------------------ assertions
def eq_vec(c, v, ref, label, **kw):
    """v is a Vector with these entries."""
    ok = isinstance(v, Vector) and len(v) == len(ref) and v.shape == (len(ref),)
    c.check(ok, f"{label}: a vector of size {len(ref)}")
    if ok:
        for i, r in enumerate(ref):
            c.check_eq(v[i], r, f"{label}[{i}]", **kw)


def eq_mat(c, m, ref, label, **kw):
    ok = isinstance(m, Matrix) and tuple(m.shape) == (len(ref), len(ref[0]))
    c.check(ok, f"{label}: a matrix of shape {(len(ref), len(ref[0]))}")
    if ok:
        for i, row in enumerate(ref):
            for j, r in enumerate(row):
                c.check_eq(m[i, j], r, f"{label}[{i},{j}]", **kw)


def eq_ten(c, t, ref, label, **kw):
    shape = (len(ref), len(ref[0]), len(ref[0][0]))
    ok = isinstance(t, Tensor3D) and tuple(t.shape) == shape
    c.check(ok, f"{label}: a tensor of shape {shape}")
    if ok:
        for i in range(shape[0]):
            for j in range(shape[1]):
                for k in range(shape[2]):
                    c.check_eq(t[i, j, k], ref[i][j][k], f"{label}[{i},{j},{k}]", **kw)


def perm_sign(p):
    """Sign of a permutation by cycle counting."""
    seen, s = set(), 1
    for i in range(len(p)):
        k, n = i, 0
        while k not in seen:
            seen.add(k)
            k = p[k]
            n += 1
        if n and n % 2 == 0:
            s = -s
    return s


def det_ref(rows):
    n = len(rows)
    if n == 1:
        return rows[0][0]
    tot = 0
    for j in range(n):
        minor = [r[:j] + r[j + 1 :] for r in rows[1:]]
        tot = tot + (-1) ** j * rows[0][j] * det_ref(minor)
    return tot


def bary_point(points, coords):
    """Plane coordinates of a barycentric point."""
    l = [coords[i] for i in range(3)]
    return [sum(l[i] * points[i][k] for i in range(3)) for k in range(2)]
