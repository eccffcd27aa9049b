"""C21 Pulled-back heat conductivity is symmetric, positive and frame indifferent."""

from vt.harness import harness
from vt.common import strain, rotation, mul2, det2
from tvemoves_rufbad.tensors import Matrix
from tvemoves_rufbad.helpers import heat_conductivity_reference, HEAT_CONDUCTIVITY

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "rounding, overflow; strains of zero determinant"
ALLF = "all real 2x2 strains with positive determinant"
K0 = HEAT_CONDUCTIVITY


@harness(bounds=ALLF)
def definition(c):
    """F K F^T = det F K_0, which determines K = det F F^-1 K_0 F^-T; symmetric."""
    F = strain(c)
    K = heat_conductivity_reference(F)
    c.check(isinstance(K, Matrix) and tuple(K.shape) == (2, 2), "2x2 matrix")
    d = det2(F)
    L = mul2(mul2(F, K), F.transpose())
    for i in range(2):
        for j in range(2):
            c.check_eq(L[i, j], d * K0[i, j], f"F K F^T = det F K_0 [{i},{j}]")
    c.check_eq(K[0, 1], K[1, 0], "symmetric")
    c.check_eq(det2(K), det2(K0), "same determinant as the material conductivity")


@harness(bounds=ALLF)
def positive(c):
    """Positive definite: both leading minors are positive."""
    F = strain(c)
    K = heat_conductivity_reference(F)
    c.check(K[0, 0] > 0, "K_11 > 0")
    c.check(K[1, 1] > 0, "K_22 > 0")
    c.check(det2(K) > 0, "det K > 0")


@harness(bounds=f"{ALLF}; all gradients other than zero")
def heat_flow(c):
    """Heat flows from hot to cold: g . K g > 0."""
    F = strain(c)
    g = [c.real("g0"), c.real("g1")]
    c.assume(c.any_of([g[0] != 0, g[1] != 0]))
    K = heat_conductivity_reference(F)
    # K is symmetric with positive diagonal and determinant (other harnesses); named entries
    k = [c.real("k00"), c.real("k01"), c.real("k11")]
    for x, y in zip(k, (K[0, 0], K[0, 1], K[1, 1])):
        c.assume_eq(x, y)
    c.check(k[0] > 0, "K_11 > 0")
    c.check(k[0] * k[2] - k[1] * k[1] > 0, "det K > 0")


@harness(bounds="all symmetric matrices with positive minors, all gradients other than zero")
def sylvester(c):
    """Positive minors mean a positive quadratic form (closes the argument of `positive`)."""
    a, b, d = c.real("a"), c.real("b"), c.real("d")
    x, y = c.real("x"), c.real("y")
    c.assume(a > 0)
    c.assume(a * d - b * b > 0)
    c.assume(c.any_of([x != 0, y != 0]))
    c.check(a * x * x + 2 * b * x * y + d * y * y > 0, "g . K g > 0")


@harness(bounds=f"{ALLF}; all rotations of the deformed body")
def frame(c):
    """K(QF) = K(F)."""
    F, Q = strain(c), rotation(c)
    for n, G in (("Q", mul2(Q, F)), ("half turn", Matrix([[-F[i, j] for j in range(2)] for i in range(2)]))):
        A, B = heat_conductivity_reference(G), heat_conductivity_reference(F)
        for i in range(2):
            for j in range(2):
                c.check_eq(A[i, j], B[i, j], f"{n}[{i},{j}]")


@harness(bounds="all isotropic stretches")
def isotropic(c):
    """At the identity and at isotropic stretches it is the material conductivity."""
    s = c.real("s", 0, open_lo=True)
    for n, F in (("stretch", Matrix([[s, 0], [0, s]])), ("identity", Matrix([[1.0, 0.0], [0.0, 1.0]]))):
        K = heat_conductivity_reference(F)
        for i in range(2):
            for j in range(2):
                c.check_eq(K[i, j], K0[i, j], f"{n}[{i},{j}]")
