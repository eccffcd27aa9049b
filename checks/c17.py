"""C17 Stored energies are frame indifferent with the right wells."""

from vt.harness import harness
from vt.common import strain, rotation, mul2, det2, ten
from tvemoves_rufbad.tensors import Matrix, Tensor3D
from tvemoves_rufbad.helpers import (
    austenite_percentage,
    austenite_potential,
    martensite_potential,
    total_elastic_potential,
    hyper_elastic_potential,
)

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "exp and log enter as unknown strictly increasing functions with their tangent inequalities",
]
OUTSIDE = "rounding, overflow"
ALLF = "all real 2x2 strains with positive determinant"
ROT = "all rotations (half turn separately)"
W = {"austenite": austenite_potential, "martensite": martensite_potential}


@harness(bounds=f"{ALLF}; {ROT}")
def frame_austenite(c):
    """W_a(QF) = W_a(F)."""
    F, Q = strain(c), rotation(c)
    c.check_eq(austenite_potential(mul2(Q, F)), austenite_potential(F), "W_a(QF) = W_a(F)")


@harness(bounds=f"{ALLF}; {ROT}")
def frame_martensite(c):
    """W_m(QF) = W_m(F)."""
    F, Q = strain(c), rotation(c)
    c.check_eq(martensite_potential(mul2(Q, F)), martensite_potential(F), "W_m(QF) = W_m(F)")


@harness(bounds=f"{ALLF}; {ROT}; all temperatures >= 0")
def frame_total(c):
    """W(QF, theta) = W(F, theta)."""
    F, Q, th = strain(c), rotation(c), c.real("theta", 0)
    c.check_eq(
        total_elastic_potential(mul2(Q, F), th), total_elastic_potential(F, th), "W(QF) = W(F)"
    )


@harness(bounds=f"{ALLF}; half turn")
def frame_half_turn(c):
    """Invariance under the half turn, which the parametrisation of rotations misses."""
    F, th = strain(c), c.real("theta", 0)
    G = Matrix([[-F[0, 0], -F[0, 1]], [-F[1, 0], -F[1, 1]]])
    for n, w in W.items():
        c.check_eq(w(G), w(F), f"{n}: W(-F) = W(F)")
    c.check_eq(total_elastic_potential(G, th), total_elastic_potential(F, th), "total")


DIAG = (
    "all principal stretches a, d > 0; every strain of positive determinant is a rotation of such a "
    "stretch in deformed and reference configuration, and the energies are invariant under both "
    "(frame_* and isotropy harnesses)"
)


def stretch(c):
    return c.real("a", 0, open_lo=True), c.real("d", 0, open_lo=True)


@harness(bounds=f"{ALLF}; {ROT} of the reference configuration")
def isotropy(c):
    """W(FQ) = W(F) for both energies."""
    F, Q = strain(c), rotation(c)
    for n, w in W.items():
        c.check_eq(w(mul2(F, Q)), w(F), f"{n}: W(FQ) = W(F)")


@harness(bounds=DIAG)
def austenite_well(c):
    """W_a >= 0, and W_a = 0 exactly at rotations."""
    a, d = stretch(c)
    w = austenite_potential(Matrix([[a, 0], [0, d]]))
    c.check_ge(w, 0, "W_a >= 0")
    c.check(c.implies(c.any_of([a != 1, d != 1]), w > 0), "W_a > 0 away from rotations")


@harness(bounds=ROT)
def austenite_well_attained(c):
    """W_a vanishes at every rotation."""
    Q = Matrix(rotation(c))
    c.check_eq(austenite_potential(Q), 0, "W_a(Q) = 0")
    c.check_eq(austenite_potential(-1 * Q), 0, "W_a(-Q) = 0")


@harness(bounds=DIAG)
def martensite_well(c):
    """W_m >= 0 and W_m = 0 only at area-preserving strains as long as the shears."""
    a, d = stretch(c)
    w = martensite_potential(Matrix([[a, 0], [0, d]]))
    c.check_ge(w, 0, "W_m >= 0")
    at = c.all_of([a * d == 1, 4 * (a * a + d * d) == 9])
    c.check(c.implies(c.not_(at), w > 0), "W_m > 0 elsewhere")


@harness(bounds=f"{DIAG}, whose determinant and ratio of stretches lie between 1/4 and 4")
def martensite_well_depth(c):
    """Away from the wells by a margin, W_m is positive by a margin."""
    # F = diag(p q, p / q) has determinant p^2 and I1 / J = q^2 + 1 / q^2
    p, q = c.real("p", 0.5, 2), c.real("q", 0.5, 2)
    w = martensite_potential(Matrix([[p * q, 0], [0, p / q]]))
    u, eps = q * q + 1 / (q * q) - 2.25, 0.01
    c.check(c.implies(c.any_of([p >= 1 + eps, p <= 1 - eps]), w > 1e-10), "area changed: W_m > 0")
    c.check(c.implies(c.any_of([u >= eps, u <= -eps]), w > 1e-10), "other length: W_m > 0")


@harness(bounds=f"{ROT}; both shears")
def martensite_well_attained(c):
    """W_m vanishes at rotations of the two shears by plus or minus one half."""
    Q = rotation(c)
    for s in (1, -1):
        U = [[1, s * 0.5], [0, 1]]
        c.check_eq(martensite_potential(mul2(Q, U)), 0, f"W_m(Q U{s:+d}) = 0")
        c.check_eq(martensite_potential(-1 * mul2(Q, U)), 0, f"W_m(-Q U{s:+d}) = 0")


@harness(bounds=f"{ALLF}; all temperatures >= 0")
def mixture(c):
    """The total energy mixes both energies with the austenite share: martensite at zero
    temperature."""
    F, th = strain(c), c.real("theta", 0)
    a, m = austenite_potential(F), martensite_potential(F)
    s = austenite_percentage(th)
    c.check_eq(total_elastic_potential(F, th), s * a + (1 - s) * m, "W = s W_a + (1-s) W_m")
    c.check_eq(total_elastic_potential(F, 0), m, "martensite at zero temperature")


@harness(bounds="all pairs of temperatures >= 0, all values of both energies")
def mixture_direction(c):
    """The share is in the unit interval and grows, so the mixture stays between both energies and
    moves towards the austenite energy."""
    t1, t2 = c.real("theta1", 0), c.real("theta2", 0)
    a, m = c.real("a"), c.real("m")
    c.assume(t1 < t2)
    s1, s2 = austenite_percentage(t1), austenite_percentage(t2)
    c.check_ge(s1, 0, "share >= 0")
    c.check(s1 < 1, "share < 1")
    c.check(s1 < s2, "share grows")
    w1, w2 = s1 * a + (1 - s1) * m, s2 * a + (1 - s2) * m
    c.check_ge(w1, c.minimum(a, m), "W >= min")
    c.check_ge(c.maximum(a, m), w1, "W <= max")
    c.check(c.implies(a > m, w2 > w1), "towards austenite from below")
    c.check(c.implies(a < m, w2 < w1), "towards austenite from above")


@harness(bounds="all 2x2x2 hyper-strains and rotations")
def hyper_elastic(c):
    """Third power of the length of the hyper-strain, rotation invariant."""
    H = ten(c, "h", 2, 2, 2)
    Q = rotation(c)
    n = sum(x * x for m in H.data for r in m for x in r)
    v = hyper_elastic_potential(H)
    c.check_ge(v, 0, "non-negative")
    c.check_eq(v * v, n * n * n, "cube of the length")
    G = Tensor3D(
        [
            [
                [Q[i][0] * H[0, j, k] + Q[i][1] * H[1, j, k] for k in range(2)]
                for j in range(2)
            ]
            for i in range(2)
        ]
    )
    c.check_eq(
        sum(x * x for m in G.data for r in m for x in r), n, "length of the rotated hyper-strain"
    )
    v2 = hyper_elastic_potential(G)
    c.check_eq(v2, v, "rotation invariant")
