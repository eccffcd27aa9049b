"""C20 Dissipation is non-negative and blind to rigid motions."""

from vt.harness import harness
from vt.common import mat, rotation, mul2
from tvemoves_rufbad.tensors import Matrix
from tvemoves_rufbad.helpers import (
    dissipation_potential,
    dissipation_rate,
    symmetrized_strain_delta,
)

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "rounding, overflow"
ALL = "all real 2x2 strains and increments"


def increment(c):
    F, D = mat(c, "F", 2, 2), mat(c, "D", 2, 2)
    return F, D


def rate(F, D):
    """D^T F + F^T D, from the definition."""
    return [
        [sum(D[k, i] * F[k, j] + F[k, i] * D[k, j] for k in range(2)) for j in range(2)]
        for i in range(2)
    ]


@harness(bounds=ALL)
def definition(c):
    """Half the squared length of the symmetrized strain increment."""
    F, D = increment(c)
    r = rate(F, D)
    S = symmetrized_strain_delta(F, F + D)
    for i in range(2):
        for j in range(2):
            c.check_eq(S[i, j], r[i][j], f"symmetrized increment [{i},{j}]")
    n = sum(r[i][j] * r[i][j] for i in range(2) for j in range(2))
    c.check_eq(dissipation_potential(F, F + D), n / 2, "half the squared length")


@harness(bounds=ALL)
def sign(c):
    """Non-negative, zero exactly when the linearized change of F^T F vanishes."""
    F, D = increment(c)
    r = [c.real(f"r{k}") for k in range(3)]
    ref = rate(F, D)
    for x, y in zip(r, (ref[0][0], ref[0][1], ref[1][1])):
        c.assume_eq(x, y)
    w = dissipation_potential(F, F + D)
    c.check_eq(w, (r[0] * r[0] + 2 * r[1] * r[1] + r[2] * r[2]) / 2, "sum of squares")
    v = (r[0] * r[0] + 2 * r[1] * r[1] + r[2] * r[2]) / 2
    c.check_ge(v, 0, "non-negative")
    c.check(c.implies(v == 0, c.all_of([x == 0 for x in r])), "zero only without change")
    c.check_eq(ref[0][1], ref[1][0], "symmetric")


@harness(bounds=ALL)
def linearization(c):
    """The symmetrized increment is the linearized change of the right Cauchy-Green tensor."""
    F, D = increment(c)
    xs, ds = [F[i, j] for i in range(2) for j in range(2)], [D[i, j] for i in range(2) for j in range(2)]
    S = symmetrized_strain_delta(F, F + D)
    for i in range(2):
        for j in range(2):
            d = c.derivative(lambda *f: f[i] * f[j] + f[2 + i] * f[2 + j], xs, ds)
            c.check_eq(S[i, j], d, f"linearized change [{i},{j}]", tol=1e-5)


@harness(bounds=f"{ALL}; all factors")
def quadratic(c):
    """Quadratic in the increment, zero without increment."""
    F, D = increment(c)
    k = c.real("k")
    c.check_eq(
        dissipation_potential(F, F + k * D), k * k * dissipation_potential(F, F + D), "quadratic"
    )
    c.check_eq(dissipation_potential(F, F), 0, "no increment, no dissipation")


@harness(bounds=f"{ALL}; all rotations")
def rigid(c):
    """Invariant when both strains are rotated alike."""
    F, D = increment(c)
    Q = rotation(c)
    G = F + D
    c.check_eq(
        dissipation_potential(mul2(Q, F), mul2(Q, G)), dissipation_potential(F, G), "R(QF, QG)"
    )
    c.check_eq(dissipation_potential(-F, -G), dissipation_potential(F, G), "half turn")


@harness(bounds="all strains and spins")
def spin(c):
    """Infinitesimal rotations of the deformed body do not dissipate."""
    F = mat(c, "F", 2, 2)
    w = c.real("w")
    c.check_eq(dissipation_potential(F, F + mul2([[0, -w], [w, 0]], F)), 0, "spin")


@harness(bounds=f"{ALL}; all frame rates > 0")
def rates(c):
    """The rate is twice the potential of the strain velocity."""
    F, D = increment(c)
    f = c.real("fps", 0, open_lo=True)
    xi = dissipation_rate(F, F + D, f)
    c.check_eq(xi, 2 * dissipation_potential(F, F + f * D), "twice the potential of the velocity")
