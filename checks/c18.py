"""C18 Stress functions are the derivatives of the energies."""

from vt.harness import harness
from vt.common import strain
from tvemoves_rufbad.tensors import Matrix
from tvemoves_rufbad.helpers import (
    austenite_percentage,
    austenite_potential,
    martensite_potential,
    total_elastic_potential,
    derivative_austenite_potential,
    derivative_martensite_potential,
    strain_derivative_coupling_potential,
)

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "exp and log enter as unknown strictly increasing functions with their derivatives",
]
OUTSIDE = "rounding, overflow"
ALLF = "all real 2x2 strains with positive determinant"


def partials(c, w, F):
    """Partial derivatives of w at F."""
    xs = [F[0, 0], F[0, 1], F[1, 0], F[1, 1]]
    f = lambda p, q, r, s: w(Matrix([[p, q], [r, s]]))  # noqa: E731
    e = lambda k: [1 if i == k else 0 for i in range(4)]  # noqa: E731
    return [[c.derivative(f, xs, e(2 * i + j)) for j in range(2)] for i in range(2)]


def compare(c, D, ref, label):
    c.check(isinstance(D, Matrix) and tuple(D.shape) == (2, 2), f"{label}: 2x2 matrix")
    for i in range(2):
        for j in range(2):
            c.check_eq(D[i, j], ref[i][j], f"{label}[{i},{j}]", tol=1e-4)


@harness(bounds=ALLF)
def austenite(c):
    """Derivative of W_a."""
    F = strain(c)
    compare(c, derivative_austenite_potential(F), partials(c, austenite_potential, F), "DW_a")


@harness(bounds=ALLF)
def martensite(c):
    """Derivative of W_m."""
    F = strain(c)
    compare(c, derivative_martensite_potential(F), partials(c, martensite_potential, F), "DW_m")


@harness(bounds=f"{ALLF}; all temperatures >= 0")
def coupling(c):
    """Coupling derivative: share times difference of the stresses."""
    F, th = strain(c), c.real("theta", 0)
    s = austenite_percentage(th)
    a, m = derivative_austenite_potential(F), derivative_martensite_potential(F)
    ref = [[s * (a[i, j] - m[i, j]) for j in range(2)] for i in range(2)]
    compare(c, strain_derivative_coupling_potential(F, th), ref, "DW_cpl")


@harness(bounds=f"{ALLF}; all temperatures >= 0")
def coupling_total(c):
    """Coupling derivative: strain derivative of the temperature-dependent part of the energy."""
    F, th = strain(c), c.real("theta", 0)
    w = lambda G: total_elastic_potential(G, th) - total_elastic_potential(G, 0)  # noqa: E731
    compare(c, strain_derivative_coupling_potential(F, th), partials(c, w, F), "DW_cpl")


@harness(bounds=f"{ALLF}; all temperatures >= 0")
def total(c):
    """The derivative of the total energy is the mixture of the derivatives."""
    F, th = strain(c), c.real("theta", 0)
    m = derivative_martensite_potential(F)
    k = strain_derivative_coupling_potential(F, th)
    ref = partials(c, lambda G: total_elastic_potential(G, th), F)
    compare(c, m + k, ref, "DW")
