"""C19 Internal energy is consistent with the free energy and its antiderivative."""

from vt.harness import harness
from vt.common import strain
from tvemoves_rufbad.helpers import (
    ENTROPY_CONSTANT,
    austenite_percentage,
    internal_energy_weight,
    total_elastic_potential,
    internal_energy,
    internal_energy_no_entropy,
    temp_antrider_internal_energy_no_entropy,
    austenite_potential,
    martensite_potential,
)

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "exp and log enter as unknown strictly increasing functions with their derivatives",
]
OUTSIDE = "rounding, overflow"
ALLF = "all real 2x2 strains with positive determinant"
ALLT = "all temperatures >= 0"


@harness(bounds=f"pairs of {ALLT}")
def share(c):
    """The austenite share starts at zero, grows and stays below one."""
    t1, t2 = c.real("theta1", 0), c.real("theta2", 0)
    c.assume(t1 < t2)
    c.check_eq(austenite_percentage(0), 0, "share(0) = 0")
    s1, s2 = austenite_percentage(t1), austenite_percentage(t2)
    c.check(s1 < s2, "share increases")
    c.check(s2 < 1, "share < 1")
    c.check_ge(s1, 0, "share >= 0")


@harness(bounds=ALLT)
def weight(c):
    """The weight is the share minus temperature times its derivative: in [0, 1)."""
    t = c.real("theta", 0)
    w = internal_energy_weight(t)
    ds = c.derivative(austenite_percentage, [t], [1])
    c.check_eq(w, austenite_percentage(t) - t * ds, "weight = s - theta s'", tol=1e-5)
    c.check_ge(w, 0, "weight >= 0")
    c.check_ge(1, w, "weight <= 1")
    c.check_eq(internal_energy_weight(0), 0, "weight(0) = 0")
    c.check_ge(c.derivative(internal_energy_weight, [t], [1]), 0, "weight does not decrease")


@harness(bounds="all temperatures > 0")
def weight_strict(c):
    """Strictly: the weight is positive, below one and increasing at positive temperatures."""
    t = c.real("theta", 0, open_lo=True)
    w = internal_energy_weight(t)
    c.check(w > 0, "weight > 0")
    c.check(w < 1, "weight < 1")
    c.check(c.derivative(internal_energy_weight, [t], [1]) > 0, "weight increases")


@harness(bounds=f"{ALLF}; {ALLT}")
def internal(c):
    """E = psi - theta d psi / d theta + c theta."""
    F, t = strain(c), c.real("theta", 0)
    psi = lambda u: total_elastic_potential(F, u) - total_elastic_potential(F, 0)  # noqa: E731
    d = c.derivative(psi, [t], [1])
    e0 = internal_energy_no_entropy(F, t)
    c.check_eq(e0, psi(t) - t * d, "E_0 = psi - theta psi'", tol=1e-4)
    c.check_eq(internal_energy(F, t), e0 + ENTROPY_CONSTANT * t, "E = E_0 + c theta")
    c.check_eq(internal_energy_no_entropy(F, 0), 0, "E_0 vanishes at zero temperature")
    c.check_eq(internal_energy(F, 0), 0, "E vanishes at zero temperature")
    c.check(ENTROPY_CONSTANT > 0, "entropy constant is positive")


@harness(bounds=f"{ALLF}; {ALLT}")
def weighting(c):
    """The internal energy is the weight times the difference of both energies."""
    F, t = strain(c), c.real("theta", 0)
    d = austenite_potential(F) - martensite_potential(F)
    c.check_eq(internal_energy_no_entropy(F, t), internal_energy_weight(t) * d, "E_0 = w (W_a-W_m)")


@harness(bounds=f"{ALLF}; {ALLT}")
def antiderivative(c):
    """The antiderivative vanishes at zero temperature and differentiates to E_0."""
    F, t = strain(c), c.real("theta", 0)
    A = temp_antrider_internal_energy_no_entropy
    c.check_eq(A(F, 0), 0, "A(F, 0) = 0")
    d = c.derivative(lambda u: A(F, u), [t], [1])
    c.check_eq(d, internal_energy_no_entropy(F, t), "dA/dtheta = E_0", tol=1e-4)
