"""C13 Quadrature rules integrate polynomials of their degree exactly."""

from math import factorial
from fractions import Fraction

from vt.harness import harness
from tvemoves_rufbad.quadrature_rules import (
    CENTROID,
    VERTEX,
    DUNAVANT2,
    DUNAVANT3,
    DUNAVANT4,
    DUNAVANT5,
    DUNAVANT_QUADRATURE_RULES,
    TriangleQuadratureRule,
    GaussQuadratureRule,
)

ASSUMPTIONS = [
    "points and weights of the rules are the floats the module computes at import, taken exactly",
    "tolerance for polynomials with coefficients in [-1, 1]: 3e-14 in triangles (tables carry 15 digits), "
    "1e-12 on edges",
]
OUTSIDE = "edge rules with more points than stated"
RULES = {
    "CENTROID": (CENTROID, 1),
    "VERTEX": (VERTEX, 1),
    "DUNAVANT2": (DUNAVANT2, 2),
    "DUNAVANT3": (DUNAVANT3, 3),
    "DUNAVANT4": (DUNAVANT4, 4),
    "DUNAVANT5": (DUNAVANT5, 5),
    **{f"DUNAVANT_QUADRATURE_RULES[{k}]": (r, k + 1) for k, r in enumerate(DUNAVANT_QUADRATURE_RULES)},
}
TOL = 3e-14
GAUSS_TOL = 1e-12
ROUNDING = 1e-9


def exponents(d):
    return [(i, j, d - i - j) for i in range(d + 1) for j in range(d + 1 - i)]


def power(x, k):
    r = 1.0
    for _ in range(k):
        r = r * x
    return r


@harness(
    bounds="every rule; all polynomials of its degree with coefficients in [-1, 1], written in "
    "barycentric coordinates (every polynomial on every triangle has this form up to a factor)"
)
def triangle_exact(c):
    """Sum of weights times values equals the mean of the polynomial over the triangle."""
    name = c.choice("rule", list(RULES))
    rule, d = RULES[name]
    q, ref = c.const(0), c.const(0)
    pairs = list(rule)
    for k, (a1, a2, a3) in enumerate(exponents(d)):
        a = c.real(f"a{k}", -1, 1)
        ref = ref + a * Fraction(
            2 * factorial(a1) * factorial(a2) * factorial(a3), factorial(d + 2)
        ) if c.symbolic else ref + a * 2 * factorial(a1) * factorial(a2) * factorial(a3) / factorial(d + 2)
        for w, p in pairs:
            l1, l2, l3 = p
            q = q + a * (w * power(l1, a1) * power(l2, a2) * power(l3, a3))
    c.check_close(q, ref, TOL, f"{name}: exact of degree {d}")


@harness(bounds="every rule")
def triangle_shape(c):
    """Weights sum to one, points lie in the triangle, iteration pairs weights with points."""
    name = c.choice("rule", list(RULES))
    rule, _ = RULES[name]
    c.check_close(c.const(sum(rule.weights)), 1, TOL, f"{name}: weights sum to one")
    c.check(len(rule.weights) == len(rule.points), f"{name}: as many weights as points")
    for p in rule.points:
        c.check(len(list(p)) == 3 and min(p) >= 0, f"{name}: points in the triangle")
    it = list(rule)
    same = len(it) == len(rule.weights) and all(
        w == v and list(p) == list(r) for (w, p), v, r in zip(it, rule.weights, rule.points)
    )
    c.check(same, f"{name}: iteration")


def gauss(c, degrees):
    n = c.choice("n", degrees)
    rule = GaussQuadratureRule(n)
    c.check(len(list(rule)) == n, f"{n} points")
    c.check(all(0 < t < 1 for _, t in rule), f"{n}: points inside the edge")
    c.check_close(c.const(float(sum(w for w, _ in rule))), 1, GAUSS_TOL, f"{n}: weights sum to one")
    q, ref = c.const(0), c.const(0)
    for k in range(2 * n):
        a = c.real(f"a{k}", -1, 1)
        ref = ref + a / (k + 1)
        for w, t in rule:
            q = q + a * (float(w) * power(float(t), k))
    c.check_close(q, ref, GAUSS_TOL, f"{n} points: exact of degree {2 * n - 1}")


@harness(bounds="1 to 6 points; all polynomials of degree 2n-1 with coefficients in [-1, 1]")
def edge_exact(c):
    """n points on an edge integrate degree 2n-1."""
    gauss(c, [1, 2, 3, 4, 5, 6])


@harness(bounds="rules of 1 to 4 points, each built up to three times; all polynomials as above")
def edge_exact_again(c):
    """Building rules of the same or of another order does not change the next one."""
    for n in c.choice("built before", [[], [2], [2, 2], [3, 1], [1, 4], [4, 4]]):
        GaussQuadratureRule(n)
    gauss(c, [1, 2, 3, 4])


@harness(tier="thorough", bounds="7 to 24 points; all polynomials of degree 2n-1, coefficients in [-1, 1]")
def edge_exact_more(c):
    """n points on an edge integrate degree 2n-1."""
    gauss(c, list(range(7, 25)))


def inside(c, x, y, margin=0):
    return c.all_of([x >= -margin, y >= -margin, x + y <= 1 + margin])


@harness(
    bounds="rules of 1 to 3 points; all weights summing to one, all points but those outside the triangle by "
    "less than 1e-9 only"
)
def refuse_points(c):
    """A rule is refused exactly when one of its points leaves the triangle."""
    n = c.choice("n", [1, 2, 3])
    w = [c.real(f"w{k}") for k in range(n - 1)]
    w.append(1 - sum(w))
    ps = [(c.real(f"x{k}"), c.real(f"y{k}")) for k in range(n)]
    ok = c.fork(c.all_of([inside(c, x, y) for x, y in ps]))
    if not ok:
        c.assume(c.any_of([c.not_(inside(c, x, y, ROUNDING)) for x, y in ps]))
        c.raises(ValueError, lambda: TriangleQuadratureRule(list(w), ps), "outside: refused")
        return
    r = TriangleQuadratureRule(list(w), ps)
    for (v, p), u, (x, y) in zip(list(r), w, ps):
        c.check_eq(v, u, "weight kept")
        l1, l2, l3 = p
        c.check_eq(l1, x, "first coordinate")
        c.check_eq(l2, y, "second coordinate")
        c.check_eq(l3, 1 - x - y, "third coordinate")


@harness(bounds="rules of 1 to 3 points; all points in the triangle, weights off by more than 1e-6")
def refuse_weights(c):
    """A rule whose weights do not sum to one is refused."""
    n = c.choice("n", [1, 2, 3])
    w = [c.real(f"w{k}") for k in range(n)]
    s = sum(w)
    c.assume(c.any_of([s > 1.000001, s < 0.999999]))
    ps = [(c.real(f"x{k}", 0, 1), c.real(f"y{k}", 0, 1)) for k in range(n)]
    for x, y in ps:
        c.assume(x + y <= 1)
    c.raises(ValueError, lambda: TriangleQuadratureRule(list(w), ps), "weights: refused")
