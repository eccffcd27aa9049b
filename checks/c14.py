"""C14 Integrals add up over the mesh and scale with area and length."""

from itertools import permutations

from vt.harness import harness
from vt.fem import in_a_row, SIZES
from tvemoves_rufbad.tensors import Vector
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.integrators import Integrator, BoundaryIntegrator
from tvemoves_rufbad.quadrature_rules import (
    CENTROID,
    VERTEX,
    DUNAVANT2,
    DUNAVANT3,
    DUNAVANT4,
    DUNAVANT5,
    GaussQuadratureRule,
)

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "more than four triangles or edges in one list; rounding"
RULES = {
    "CENTROID": CENTROID,
    "VERTEX": VERTEX,
    "DUNAVANT2": DUNAVANT2,
    "DUNAVANT3": DUNAVANT3,
    "DUNAVANT4": DUNAVANT4,
    "DUNAVANT5": DUNAVANT5,
}
EXACT = ["CENTROID", "VERTEX", "DUNAVANT2", "DUNAVANT3"]
PERMS = list(permutations(range(3)))


def pts(c, n):
    return [Vector([c.real(f"x{k}"), c.real(f"y{k}")]) for k in range(n)]


def area2(c, p, q, r):
    """Twice the area."""
    d = (q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1])
    return c.ite(d < 0, -d, d)


class Table:
    """An integrand with independent arbitrary values at every (cell, quadrature point)."""

    def __init__(self, c, name):
        self.c, self.name, self.v = c, name, {}

    def __call__(self, cell, p):
        k = (tuple(cell), tuple(float(x) for x in p) if hasattr(p, "__iter__") else float(p))
        if k not in self.v:
            self.v[k] = self.c.real(f"{self.name}{len(self.v)}")
        return self.v[k]


@harness(bounds="one triangle at all positions (6 vertex orders); all values at the points; all rules")
def triangle_weighting(c):
    """The integral over one triangle is its area times the weighted values."""
    rule = RULES[c.choice("rule", list(RULES))]
    t = c.choice("order", PERMS)
    P = pts(c, 3)
    f = Table(c, "f")
    q = Integrator(rule, [t], P)(f)
    A = area2(c, *P)
    ref = sum(w * f(t, p) for w, p in rule)
    c.check_eq(q, A * ref / 2, "area times mean")


@harness(bounds="two triangles (sharing any number of vertices, also the same one) at all positions; all values")
def triangle_additive(c):
    """The integral over a list is the sum of the integrals; linear in the integrand."""
    rule = RULES[c.choice("rule", ["CENTROID", "DUNAVANT2"])]
    t1, t2 = (0, 1, 2), c.choice(
        "second",
        [(3, 4, 5), (2, 1, 3), (1, 0, 3), (2, 3, 4), (4, 2, 3), (0, 1, 2), (1, 2, 0), (0, 2, 1)],
    )
    P = pts(c, 6)
    f, g = Table(c, "f"), Table(c, "g")
    a, b = c.real("a"), c.real("b")
    both = Integrator(rule, [t1, t2], P)
    i1, i2 = Integrator(rule, [t1], P), Integrator(rule, [t2], P)
    c.check_eq(both(f), i1(f) + i2(f), "additive")
    c.check_eq(
        both(lambda t, p: a * f(t, p) + b * g(t, p)), a * both(f) + b * both(g), "linear"
    )
    c.check_eq(Integrator(rule, [t2, t1], P)(f), both(f), "order of the list")
    c.check_eq(Integrator(rule, [], P)(f), 0, "nothing to integrate over")


@harness(bounds=f"two lists of a triangle and of an edge in a row, {SIZES}, at angles that are not very flat")
def in_sequence(c):
    """Areas and lengths do not depend on lists integrated over earlier."""
    triangles, h = in_a_row(c)
    t = c.choice("order", PERMS)
    for n, p in enumerate(triangles):
        P = [Vector(v) for v in p]
        q = Integrator(CENTROID, [tuple(t)], P)(lambda tri, x: 1)
        c.check_eq(q / (h * h), area2(c, *P) / 2 / (h * h), f"area of triangle {n}")
        q = BoundaryIntegrator(1, [t[:2]], P)(lambda edge, x: 1)
        d = P[t[0]] - P[t[1]]
        c.check_ge(q, 0, f"length of edge {n} is not negative")
        c.check_eq(q * q / (h * h), (d[0] * d[0] + d[1] * d[1]) / (h * h), f"length of edge {n}")


@harness(bounds="three triangles at all positions, all vertex orders; rules exact in rationals")
def triangle_area(c):
    """Integrating one gives the total area."""
    rule = RULES[c.choice("rule", EXACT)]
    P = pts(c, 5)
    t = c.choice("order", PERMS)
    ts = [tuple(t), (1, 2, 3), (4, 3, 2)]
    q = Integrator(rule, ts, P)(lambda tri, p: 1)
    ref = sum(area2(c, *[P[i] for i in s]) for s in ts) / 2
    c.check_eq(q, ref, "total area")


@harness(bounds="one triangle at all positions; all polynomials of degree 1 (2 for DUNAVANT2)")
def triangle_polynomials(c):
    """Polynomials of the degree of the rule are integrated exactly."""
    name = c.choice("rule", ["CENTROID", "VERTEX", "DUNAVANT2"])
    P = pts(c, 3)
    A = area2(c, *P) / 2
    k = [c.real(f"k{i}") for i in range(6)]
    X, Y = [p[0] for p in P], [p[1] for p in P]

    def mean2(U, V):
        return (sum(U) * sum(V) + sum(u * v for u, v in zip(U, V))) / 12

    def f(tri, l):
        x = sum(l[i] * X[t] for i, t in enumerate(tri))
        y = sum(l[i] * Y[t] for i, t in enumerate(tri))
        r = k[0] + k[1] * x + k[2] * y
        if name == "DUNAVANT2":
            r = r + k[3] * x * x + k[4] * x * y + k[5] * y * y
        return r

    ref = k[0] + k[1] * sum(X) / 3 + k[2] * sum(Y) / 3
    if name == "DUNAVANT2":
        ref = ref + k[3] * mean2(X, X) + k[4] * mean2(X, Y) + k[5] * mean2(Y, Y)
    q = Integrator(RULES[name], [c.choice("order", PERMS)], P)(f)
    c.check_eq(q, A * ref, f"{name}: exact")


def length(c, p, q):
    return c.sqrt((p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1]))


@harness(bounds="one edge in both directions at all positions; 1 to 3 and 6 points; all values")
def edge_weighting(c):
    """The integral over one edge is its length times the weighted values."""
    n = c.choice("n", [1, 2, 3, 6])
    e = c.choice("direction", [(0, 1), (1, 0)])
    P = pts(c, 2)
    f = Table(c, "f")
    q = BoundaryIntegrator(n, [e], P)(f)
    L = length(c, *P)
    c.check_eq(q, L * sum(float(w) * f(e, t) for w, t in GaussQuadratureRule(n)), "length times mean")
    # the length is the true one: non-negative with the right square
    one = BoundaryIntegrator(1, [e], P)(lambda edge, t: 1)
    c.check_eq(one * one, (P[0] - P[1]).normsqr(), "squared length")
    c.check_ge(one, 0, "length >= 0")


@harness(bounds="two edges (joint or not, also the same one) at all positions; 1 or 2 points; all values")
def edge_additive(c):
    """Additive over the list and linear in the integrand."""
    n = c.choice("n", [1, 2])
    e1, e2 = (0, 1), c.choice("second", [(2, 3), (1, 2), (3, 0), (0, 1), (1, 0)])
    P = pts(c, 4)
    f, g = Table(c, "f"), Table(c, "g")
    a, b = c.real("a"), c.real("b")
    both = BoundaryIntegrator(n, [e1, e2], P)
    i1, i2 = BoundaryIntegrator(n, [e1], P), BoundaryIntegrator(n, [e2], P)
    c.check_eq(both(f), i1(f) + i2(f), "additive")
    c.check_eq(
        both(lambda t, p: a * f(t, p) + b * g(t, p)), a * both(f) + b * both(g), "linear"
    )
    one = BoundaryIntegrator(1, [e1, e2], P)(lambda e, t: 1)
    c.check_eq(one, length(c, P[0], P[1]) + length(c, P[e2[0]], P[e2[1]]), "total length")
    c.check_eq(BoundaryIntegrator(n, [], P)(f), 0, "nothing to integrate over")


@harness(bounds="lists of four members with and without repetitions, all positions, all values")
def members(c):
    """Every member of the list counts with its own size, however often it is listed."""
    P = pts(c, 4)
    f, g = Table(c, "f"), Table(c, "g")
    ts = c.choice(
        "triangles",
        [
            [(0, 1, 2), (0, 1, 2), (1, 2, 3), (2, 3, 0)],
            [(0, 1, 2), (2, 1, 3), (1, 2, 0), (0, 1, 2)],
            [(3, 1, 2), (0, 2, 1), (0, 1, 2), (1, 3, 0)],
        ],
    )
    es = c.choice(
        "edges",
        [
            [(0, 1), (0, 1), (1, 2), (2, 3)],
            [(0, 1), (1, 2), (1, 0), (0, 1)],
            [(3, 1), (2, 0), (0, 2), (1, 3)],
        ],
    )
    ref = c.const(0)
    for t in ts:
        ref = ref + area2(c, *[P[i] for i in t]) / 2 * sum(w * f(t, p) for w, p in DUNAVANT2)
    inside = Integrator(DUNAVANT2, ts, P)
    c.check_eq(inside(f), ref, "triangles")
    ref = c.const(0)
    for i, j in es:
        ref = ref + length(c, P[i], P[j]) * sum(
            float(w) * g((i, j), t) for w, t in GaussQuadratureRule(2)
        )
    along = BoundaryIntegrator(2, es, P)
    c.check_eq(along(g), ref, "edges")
    c.check_eq(inside(lambda t, p: 0), 0, "zero integrand over triangles")
    c.check_eq(along(lambda e, t: 0), 0, "zero integrand along edges")
    c.check_eq(along(g), ref, "edges again")


@harness(bounds="edges of all lengths along both axes; 1 to 3 points; coefficients in [-1, 1]")
def edge_polynomials(c):
    """n points integrate polynomials of degree 2n-1 along an edge up to rounding."""
    n = c.choice("n", [1, 2, 3])
    L = c.real("L", 0, open_lo=True)
    P = [Vector([0, 0]), c.choice("axis", [Vector([L, 0]), Vector([0, L])])]
    e = c.choice("direction", [(0, 1), (1, 0)])
    a = [c.real(f"a{k}", -1, 1) for k in range(2 * n)]

    def f(edge, t):
        r, p = c.const(0), 1.0
        for x in a:
            r, p = r + x * p, p * float(t)
        return r

    q = BoundaryIntegrator(n, [e], P)(f)
    ref = c.const(0)
    for k, x in enumerate(a):
        ref = ref + x / (k + 1)
    c.check_close(q, L * ref, 1e-12 * L, "exact along the edge")


@harness(bounds="grids of 1x1 to 2x2 cells of all scales, all affine functions", max_paths=400)
def whole_region(c):
    """Over a generated grid the integrals are those of the whole rectangle."""
    nx, ny = c.choice("nx", [1, 2]), c.choice("ny", [1, 2])
    s = c.real("scale", 0, open_lo=True)
    w, h = nx * s, ny * s
    g = RectangleDomain(w, h).grid(s)
    k = [c.real(f"k{i}") for i in range(3)]

    def f(tri, l):
        x = sum(l[i] * g.points[t][0] for i, t in enumerate(tri))
        y = sum(l[i] * g.points[t][1] for i, t in enumerate(tri))
        return k[0] + k[1] * x + k[2] * y

    q = Integrator(CENTROID, g.triangles, g.points)(f)
    c.check_eq(q, w * h * (k[0] + k[1] * w / 2 + k[2] * h / 2), "over the rectangle")
    one = BoundaryIntegrator(1, g.boundary.edges, g.points)(lambda e, t: 1)
    c.check_eq(one, 2 * (w + h), "boundary length")
