"""C09 The C1 interpolation reproduces every quartic polynomial."""

from vt.harness import harness
from vt.common import eq_vec, eq_mat
from vt.fem import quiet_grid, bary, triangle_inputs, in_a_row, SIZES, Poly, PERMS3
from tvemoves_rufbad.interpolation import C1Interpolation

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
]
OUTSIDE = "rounding errors on very flat triangles"

MONO = [(i, d - i) for d in range(5) for i in range(d, -1, -1)]


def reproduce(c, pts, order, poly, l2, l3, what=("value", "gradient", "hessian"), label=""):
    g = quiet_grid(c, pts, [order])
    u = C1Interpolation(g, [poly(p) for p in pts])
    q = [pts[k] for k in order]
    l1 = 1 - l2 - l3
    x = [q[0][m] * l1 + q[1][m] * l2 + q[2][m] * l3 for m in range(2)]
    j = poly(x)
    l = bary(l2, l3)
    if "value" in what:
        c.check_eq(u(order, l), j[0], f"{label}value", scale=10)
    if "gradient" in what:
        eq_vec(c, u.gradient(order, l), [j[1], j[2]], f"{label}gradient", scale=10)
    if "hessian" in what:
        eq_mat(c, u.hessian(order, l), [[j[3], j[4]], [j[4], j[5]]], f"{label}hessian", scale=10)


def inside(c):
    l2, l3 = c.real("l2", 0, 1), c.real("l3", 0, 1)
    c.assume(l2 + l3 <= 1)
    return l2, l3


def quartic(c, what):
    pts, e, f = triangle_inputs(c)
    order = c.choice("order", PERMS3)
    l2, l3 = inside(c)
    m = Poly({k: c.real(f"a{k[0]}{k[1]}", -10, 10) for k in MONO})

    def poly(p):
        return m.jet(p[0] - pts[0][0], p[1] - pts[0][1])

    reproduce(c, pts, order, poly, l2, l3, [what])


ALL = "all non-degenerate triangles in all six vertex orders, all points, all polynomials of degree up to 4"


@harness(bounds=ALL, cost=3)
def value(c):
    """Values of quartics."""
    quartic(c, "value")


@harness(bounds=ALL, cost=4)
def gradient(c):
    """Gradients of quartics."""
    quartic(c, "gradient")


@harness(bounds=ALL, cost=5)
def hessian(c):
    """Hessians of quartics."""
    quartic(c, "hessian")


@harness(bounds="all non-degenerate triangles in all vertex orders, all 18 nodal data", cost=3)
def nodal(c):
    """The prescribed data are taken on at each corner."""
    pts, e, f = triangle_inputs(c)
    order = c.choice("order", PERMS3)
    g = quiet_grid(c, pts, [order])
    data = [[c.real(f"d{i}{j}", -10, 10) for j in range(6)] for i in range(3)]
    u = C1Interpolation(g, data)
    for k, v in enumerate(order):
        l = [1 if k == m else 0 for m in range(3)]
        l = bary(c.const(l[1]), c.const(l[2]))
        d = data[v]
        c.check_eq(u(order, l), d[0], f"value at corner {v}")
        eq_vec(c, u.gradient(order, l), [d[1], d[2]], f"gradient at corner {v}")
        eq_mat(c, u.hessian(order, l), [[d[3], d[4]], [d[4], d[5]]], f"hessian at corner {v}")


@harness(bounds=f"two triangles in a row, {SIZES}, at angles that are not very flat; all nodal data", cost=3)
def in_sequence(c):
    """An evaluation does not depend on earlier ones in other triangles."""
    triangles, h = in_a_row(c)
    what = c.choice("what", ["value", "gradient", "hessian"])
    t = (0, 1, 2)
    l = bary(c.const(1), c.const(0))
    units = [h * h, h, h, 1, 1, 1]
    for n, pts in enumerate(triangles):
        g = quiet_grid(c, pts, [t])
        d = [[c.real(f"d{n}{i}{j}", -10, 10) * units[j] for j in range(6)] for i in range(3)]
        u = C1Interpolation(g, d)
        d = d[1]
        if what == "value":
            c.check_eq(u(t, l), d[0], f"value in triangle {n}", scale=h * h)
        if what == "gradient":
            eq_vec(c, u.gradient(t, l), [d[1], d[2]], f"gradient in triangle {n}", scale=h)
        if what == "hessian":
            eq_mat(c, u.hessian(t, l), [[d[3], d[4]], [d[4], d[5]]], f"hessian in triangle {n}", scale=10)


@harness(bounds="nodal data of 0 to 6 vertices with 5 to 7 entries on a grid of 4 vertices")
def wrong_number(c):
    """A wrong number of nodal data is rejected."""
    g = quiet_grid(c, [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0)], [(0, 1, 2), (3, 2, 1)])
    v = c.real("v")
    for n in (0, 1, 2, 3, 5, 6):
        c.raises(ValueError, lambda: C1Interpolation(g, [[v] * 6] * n), f"{n} vertices refused")
    for m in (0, 1, 5, 7):
        c.raises(ValueError, lambda: C1Interpolation(g, [[v] * 6] * 3 + [[v] * m]), f"{m} entries refused")
    C1Interpolation(g, [[v] * 6] * 4)
