"""C10 The C1 interpolation is continuously differentiable across edges."""

from vt.harness import harness
from vt.common import eq_vec
from vt.fem import quiet_grid, bary, in_a_row, SIZES, PERMS3
from tvemoves_rufbad.interpolation import C1Interpolation

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "rounding errors on very flat triangles"

NEIGHBOUR = [(1, 0, 3), (0, 3, 1), (3, 1, 0)]


def pair(c):
    """Two arbitrary non-degenerate triangles (0, 1, 2) and (1, 0, 3) with the common edge 0-1."""
    p = [c.real("px"), c.real("py")]
    e, f, g = ([c.real(f"{n}x"), c.real(f"{n}y")] for n in "efg")
    for v in (f, g):
        c.assume(e[0] * v[1] - e[1] * v[0] != 0)
    pts = [p] + [[p[m] + v[m] for m in range(2)] for v in (e, f, g)]
    return pts


def at(tri, t):
    l = [{0: t, 1: 1 - t}.get(v, 0 * t) for v in tri]
    return bary(l[1], l[2])


def data(c, n=4):
    return [[c.real(f"d{i}{j}", -10, 10) for j in range(6)] for i in range(n)]


def run(c, what, orders):
    pts = pair(c)
    t1, t2 = c.choice("orders", orders)
    g = quiet_grid(c, pts, [t1, t2])
    u = C1Interpolation(g, data(c))
    t = c.real("t", 0, 1)
    if what == "value":
        a, b = u(t1, at(t1, t)), u(t2, at(t2, t))
        c.check_eq(a, b, "value from both sides", scale=10)
        c.check_eq(u.on_edge((0, 1), t), a, "evaluation on the edge", scale=10)
        c.check_eq(u.on_edge((1, 0), 1 - t), a, "evaluation on the reversed edge", scale=10)
    else:
        a, b = u.gradient(t1, at(t1, t)), u.gradient(t2, at(t2, t))
        eq_vec(c, a, [b[0], b[1]], "gradient from both sides", scale=10)


# every position of the common edge in either triangle
FIRST = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]
ALL = [(a, b) for a in FIRST for b in NEIGHBOUR]
MIXED = [((0, 2, 1), (1, 0, 3)), ((0, 1, 2), (1, 3, 0)), ((2, 1, 0), (0, 1, 3))]
BOUNDS = "all pairs of non-degenerate triangles (also overlapping ones), all nodal data, all points of the edge; "


@harness(bounds=BOUNDS + "all positions of the edge, either orientation", cost=3)
def value(c):
    """Values agree along the edge."""
    run(c, "value", ALL + MIXED)


@harness(bounds=BOUNDS + "all positions of the edge", cost=6)
def gradient(c):
    """First derivatives agree along the edge."""
    run(c, "gradient", ALL)


@harness(bounds=BOUNDS + "opposite orientations", cost=4)
def gradient_mixed(c):
    """First derivatives agree along the edge."""
    run(c, "gradient", MIXED)


@harness(bounds=f"two triangles in a row, {SIZES}, at angles that are not very flat; all nodal data, all points of an edge", cost=3)
def in_sequence(c):
    """Evaluations do not depend on earlier ones in other triangles or on other edges."""
    triangles, h = in_a_row(c)
    t = (0, 1, 2)
    edge = c.choice("edge", [(0, 1), (1, 0), (2, 1)])
    s = c.real("t", 0, 1)
    units = [h * h, h, h, 1, 1, 1]
    for n, pts in enumerate(triangles):
        g = quiet_grid(c, pts, [t])
        u = C1Interpolation(g, [[c.real(f"d{n}{i}{j}", -10, 10) * units[j] for j in range(6)] for i in range(3)])
        l = [{edge[0]: s, edge[1]: 1 - s}.get(v, 0 * s) for v in t]
        c.check_eq(u.on_edge(edge, s), u(t, bary(l[1], l[2])), f"edge of triangle {n}", scale=10 * h * h)


@harness(bounds="all non-degenerate triangles in all vertex orders, all nodal data, all points of all edges", cost=3)
def edges_of_a_triangle(c):
    """Every edge of a triangle: value and edge evaluation."""
    from vt.fem import triangle_inputs

    pts, e, f = triangle_inputs(c)
    order = c.choice("order", PERMS3)
    g = quiet_grid(c, pts, [order])
    u = C1Interpolation(g, data(c, 3))
    t = c.real("t", 0, 1)
    for a, b in ((0, 1), (1, 2), (2, 0)):
        l = [{a: t, b: 1 - t}.get(v, 0 * t) for v in order]
        v = u(order, bary(l[1], l[2]))
        c.check_eq(u.on_edge((a, b), t), v, f"edge {a}-{b}", scale=10)
        c.check_eq(u.on_edge((b, a), 1 - t), v, f"edge {b}-{a}", scale=10)
