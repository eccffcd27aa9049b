"""C05 Point location finds a triangle containing the point."""

from vt.harness import harness
from vt.common import bary_point
from tvemoves_rufbad.domain import RectangleDomain, Grid, Boundary
from tvemoves_rufbad.tensors import Vector

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "more cells than stated; points between 1e-12 and 1e-8 scales outside the boundary are not judged"

SCALES = {"1": 1.0, "1/3": 1 / 3, "1e-9": 1e-9, "1e-6": 1e-6, "1e6": 1e6}


def located(c, g, r, p, s, label):
    """A result that is not None: one of the triangles, and coordinates that reproduce the point."""
    c.check(tuple(r.triangle) in {tuple(t) for t in g.triangles}, f"{label}: one of the triangles")
    l = list(r.coordinates)
    c.check(len(l) == 3, f"{label}: three coordinates")
    for k in range(3):
        c.check_ge(l[k], -1e-8, f"{label}: coordinate {k} not negative")
    c.check_eq(l[0] + l[1] + l[2], 1, f"{label}: coordinates sum to one")
    q = bary_point([g.points[v] for v in r.triangle], l)
    for m in range(2):
        c.check_eq(q[m], p[m], f"{label}: the point is reproduced ({'xy'[m]})", scale=s)


def locate(c, g, s, nx, ny, label, margin=0.75):
    u, v = c.real("u", -margin, nx + margin), c.real("v", -margin, ny + margin)
    p = Vector([u * s, v * s])
    r = g.to_barycentric_point(p)
    if r is None:
        tiny = 1e-12
        inside = c.all_of([u >= -tiny, u <= nx + tiny, v >= -tiny, v <= ny + tiny])
        c.check(c.not_(inside), f"{label}: points of the domain are found")
        return
    far = 1e-8
    c.check(
        c.all_of([u >= -far, u <= nx + far, v >= -far, v <= ny + far]),
        f"{label}: points outside are reported as outside",
    )
    located(c, g, r, p, s, label)


def run_generated(c, scales, grids):
    name = c.choice("scale", scales)
    nx, ny, ns = c.choice("grid", grids)
    s = c.const(SCALES[name])
    dom = RectangleDomain(nx * s, ny * s)
    g = dom.grid(s)
    for n in ns:
        g = dom.refine(g, n)
    locate(c, g, s, nx, ny, f"{nx}x{ny} scale {name} refined {ns}")


@harness(bounds="up to 2x2 cells, scale 1; all points of the plane within 0.75 scales of the domain", cost=5)
def generated(c):
    """Location in generated grids."""
    run_generated(c, ["1"], [(1, 1, ()), (2, 1, ()), (1, 2, ()), (2, 2, ())])


@harness(bounds="2x1 and 1x2 cells, scales 1e-9, 1e-6, 1/3, 1e6; all points as above", cost=5)
def scaled(c):
    """Location in generated grids of other scales."""
    run_generated(c, ["1e-9", "1e-6", "1/3", "1e6"], [(2, 1, ()), (1, 2, ())])


@harness(bounds="1x1 cell refined by 2 and 3, scales 1 and 1e-6; all points as above", cost=6)
def refined(c):
    """Location in refined grids."""
    run_generated(c, ["1", "1e-6"], [(1, 1, (2,)), (1, 1, (3,))])


@harness(bounds="one cell; all scales; all points of the plane within 0.75 scales", cost=4)
def any_scale(c):
    """Location at any scale."""
    s = c.real("scale", 0, open_lo=True)
    dom = RectangleDomain(s, s)
    locate(c, dom.grid(s), s, 1, 1, "1x1 any scale")


@harness(tier="thorough", bounds="3x3 and 4x2 cells", cost=9)
def generated_large(c):
    """Location in larger grids."""
    nx, ny, ns = c.choice("grid", [(3, 3, ()), (4, 2, ()), (2, 2, (2,)), (1, 1, (5,))])
    s = c.const(1.0)
    dom = RectangleDomain(nx * s, ny * s)
    g = dom.grid(s)
    for n in ns:
        g = dom.refine(g, n)
    locate(c, g, s, nx, ny, f"{nx}x{ny} refined {ns}")


@harness(bounds="the whole plane around a 1x1 and 2x1 grid of scale 1")
def far_away(c):
    """Points anywhere outside."""
    nx = c.choice("nx", [1, 2])
    s = c.const(1.0)
    g = RectangleDomain(nx * s, s).grid(s)
    x, y = c.real("x"), c.real("y")
    c.assume(c.any_of([x > nx + 1e-6, x < -1e-6, y > 1 + 1e-6, y < -1e-6]))
    c.check(g.to_barycentric_point(Vector([x, y])) is None, "outside")


SHAPES = {
    "acute": ((0.0, 0.0), (2.0, 0.5), (0.75, 1.5)),
    "obtuse": ((-1.0, 0.0), (3.0, 0.25), (0.5, 0.5)),
    "clockwise": ((0.0, 0.0), (0.5, 1.0), (2.0, 0.25)),
    "small": ((1.0, 1.0), (1.000002, 1.0), (1.000001, 1.000001)),
}


@harness(bounds="four triangles (acute, obtuse, clockwise, tiny and far from the origin); all points", cost=2)
def one_triangle(c):
    """Location in a mesh of a single triangle of general shape."""
    name = c.choice("shape", list(SHAPES))
    pts = [Vector([c.const(x), c.const(y)]) for x, y in SHAPES[name]]
    e = [(0, 1), (1, 2), (2, 0)]
    b = Boundary([0, 1, 2], e)
    g = Grid([0, 1, 2], e, [(0, 1, 2)], b, Boundary([], []), b, pts)
    a, b2 = c.real("a", -2, 3), c.real("b", -2, 3)
    l = [a, b2, 1 - a - b2]
    p = Vector([sum(l[k] * pts[k][m] for k in range(3)) for m in range(2)])
    r = g.to_barycentric_point(p)
    if r is None:
        c.check(c.not_(c.all_of([x >= 1e-14 for x in l])), f"{name}: points of the triangle are found")
        return
    c.check(c.all_of([x >= -1e-6 for x in l]), f"{name}: points outside are reported as outside")
    c.check(tuple(r.triangle) == (0, 1, 2), f"{name}: the triangle")
    for k in range(3):
        c.check_eq(list(r.coordinates)[k], l[k], f"{name}: coordinate {k}", tol=1e-6)
