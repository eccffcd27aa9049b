"""C01 The generated grid is a conforming triangulation of the rectangle."""

from vt.harness import harness
from vt.mesh import Lattice, valid, check_mesh
from tvemoves_rufbad.domain import RectangleDomain

ASSUMPTIONS = ["floating point idealised as real arithmetic, except that quotients may be off by 1e-14"]
OUTSIDE = "more cells than stated; rectangles smaller than one cell"
FIX = [None, ["lower", "left"]]


def run(c, cap):
    w, h = c.real("width", 0, open_lo=True), c.real("height", 0, open_lo=True)
    s = c.real("scale", 0, open_lo=True)
    c.assume(w >= s)
    c.assume(h >= s)
    c.assume(w <= (cap + 0.5) * s)
    c.assume(h <= (cap + 0.5) * s)
    g = RectangleDomain(w, h, c.choice("fix", FIX)).grid(s)
    if not valid(c, g, "grid"):
        return
    lat = Lattice(c, g.points, s, "grid")
    nx, ny = max(i for i, _ in lat.index), max(j for _, j in lat.index)
    for n, side, name in ((nx, w, "width"), (ny, h, "height")):
        c.check_ge(side + 1e-6 * s, n * s, f"{name}: cells fit into the rectangle")
        # a side that is a whole number of scales up to rounding gets that number of cells
        c.check(side < (n + 1) * s * (1 - 1e-14), f"{name}: no row of cells is missing")
    check_mesh(c, g, lat, nx, ny, "grid")


@harness(bounds="all widths, heights, scales with 1 to 3 cells along each side", cost=2)
def triangulation(c):
    """Structure of the grid for every rectangle."""
    run(c, 3)


@harness(tier="thorough", bounds="all widths, heights, scales with 1 to 7 cells along each side", cost=9)
def triangulation_large(c):
    """Structure of the grid for every rectangle."""
    run(c, 7)


@harness(bounds="sides of 1 to 40 scales, exact up to relative rounding 1e-14; all scales", cost=3)
def rounding(c):
    """A side that is n scales up to rounding has n cells."""
    s = c.real("scale", 0, open_lo=True)
    n = c.choice("n", list(range(1, 41)))
    d = c.real("delta", -1e-14, 1e-14)
    long = n * s * (1 + d)
    g = RectangleDomain(long, s).grid(s)
    c.check(len(g.points) == 2 * (n + 1), f"{n} cells wide")
    c.check(len(g.triangles) == 2 * n, f"{n} cells wide: triangles")
    g = RectangleDomain(s, long).grid(s)
    c.check(len(g.points) == 2 * (n + 1), f"{n} cells high")
    c.check(len(g.triangles) == 2 * n, f"{n} cells high: triangles")
