"""C03 Refining a grid gives the grid of the finer scale."""

import copy

from vt.harness import harness
from vt.mesh import Lattice, valid, canon, reference, check_mesh, SIDES
from vt.noise import scale_choice, mid
from tvemoves_rufbad.domain import RectangleDomain, Grid, RefinedGrid

ASSUMPTIONS = [
    "floating point idealised as real arithmetic in the harnesses over all scales",
    "the rounding harness gives every arithmetic operation an arbitrary relative error of 2^-52",
]
OUTSIDE = "more cells and larger factors than stated"
FIX = [None, "lower", ["lower", "right"], ["left", "upper"], list(SIDES)]


def sides(fix):
    return () if fix is None else (fix,) if isinstance(fix, str) else tuple(fix)


def compare(c, dom, fine, s, nx, ny, n, fix, label):
    """The refined grid is the directly generated grid of scale s / n up to numbering."""
    unit = s / n
    if not valid(c, fine, label):
        return
    lat = Lattice(c, fine.points, unit, label)
    check_mesh(c, fine, lat, nx * n, ny * n, label)
    got = canon(fine, lat)
    ref = reference(nx * n, ny * n, sides(fix))
    for part in ("points", "boundary", "dirichlet", "neumann"):
        c.check(got[part] == ref[part], f"{label}: {part} as described")
    direct = dom.grid(unit)
    if valid(c, direct, label + " direct"):
        want = canon(direct, Lattice(c, direct.points, unit, label + " direct"))
        for part in want:
            c.check(got[part] == want[part], f"{label}: {part} as in the direct grid")


def snap(g):
    return (
        list(g.vertices),
        list(g.edges),
        list(g.triangles),
        [
            (list(b.vertices), list(b.edges))
            for b in (g.boundary, g.dirichlet_boundary, g.neumann_boundary)
        ],
    )


def run(c, configs):
    s = c.real("scale", 0, open_lo=True)
    nx, ny, n, fix = c.choice("config", configs)
    dom = RectangleDomain(nx * s, ny * s, fix)
    g = dom.grid(s)
    before, pts = snap(g), list(g.points)
    fine = dom.refine(g, n)
    label = f"{nx}x{ny} by {n}"
    c.check(isinstance(fine, RefinedGrid), f"{label}: a refined grid")
    compare(c, dom, fine, s, nx, ny, n, fix, label)
    c.check(snap(g) == before, f"{label}: coarse grid unmodified")
    c.check(len(g.points) == len(pts), f"{label}: coarse points unmodified")
    for k, (p, q) in enumerate(zip(g.points, pts)):
        for m in range(2):
            c.check_eq(p[m], q[m], f"{label}: coarse point {k} unmodified", scale=s)
            c.check_eq(fine.points[k][m], q[m], f"{label}: vertex {k} keeps its position", scale=s)
    co = fine.coarse()
    c.check(snap(co) == before, f"{label}: the coarse grid is reachable")


SMALL = [
    (nx, ny, n, fix)
    for nx, ny in ((1, 1), (2, 1), (1, 2))
    for n in (1, 2, 3)
    for fix in FIX
] + [(2, 2, 2, ["lower", "right"]), (1, 1, 4, ["left"]), (1, 1, 5, None)]
LARGE = [(2, 2, 3, f) for f in FIX] + [(3, 2, 2, f) for f in FIX] + [(1, 1, 6, FIX[2]), (2, 1, 5, FIX[3])]


@harness(bounds="up to 2x2 cells, factors 1 to 5, five choices of fixed sides; all scales", cost=5)
def refine(c):
    """Refinement of a generated grid."""
    run(c, SMALL)


@harness(tier="thorough", bounds="up to 3x2 cells, factors up to 6; all scales", cost=9)
def refine_large(c):
    """Refinement of a generated grid."""
    run(c, LARGE)


@harness(bounds="1x1 and 2x1 cells refined by (a, b) up to (2, 2) and (2, 3); all scales", cost=4)
def refine_twice(c):
    """Refining a refined grid."""
    s = c.real("scale", 0, open_lo=True)
    nx, a, b, fix = c.choice(
        "config", [(1, 2, 2, None), (1, 1, 2, ["lower"]), (1, 2, 1, ["right"]), (2, 2, 2, ["left", "lower"])]
    )
    dom = RectangleDomain(nx * s, s, fix)
    mid = dom.refine(dom.grid(s), a)
    before = snap(mid)
    fine = dom.refine(mid, b)
    label = f"{nx}x1 by {a} then {b}"
    compare(c, dom, fine, s, nx, 1, a * b, fix, label)
    c.check(snap(mid) == before, f"{label}: intermediate grid unmodified")
    c.check(snap(fine.coarse()) == before, f"{label}: intermediate grid reachable")
    for k, p in enumerate(mid.points):
        for m in range(2):
            c.check_eq(fine.points[k][m], p[m], f"{label}: vertex {k} keeps its position", scale=s)


@harness(bounds="factors 0, -1, -3 and all real factors below one; all scales")
def reject(c):
    """Factors below one are rejected."""
    s = c.real("scale", 0, open_lo=True)
    dom = RectangleDomain(s, s)
    g = dom.grid(s)
    for n in (0, -1, -3):
        c.raises(ValueError, lambda: dom.refine(g, n), f"factor {n} rejected")
    r = c.real("factor", hi=1, open_hi=True)
    c.raises(ValueError, lambda: dom.refine(g, r), "factor below one rejected")


@harness(
    bounds="up to 2x1 cells, factors 2 and 3, also twice; scales 1, 1/3, 0.1, 1e-9, 700; "
    "every operation rounded with any relative error up to 2^-52",
    cost=8,
    auxiliary=True,
)
def rounding(c):
    """Rounding errors change nothing in the topology."""
    s = scale_choice(c, "scale", [(1, 3), (1, 1), (1, 10), (1, 10**9), (700, 1)])
    nx, ny, ns = c.choice("config", [(1, 1, (3,)), (2, 1, (2,)), (1, 1, (3, 2)), (1, 1, (5,))])
    dom = RectangleDomain(nx * s, ny * s, "lower")
    fine, n = dom.grid(s), 1
    for k in ns:
        fine, n = dom.refine(fine, k), n * k
    label = f"{nx}x{ny} by {ns}"
    if not valid(c, fine, label):
        return
    index = [(round(mid(p[0] / s * n)), round(mid(p[1] / s * n))) for p in fine.points]
    lat = Lattice.__new__(Lattice)
    lat.c, lat.index = c, index
    check_mesh(c, fine, lat, nx * n, ny * n, label)
    got, ref = canon(fine, lat), reference(nx * n, ny * n, ("lower",))
    for part in ("points", "boundary", "dirichlet", "neumann"):
        c.check(got[part] == ref[part], f"{label}: {part} as described")
