"""C30 Recorded steps are immutable history and evaluate to what was recorded."""

from vt.harness import harness
from vt.pictures import FakePlots
from vt.scheme import *  # noqa: F401,F403
from vt.steps import *  # noqa: F401,F403
from vt.records import *  # noqa: F401,F403

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "the optimiser answers within the bounds of the model",
    "points of evaluation are grid points or at least 1e-6 away from the edges of the mesh",
]
OUTSIDE = "more than three steps after the initial ones; the drawing library itself"


def locate(c, grid, x):
    """A triangle of the grid holding the point (forks)."""
    pts = points2(grid)
    for tri in grid.triangles:
        if c.fork(c.all_of([l >= 0 for l in tri_coordinates(c, pts, tri, x)])):
            return tri
    c.assume(False)


def off_edges(c, grid, x):
    pts = points2(grid)
    for tri in grid.triangles:
        for l in tri_coordinates(c, pts, tri, x):
            c.assume(c.any_of([l >= 2e-6, l <= -2e-6]))


KINDS = [(0, CELL), (0, SHAPES[1]), (1, CELL), (2, CELL)]


@harness(bounds="one to two cells, regularized with factors 1 and 2: all answers; all points away from edges of the mesh; two steps", cost=8)
def between(c):
    """Values in between the grid points, for every recorded step."""
    factor, shape = c.choice("kind", KINDS)
    prob = Problem(c, shape, factor, loads=False)
    sim, records = simulate(c, prob, [1])
    c.check(len(sim.steps) == len(records), "one record per step")
    x = [c.real("x", 0, shape[0]), c.real("y", 0, shape[1])]
    fine = prob.fine or prob.grid
    off_edges(c, fine, x)
    if fine is not prob.grid:
        off_edges(c, prob.grid, x)
    home, ftri = locate(c, prob.grid, x), locate(c, fine, x)
    l = tri_coordinates(c, points2(fine), ftri, x)
    for k, (st, (y, th)) in enumerate(zip(sim.steps, records)):
        got, want = st.y(x[0], x[1]), value(c, prob, y, home, x)
        for m in range(2):
            c.check_eq(got[m], want[m], f"record {k}: deformation", scale=100, rounding=True)
        c.check_eq(st.theta(x[0], x[1]), p1_value(ftri, l, th), f"record {k}: temperature", scale=100, rounding=True)


GROUPS = [[3], [1, 1, 1], [2, 1]]


@harness(bounds="as between, at the vertices; three steps in three groupings", cost=7)
def vertices(c):
    """Values at the vertices, the highest temperature, and early steps while later ones are computed."""
    factor, shape = c.choice("kind", KINDS[:2] + KINDS[3:])
    prob = Problem(c, shape, factor, loads=False)
    rec = Recorder(c, prob)
    with Hooked(rec), c.defined(), c.reciprocals(), c.snapped_naming(at_least=6):
        sim = prob.simulation()
        check_vertices(c, prob, sim, rec.records)
        for g in c.choice("runs", GROUPS if not factor else [[2], [1, 1]]):
            sim.run(g)
            check_vertices(c, prob, sim, rec.records)


def check_vertices(c, prob, sim, records):
    c.check(len(sim.steps) == len(records), "one record per step")
    for k, (st, (y, th)) in enumerate(zip(sim.steps, records)):
        for v, (p, q) in enumerate(points2(prob.grid)):
            want = positions(prob, y)[v]
            for m in range(2):
                c.check_close(st.y(p, q)[m], want[m], 1e-7, f"record {k}: deformation at the vertices")
        for v, (p, q) in enumerate(points2(prob.fine or prob.grid)):
            c.check_close(st.theta(p, q), th[v], 1e-7, f"record {k}: temperature at the vertices")
    hottest = sim.max_temp()
    temps = [t for _, th in records for t in th]
    bounds(c, hottest, temps, 1, "highest temperature")


@harness(bounds="one cell, two cells, one cell regularized: all answers; two steps, every one of them drawn", cost=8)
def plots(c):
    """What is drawn for each step, and the limits of the axes."""
    factor, shape = c.choice("kind", KINDS[:3])
    prob = Problem(c, shape, factor, loads=False)
    sim, records = simulate(c, prob, [1])
    n = len(records)
    i = c.choice("step", list(range(n)) + ([-1] if not factor else []))
    with FakePlots() as fake:
        sim.plot_step(i)
    c.check(len(fake.axes) == 1, "one figure")
    ax = fake.axes[0]
    check_picture(c, prob, records, i, ax.lims, ax.drawn)
