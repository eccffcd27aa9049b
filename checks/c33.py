"""C33 Pictures, films and mesh plots show what they are asked to show."""

from vt.harness import harness
from vt.pictures import FakeAxes, FakePlots
from vt.scheme import *  # noqa: F401,F403
from vt.steps import *  # noqa: F401,F403
from vt.records import *  # noqa: F401,F403
from tvemoves_rufbad.domain import RectangleDomain

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "the drawing library draws what it is told (replaced by a stand-in that records the calls)",
]
OUTSIDE = "more steps than stated; colours, line widths and other looks; the files written by the library"

SHAPE2 = SHAPES[1]


@harness(bounds="one cell, plain and regularized: all answers; films of two and three steps", cost=8)
def film(c):
    """A film has one picture of each step, in order."""
    factor, runs = c.choice("kind", [(0, []), (0, [1]), (1, [])])
    prob = Problem(c, CELL, factor, loads=False)
    sim, records = simulate(c, prob, runs)
    name = c.choice("name", ["animation", "some/film"])
    with FakePlots() as fake:
        sim.save_animation(name)
    c.check(len(fake.films) == 1, "one film")
    f = fake.films[0]
    c.check(f.saved == [name + ".mp4"], "saved once under its name")
    c.check(len(f.shown) == len(records), "one picture for each step")
    for k, (lims, drawn) in enumerate(f.shown):
        check_picture(c, prob, records, k, lims, drawn, f"picture {k}: ")


@harness(bounds="one cell: all answers; one to three steps; all indices from -5 to 4", cost=5)
def saved(c):
    """Saving a step writes one file named after the index of the step, showing that step."""
    runs = c.choice("runs", [[], [1]])
    prob = Problem(c, CELL, 0, loads=False)
    sim, records = simulate(c, prob, runs)
    n = len(records)
    i = c.choice("step", list(range(-n - 2, n + 2)))
    path = c.choice("path", ["step", "here/pic"])
    with FakePlots() as fake:
        sim.save_step(i, path) if path != "step" else sim.save_step(i)
    files = [x for f in fake.figures for x in f.saved]
    if not -n <= i < n:
        c.check(not files, "nothing is saved for a step that does not exist")
        c.check(not [x for a in fake.axes for x in a.drawn], "nothing is drawn for a step that does not exist")
        c.check(len(sim.steps) == n, "no step is added")
        return
    c.check(files == [f"{path}_{i % n}.png"], "one file named after the step")
    (ax,) = [f.axes_ for f in fake.figures if f.saved]
    check_picture(c, prob, records, i % n, ax.lims, ax.drawn)


@harness(bounds="as saved", cost=3)
def shown(c):
    """Plotting a step by its index, also counted from the end."""
    runs = c.choice("runs", [[], [1]])
    prob = Problem(c, CELL, 0, loads=False)
    sim, records = simulate(c, prob, runs)
    n = len(records)
    i = c.choice("step", list(range(-n - 2, n + 2)))
    with FakePlots() as fake:
        sim.plot_step(i)
    drawn = [a for a in fake.axes if a.drawn]
    c.check(not [x for f in fake.figures for x in f.saved], "plotting saves nothing")
    if not -n <= i < n:
        c.check(not drawn, "nothing is drawn for a step that does not exist")
        return
    c.check(len(drawn) == 1, "one picture")
    check_picture(c, prob, records, i % n, drawn[0].lims, drawn[0].drawn)


GRIDS = [(1, 1, ()), (2, 1, ()), (1, 2, ()), (2, 2, ()), (1, 1, (2,))]


def segments(ax):
    return [(a, b) for line in ax.lines for a, b in zip(line, line[1:])]


def match(c, got, want, s, label):
    """The points or segments drawn are those wanted, by a witness, then for all inputs."""
    left = list(range(len(want)))
    for item in got:
        g = [c.guess(x / s) for x in item]
        hit = [k for k in left if all(abs(a - c.guess(b / s)) < 1e-6 for a, b in zip(g, want[k]))]
        c.check(bool(hit), f"{label}: nothing else is drawn")
        if not hit:
            return
        left.remove(hit[0])
        for a, b in zip(item, want[hit[0]]):
            c.check_eq(a, b, f"{label}: position", scale=s)
    c.check(not left, f"{label}: all of them")


def turned(seg):
    (a, b), (p, q) = seg
    return (a, b, p, q)


@harness(bounds="1x1 to 2x2 cells and 1x1 refined by 2; every scale; on given axes with any limits, and on new ones", cost=3)
def meshes(c):
    """Plots of meshes show all points and edges within the limits of the axes."""
    nx, ny, ns = c.choice("grid", GRIDS)
    s = c.real("scale", 0.01, 100)
    dom = RectangleDomain(nx * s, ny * s)
    g = dom.grid(s)
    for n in ns:
        g = dom.refine(g, n)
    given = c.boolean("given") if c.symbolic else c.boolean("given")
    with FakePlots() as fake:
        if c.fork(given):
            lims = {n: (c.real(n + "lo", -10, 10), c.real(n + "hi", -10, 10)) for n in "xy"}
            for lo, hi in lims.values():
                c.assume(lo <= hi)
            ax = FakeAxes(lims)
            out = g.plot(ax)
            c.check(not fake.axes, "no other axes are made")
        else:
            lims = {}
            out = g.plot(None)
            c.check(len(fake.axes) == 1, "one picture")
            ax = fake.axes[0]
    c.check(out is ax, "the axes are returned")
    for m, name in enumerate("xy"):
        lo, hi = ax.lims.get(name, (0.0, 1.0))
        for p in g.points:
            c.check(c.all_of([p[m] >= lo, p[m] <= hi]), f"{name}: all points are within the limits")
        for x in lims.get(name, ()):
            c.check(c.all_of([x >= lo, x <= hi]), f"{name}: the limits are not narrowed")
    pts = [(p[0], p[1]) for p in g.points]
    match(c, ax.points, pts, s, "points")
    # edges in either direction
    want = [pts[a] + pts[b] for a, b in g.edges]
    got = []
    for seg in segments(ax):
        flat = turned(seg)
        back = flat[2:] + flat[:2]
        close = lambda q: any(  # noqa: E731
            all(abs(c.guess(a / s) - c.guess(b / s)) < 1e-6 for a, b in zip(q, w)) for w in want
        )
        got.append(back if not close(flat) and close(back) else flat)
    match(c, got, want, s, "edges")


@harness(bounds="every rectangle; on given axes and on new ones")
def domains(c):
    """Plots of domains show the rectangle."""
    w, h = c.real("width", 0.01, 100), c.real("height", 0.01, 100)
    dom = RectangleDomain(w, h, c.choice("fix", [None, "left", ["left", "upper"]]))
    with FakePlots() as fake:
        if c.choice("given", [False, True]):
            ax = FakeAxes()
            out = dom.plot(ax)
        else:
            out = dom.plot()
            c.check(len(fake.axes) == 1, "one picture")
            ax = fake.axes[0]
            for name, size in (("x", w), ("y", h)):
                lo, hi = ax.lims[name]
                c.check(c.all_of([lo <= 0, hi >= size]), f"{name}: the rectangle is within the limits")
    c.check(out is ax, "the axes are returned")
    c.check(len(ax.patches) == 1, "one patch")
    p = ax.patches[0]
    c.check_eq(p.get_x(), 0, "left side")
    c.check_eq(p.get_y(), 0, "lower side")
    c.check_eq(p.get_width(), w, "width", scale=w)
    c.check_eq(p.get_height(), h, "height", scale=h)
