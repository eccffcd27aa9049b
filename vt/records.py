"""What a simulation has recorded and what its pictures must show."""

from __future__ import annotations

from vt.fem import bary
from vt.scheme import *  # noqa: F401,F403
from vt.steps import *  # noqa: F401,F403
from tvemoves_rufbad.interpolation import C1Interpolation
from tvemoves_rufbad import simulation as _simulation

PLOTTING_REFINEMENT_FACTOR = getattr(_simulation, "PLOTTING_REFINEMENT_FACTOR", 5)


class Recorder:
    """Plays the optimiser and keeps the data every step should hold."""

    def __init__(self, c, prob):
        self.c, self.p, self.n = c, prob, 0
        self.records = [(prob.ref, prob.hot)]

    def __call__(self, model):
        p = self.p
        self.n += 1
        with self.c.defined():
            got = answers(self.c, model, f"a{self.n}")
            mech = self.n % 2 == 1
            step = p.mechanical(p.ref, p.hot, 0.0) if mech else p.thermal(p.ref, p.ref, p.hot, 0.0)
        data = read_answer(step, got, mech)
        if mech:
            self.y = data
        else:
            self.records.append((self.y, data))


def simulate(c, prob, groups):
    rec = Recorder(c, prob)
    with Hooked(rec), c.defined(), c.reciprocals(), c.snapped_naming(at_least=6):
        sim = prob.simulation()
        for g in groups:
            sim.run(g)
    return sim, rec.records


def positions(prob, y):
    return [[y[v, k, 0] if prob.factor else y[v, k] for k in range(2)] for v in range(len(y))]


def tri_coordinates(c, pts, tri, x):
    """Barycentric coordinates of a point in a triangle."""
    (x0, y0), (x1, y1), (x2, y2) = (pts[v] for v in tri)
    d = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
    l1 = ((x[0] - x0) * (y2 - y0) - (x2 - x0) * (x[1] - y0)) / d
    l2 = ((x1 - x0) * (x[1] - y0) - (x[0] - x0) * (y1 - y0)) / d
    return 1 - l1 - l2, l1, l2


def value(c, prob, data, tri, x):
    """Deformation data at a point of a triangle of the coarse grid."""
    l = tri_coordinates(c, points2(prob.grid), tri, x)
    out = []
    for k in range(2):
        if prob.factor:
            u = C1Interpolation(prob.grid, [list(data[v, k]) for v in range(len(data))])
            out.append(u(tri, bary(l[1], l[2])))
        else:
            out.append(p1_value(tri, l, data[:, k]))
    return out


def bounds(c, lim, vals, sign, label):
    """lim is the largest (smallest) of the values."""
    slack = 0 if c.symbolic else 1e-9
    c.check(c.all_of([sign * (lim - v) >= -slack for v in vals]), f"{label}: covers all records")
    c.check(c.any_of([sign * (lim - v) <= slack for v in vals]), f"{label}: attained")


def plotted_grid(prob):
    return prob.dom.refine(prob.fine, PLOTTING_REFINEMENT_FACTOR) if prob.factor else prob.grid


def check_drawn(c, prob, args, kw, y, th):
    """The deformed mesh with its temperatures."""
    c.check(len(args) == 3, "positions and colours")
    g = plotted_grid(prob)
    pts, n = points2(g), len(g.points)
    c.check(all(len(a) == n for a in args), "one position and colour for each vertex")

    def turn(t):
        k = list(t).index(min(t))
        return tuple(int(v) for v in (list(t)[k:] + list(t)[:k]))

    c.check(sorted(turn(t) for t in kw["triangles"]) == sorted(turn(t) for t in g.triangles), "triangles of the mesh")
    grid, fine = prob.grid, prob.fine or prob.grid
    for v, p in enumerate(pts):
        home = next(t for t in grid.triangles if min(coordinates(points2(grid), t, p)) > -1e-9)
        ftri = next(t for t in fine.triangles if min(coordinates(points2(fine), t, p)) > -1e-9)
        want = value(c, prob, y, home, p)
        for m in range(2):
            c.check_close(args[m][v], want[m], 1e-6, "deformed vertices")
        want = p1_value(ftri, coordinates(points2(fine), ftri, p), th)
        c.check_close(args[2][v], want, 1e-6, "temperatures of the vertices")


def check_picture(c, prob, records, i, lims, drawn, tag=""):
    """A picture shows the i-th record on the common axes and the common scale of colours."""
    y, th = records[i]
    for m, name in enumerate("xy"):
        at = [p[m] for yy, _ in records for p in positions(prob, yy)]
        lim = lims.get(name)
        c.check(lim is not None and len(lim) == 2, f"{tag}{name}: limits are set")
        bounds(c, lim[0], at, -1, f"{tag}lower limit of {name}")
        bounds(c, lim[1], at, 1, f"{tag}upper limit of {name}")
    c.check(len(drawn) == 1, f"{tag}one mesh is drawn")
    args, kw = drawn[0]
    check_drawn(c, prob, args, kw, y, th)
    c.check("vmin" in kw and "vmax" in kw, f"{tag}scale of the colours is given")
    temps = [t for _, t_ in records for t in t_]
    c.check(kw["vmin"] == 0, f"{tag}colours start at zero")
    bounds(c, kw["vmax"], temps, 1, f"{tag}end of the colours")
