"""C22 The mechanical step minimizes the energy of the scheme."""

import numpy as np

from vt.harness import harness
from vt.pyowalk import solve_captured, solver, variables, constraints
from vt.steps import *  # noqa: F401,F403
from vt import steps as S
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
from tvemoves_rufbad.helpers import total_elastic_potential, dissipation_potential
import pyomo.environ as pyo

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "strains for which the energies are undefined (zero determinant) are excluded",
]
OUTSIDE = "grids with more than four cells; the optimiser itself"


class Traction:
    """An arbitrary traction: an unknown vector at every vertex and time, affine elsewhere."""

    TIMES = (0.0, 0.5, 1.25, 3.0)

    def __init__(self, c, grid):
        self.c = c
        self.places = [(t, x, y) for t in self.TIMES for x, y in points2(grid)]

    def __call__(self, t, x, y):
        for p in self.places:
            if same((t, x, y), p):
                return [self.c.real(f"g{k}@{p[0]}_{p[1]}_{p[2]}", -5, 5) for k in range(2)]
        a = [self.c.real(f"g{k}", -5, 5) for k in range(4)]
        return [a[k] + a[2] * t + a[3] * (x - y) for k in range(2)]


def reference(c, grid, prev_y, prev_theta, y, traction, time, fps):
    """The energy of the scheme, from the definition."""
    pts = points2(grid)
    tot = 0
    for tri in grid.triangles:
        area, _ = cut(pts, tri)
        F, P = p1_strain(pts, tri, y), p1_strain(pts, tri, prev_y)
        for w, l in DUNAVANT2:
            tot = tot + area * w * total_elastic_potential(F, p1_value(tri, l, prev_theta))
        tot = tot + fps * area * dissipation_potential(P, F)
    for e in grid.neumann_boundary.edges:
        g = [traction(time, *pts[v]) for v in e]
        for k in range(2):
            gm = (g[0][k] + g[1][k]) / 2
            ym = (y[e[0]][k] + y[e[1]][k]) / 2
            tot = tot - edge_length(pts, e) * gm * ym
    return tot


def initial(grid, temperature):
    y = np.array([[p[0], p[1]] for p in points2(grid)], dtype=object)
    return y, np.array([temperature] * len(grid.points), dtype=object)


def run(c, shape, fixed, updates):
    dom, grid = make_grid(shape, fixed)
    n = len(grid.points)
    r, fps = c.real("r", 0.1, 2), c.real("fps", 0.1, 10)
    th0 = c.real("theta0", 0, 3)
    g = Traction(c, grid)
    step = mechanical_step(solver(), grid, MechanicalStepParams(th0, r, fps, None), None, g)
    ref, _ = initial(grid, th0)
    prev_y, prev_theta, time = ref, [th0] * n, 0.0
    for k, u in enumerate(updates):
        if u == "y":
            prev_y = around(c, f"p{k}_", ref, 0.2)
            step.update_prev_y(prev_y)
        elif u == "theta":
            prev_theta = array(c, f"th{k}_", (n,), 0, 3)
            step.update_prev_theta(prev_theta)
        elif u == "time":
            time = [0.5, 1.25, 3.0][k]
            step.update_boundary_traction(time)
        elif u == "solve":
            solve_captured(step, step.y, lambda cap: around(c, f"s{k}_", ref, 0.2))
    got = solve_captured(step, step.y)
    c.check(len(got) == 1, "one model is solved")
    cap = got[0]
    c.check(cap.objective is not None and cap.objective.sense == pyo.minimize, "one objective, minimized")
    c.check(all(v is not None for v in cap.unknowns.flat), "positions are the unknowns of the model")
    c.check(cap.count == 2 * n, "there are no other unknowns")
    y = around(c, "y", ref, 0.2)
    with c.defined(), c.reciprocals():
        have = cap.energy(y)
        want = reference(c, grid, prev_y, prev_theta, y, g, time, fps)
    c.check_eq(have, want, "objective", scale=10)


@harness(bounds="one cell, all nodal values, temperatures, tractions, frame rates; all sequences of up to three updates or solves", cost=5)
def histories(c):
    """One cell, every sequence of updates."""
    ops = ["y", "theta", "time", "solve"]
    seq = []
    for k in range(3):
        o = c.choice(f"update{k}", ops + ["end"])
        if o == "end":
            break
        seq.append(o)
    run(c, CELL, ["left"], seq)


@harness(bounds="grids of one to two cells, four choices of fixed sides", cost=3)
def grids(c):
    """Other grids and fixed sides."""
    run(c, c.choice("grid", SHAPES), c.choice("fixed", FIXED), ["time", "theta", "y"])
