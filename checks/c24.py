"""C24 The regularized mechanical step minimizes the regularized energy."""

import numpy as np

from vt.harness import harness
from vt.pyowalk import solve_captured, solver
from vt.steps import *  # noqa: F401,F403
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
from tvemoves_rufbad.helpers import total_elastic_potential, dissipation_potential, hyper_elastic_potential
import pyomo.environ as pyo

ASSUMPTIONS = [
    "floating point idealised as real arithmetic; strains whose coefficients differ by less than "
    "1e-10 of the largest one are identified",
    "strains for which the energies are undefined (zero determinant) are excluded",
]
OUTSIDE = "grids with more than two cells; refinement factors above three"


def reference(c, grid, fine, prev_y, prev_theta, y, reg, fps):
    items = list(Quadrature(grid, fine))
    tot = 0
    for (wa, tri, l, _, _), (F, H), (P, _) in zip(items, strains(grid, y, items), strains(grid, prev_y, items)):
        tot = tot + wa * total_elastic_potential(F, p1_value(tri, l, prev_theta))
        tot = tot + reg * wa * hyper_elastic_potential(H)
        tot = tot + fps * wa * dissipation_potential(P, F)
    return tot


def no_load(t, x, y):
    return [1.0 + t, 2.0]


def run(c, shape, fixed, factor, ops):
    dom, grid = make_grid(shape, fixed)
    fine = dom.refine(grid, factor)
    r, fps, reg = c.real("r", 0.1, 2), c.real("fps", 0.1, 10), c.real("reg", 0, 1)
    th0 = c.real("theta0", 0, 3)
    step = mechanical_step(solver(), grid, MechanicalStepParams(th0, r, fps, reg), fine, no_load)
    ref = c1_reference(grid)
    prev_y, prev_theta = ref, [th0] * len(fine.points)
    for k, u in enumerate(ops):
        if u == "y":
            prev_y = around(c, f"p{k}_", ref, 0.1)
            step.update_prev_y(prev_y)
        elif u == "theta":
            prev_theta = array(c, f"th{k}_", (len(fine.points),), 0, 3)
            step.update_prev_theta(prev_theta)
        elif u == "time":
            step.update_boundary_traction(0.5)
        elif u == "solve":
            solve_captured(step, step.y, lambda cap: around(c, f"s{k}_", ref, 0.1))
    got = solve_captured(step, step.y)
    c.check(len(got) == 1, "one model is solved")
    cap = got[0]
    c.check(cap.objective is not None and cap.objective.sense == pyo.minimize, "one objective, minimized")
    c.check(all(v is not None for v in cap.unknowns.flat), "nodal data are the unknowns of the model")
    c.check(cap.count == cap.unknowns.size, "there are no other unknowns")
    y = around(c, "y", ref, 0.1)
    with c.defined(), c.reciprocals(), c.snapped_naming():
        have = cap.energy(y)
        want = reference(c, grid, fine, prev_y, prev_theta, y, reg, fps)
    c.check_eq(have, want, "objective", scale=10, rounding=True)


@harness(bounds="one cell refined by 1: all nodal data, temperatures, constants; five update histories", cost=5)
def histories(c):
    """One cell, several histories of updates and solves."""
    seqs = [[], ["y", "solve", "theta"], ["theta", "y", "time"], ["y", "y", "solve", "y"], ["solve"]]
    run(c, CELL, ["left"], 1, c.choice("updates", seqs))


@harness(bounds="one cell refined by 2, two cells refined by 1: all nodal data, temperatures, constants", cost=9)
def grids(c):
    """Refinement and another grid."""
    shape, factor = c.choice("grid", [(CELL, 2), (SHAPES[1], 1)] + ([(SHAPES[2], 1), (CELL, 3)] if c.thorough else []))
    run(c, shape, c.choice("fixed", [None, ["left"]]), factor, ["theta", "y"])
