"""C28 The regularized thermal step satisfies the same heat balance."""

import numpy as np

from vt.harness import harness
from vt.pyowalk import solve_captured, solver
from vt.steps import *  # noqa: F401,F403
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
import pyomo.environ as pyo

ASSUMPTIONS = [
    "floating point idealised as real arithmetic; strains whose coefficients differ by less than "
    "1e-10 of the largest one are identified",
    "strains for which the energies are undefined (zero determinant) are excluded",
]
OUTSIDE = "grids with more than two cells; refinement factors above three; the optimiser itself"


def weak_form(grid, fine, prev_y, y, prev_theta, theta, phi, fps):
    items = list(Quadrature(grid, fine))
    pts = points2(fine)
    tot = 0
    for (wa, tri, l, _, _), (P, _), (F, _) in zip(items, strains(grid, prev_y, items), strains(grid, y, items)):
        g, d = p1_gradient(pts, tri, theta), p1_gradient(pts, tri, phi)
        at = [p1_value(tri, l, v) for v in (prev_theta, theta, phi)]
        tot = tot + wa * heat_balance(P, F, at[0], at[1], g, at[2], d, fps)
    return tot


def run(c, shape, fixed, factor, ops):
    dom, grid = make_grid(shape, fixed)
    fine = dom.refine(grid, factor)
    n = len(fine.points)
    ref = c1_reference(grid)
    r, fps, reg = c.real("r", 0.1, 2), c.real("fps", 0.1, 10), 0.125
    now = {
        "prev_y": around(c, "p", ref, 0.1),
        "y": around(c, "y", ref, 0.1),
        "theta": array(c, "t", (n,), 0, 3),
    }
    step = thermal_step(
        solver(), grid, now["prev_y"], now["y"], now["theta"], ThermalStepParams(r, fps, reg), lambda t: 1.0 + t, fine
    )
    for k, u in enumerate(ops):
        if u == "prev_y":
            now[u] = around(c, f"p{k}_", ref, 0.1)
            step.update_prev_y(now[u])
        elif u == "y":
            now[u] = around(c, f"y{k}_", ref, 0.1)
            step.update_y(now[u])
        elif u == "theta":
            now[u] = array(c, f"t{k}_", (n,), 0, 3)
            step.update_prev_theta(now[u])
        elif u == "time":
            step.update_external_temperature(0.5)
        elif u == "solve":
            solve_captured(step, step.theta, lambda cap: array(c, f"s{k}_", (n,), 0, 3))
    got = solve_captured(step, step.theta)
    c.check(len(got) == 1, "one model is solved")
    cap = got[0]
    c.check(cap.objective is not None and cap.objective.sense == pyo.minimize, "one objective, minimized")
    c.check(all(v is not None for v in cap.unknowns.flat), "temperatures are the unknowns of the model")
    c.check(cap.count == n, "there are no other unknowns")
    c.check(not cap.fixed.any() and not cap.residuals(now["theta"]), "no temperature is prescribed")
    theta = array(c, "theta", (n,), 0.1, 3)
    phi = array(c, "phi", (n,), -1, 1)
    with c.defined(), c.reciprocals(), c.snapped_naming(at_least=10):
        have = c.derivative(lambda *th: cap.energy(np.array(th, dtype=object)), list(theta), list(phi))
        want = weak_form(grid, fine, now["prev_y"], now["y"], now["theta"], theta, phi, fps)
    c.check_eq(have, want, "heat balance", scale=100, tol=1e-5, rounding=True)


@harness(bounds="one cell refined by 1: all nodal data, temperatures, test functions, frame rates; five update histories", cost=5)
def histories(c):
    """One cell, several histories of updates and solves."""
    seqs = [[], ["y", "solve", "theta"], ["theta", "prev_y", "time"], ["prev_y", "y", "solve", "y", "prev_y"], ["theta", "y", "theta"]]
    run(c, CELL, ["left"], 1, c.choice("updates", seqs))


@harness(bounds="one cell refined by 2, two cells refined by 1: all nodal data, temperatures, test functions", cost=9)
def grids(c):
    """Refinement and another grid."""
    shape, factor = c.choice("grid", [(CELL, 2), (SHAPES[1], 1)] + ([(SHAPES[2], 1), (CELL, 3)] if c.thorough else []))
    run(c, shape, c.choice("fixed", [None, ["left"]] if c.thorough else [["left"]]), factor, ["theta", "prev_y", "y"])
