"""C31 Invalid simulation parameters are refused, valid ones passed on."""

import numpy as np

from vt.harness import harness
from vt.pyowalk import variables, solver
from vt.scheme import *  # noqa: F401,F403
from vt.steps import *  # noqa: F401,F403
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
from tvemoves_rufbad.simulation import Simulation, SimulationParams, Step, RegularizedStep
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "strains for which the energies are undefined (zero determinant) are excluded",
]
OUTSIDE = "parameters that are no finite numbers; refinement factors outside -2..3; a non-positive refinement factor without regularization"


@harness(bounds="all real values of the five numbers, regularization given or not, refinement factors -2..3 or not given", cost=3)
def parameters(c):
    """Accepted exactly when valid, and kept."""
    names = ["initial_temperature", "search_radius", "fps", "scale"]
    v = {n: c.real(n, -10, 10) for n in names}
    reg = c.real("regularization", -10, 10) if c.choice("regularized", [False, True]) else None
    factor = c.choice("refinement_factor", [None, -2, -1, 0, 1, 2, 3])
    c.assume(not (reg is None and factor is not None and factor <= 0))
    good = [v["initial_temperature"] >= 0, v["search_radius"] > 0, v["fps"] > 0, v["scale"] > 0]
    if reg is not None:
        good += [reg >= 0, factor is not None and factor > 0]
    good = c.all_of(good)
    try:
        p = SimulationParams(*v.values(), reg, factor)
    except ValueError:
        c.check(c.not_(good), "refused although valid")
        return
    c.check(good, "accepted although invalid")
    for n in names:
        c.check_eq(getattr(p, n), v[n], f"{n} is kept")
    kept(c, p.regularization, reg, "regularization")
    c.check(p.refinement_factor == (factor if reg is not None else None), "refinement factor")
    m, t = p.mechanical_step_params(), p.thermal_step_params()
    for n in ("search_radius", "fps"):
        c.check_eq(getattr(m, n), v[n], f"{n} for the mechanical step")
        c.check_eq(getattr(t, n), v[n], f"{n} for the thermal step")
    c.check_eq(m.initial_temperature, v["initial_temperature"], "initial temperature for the mechanical step")
    kept(c, m.regularization, reg, "regularization for the mechanical step")
    kept(c, t.regularization, reg, "regularization for the thermal step")


def kept(c, a, b, label):
    c.check((a is None) == (b is None), f"{label}: given")
    if a is not None and b is not None:
        c.check_eq(a, b, f"{label}: value")


@harness(bounds="one cell and two cells, plain, plain with an ignored factor, regularized with factors 1 and 2: all parameter values", cost=8)
def reach(c):
    """The values arrive in the models handed to the optimiser."""
    shape, factor, given = c.choice(
        "kind", [(CELL, 0, None), ((1.0, 0.5, 0.5), 0, None), (CELL, 0, 2), (CELL, 1, 1), (CELL, 2, 2)]
    )
    dom, grid = make_grid(shape, ["left"])
    fine = dom.refine(grid, factor) if factor else None
    th, r, fps = c.real("theta0", 0, 2), c.real("r", 0, 3, open_lo=True), c.real("fps", 0.25, 4)
    reg = c.real("reg", 0, 1) if factor else None
    loads = Loads(c)
    got, data = [], {}

    def optimiser(model):
        k = len(got)
        at = [c.real(f"v{k}_{i}", -1, 2) for i in range(len(variables(model)))]
        with c.defined(), c.reciprocals(), c.snapped_naming(at_least=6):
            if k == 0:
                step = mechanical_step(solver(), grid, MechanicalStepParams(th, r, fps, reg), fine, loads.traction)
            else:
                ref = c1_reference(grid) if factor else np.array([[x, y] for x, y in points2(grid)], dtype=object)
                hot = np.array([th] * len((fine or grid).points), dtype=object)
                par = ThermalStepParams(r, fps, reg)
                step = thermal_step(solver(), grid, ref, data["y"], hot, par, loads.external, fine)
            want, have = fresh_snapshot(step, at), Snapshot(model, at)
        compare(c, have, want, "first mechanical solve" if k == 0 else "first thermal solve")
        ans = answers(c, model, f"a{k}")
        if k == 0:
            data["y"] = read_answer(step, ans, True)
        got.append(1)

    with Hooked(optimiser):
        params = SimulationParams(th, r, fps, shape[2], reg, given)
        Simulation(dom, params, loads.external, loads.traction)
    c.check(len(got) == 2, "two solves")


@harness(bounds="one cell, plain and regularized: numbers of steps 0, -1, -2, -7, before, between and after valid runs", cost=8)
def counts(c):
    """Non-positive numbers of steps are refused and the simulation goes on as if nothing happened."""
    prob = Problem(c, factor=c.choice("factor", [0, 1] if c.thorough else [0]))
    s = Scheme(c, prob)
    bad = c.choice("steps", [0, -1, -2, -7])
    with Hooked(s):
        sim = prob.simulation()
        for good in (1, 2, None):
            n = s.solves
            c.raises(ValueError, lambda: sim.run(bad), "refused")
            c.check(s.solves == n, "no solve")
            check_records(c, prob, sim, s.records)
            if good and (good == 1 or c.thorough):
                sim.run(good)
                c.check(s.solves == n + 2 * good, "one mechanical and one thermal solve per step")
                check_records(c, prob, sim, s.records)


@harness(bounds="one to two cells: listed wrong shapes of step data, and missing refined grids", cost=2)
def shapes(c):
    """Wrongly shaped step data and missing refined grids are refused."""
    shape = c.choice("grid", [CELL, SHAPES[1]])
    dom, grid = make_grid(shape, ["left"])
    fine = dom.refine(grid, 2)
    n, m = len(grid.points), len(fine.points)
    c.check(m != n, "different numbers of vertices")
    vec = lambda k: [(k + 1,), (k - 1,), (k, 1), (1, k), (), (2 * k,), (k, 2)]
    plain = [(n,), (2, n), (n, 1), (n, 3), (n + 1, 2), (n - 1, 2), (n, 2, 1), (n, 2, 6), (m, 2), (2 * n,)]
    reg = [(n,), (n, 2), (n, 6), (n, 2, 5), (n, 2, 7), (n, 1, 6), (n, 3, 6), (n, 6, 2), (n + 1, 2, 6), (m, 2, 6), (n, 2, 6, 1)]
    z = np.zeros
    Step(z((n, 2)), z(n), dom, grid)
    for s in plain:
        c.raises(ValueError, lambda: Step(z(s), z(n), dom, grid), f"step: positions of shape {s}")
    for s in vec(n) + [(m,)]:
        c.raises(ValueError, lambda: Step(z((n, 2)), z(s), dom, grid), f"step: temperatures of shape {s}")
    if shape == CELL:  # the accepted case refines the grid for plotting
        RegularizedStep(z((n, 2, 6)), z(m), dom, grid, fine)
    for s in reg:
        c.raises(ValueError, lambda: RegularizedStep(z(s), z(m), dom, grid, fine), f"regularized: positions of shape {s}")
    for s in vec(m) + [(n,)]:
        c.raises(ValueError, lambda: RegularizedStep(z((n, 2, 6)), z(s), dom, grid, fine), f"regularized: temperatures of shape {s}")
    c.raises(ValueError, lambda: RegularizedStep(z((n, 2, 6)), z(m), dom, grid, None), "regularized step without refined grid")
    th, r, fps, eps = c.real("theta0", 0, 2), c.real("r", 0.1, 3), c.real("fps", 0.25, 4), c.real("reg", 0, 1)
    c.raises(
        ValueError,
        lambda: mechanical_step(solver(), grid, MechanicalStepParams(th, r, fps, eps), None, lambda t, x, y: [0.0, 0.0]),
        "regularized mechanical step without refined grid",
    )
    y = np.array(c1_reference(grid), dtype=float)
    c.raises(
        ValueError,
        lambda: thermal_step(solver(), grid, y, y, z(m), ThermalStepParams(r, fps, eps), lambda t: 0.0, None),
        "regularized thermal step without refined grid",
    )
