"""C26 Stationary temperatures of the thermal step satisfy the heat balance."""

import numpy as np

from vt.harness import harness
from vt.pyowalk import solve_captured, solver
from vt.steps import *  # noqa: F401,F403
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
from tvemoves_rufbad.helpers import HEAT_TRANSFER_COEFFICIENT
import pyomo.environ as pyo

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "strains for which the energies are undefined (zero determinant) are excluded",
]
OUTSIDE = "grids with more than four cells; the optimiser itself"


class External:
    """An arbitrary external temperature: an unknown number at every time set, affine elsewhere."""

    TIMES = (0.0, 0.5, 1.25, 3.0, 4.0)

    def __init__(self, c):
        self.c = c

    def __call__(self, t):
        for s in self.TIMES:
            if same((t,), (s,)):
                return self.c.real(f"ext@{s}", 0, 3)
        return self.c.real("ext", 0, 3) + self.c.real("drift", 0, 1) * t


def weak_form(grid, prev_y, y, prev_theta, theta, phi, fps, ext):
    pts = points2(grid)
    tot = 0
    for tri in grid.triangles:
        area, _ = cut(pts, tri)
        F, P = p1_strain(pts, tri, y), p1_strain(pts, tri, prev_y)
        g, d = p1_gradient(pts, tri, theta), p1_gradient(pts, tri, phi)
        for w, l in DUNAVANT2:
            at = [p1_value(tri, l, v) for v in (prev_theta, theta, phi)]
            tot = tot + area * w * heat_balance(P, F, at[0], at[1], g, at[2], d, fps)
    for e in outer_edges(grid):
        th, ph = [(v[e[0]] + v[e[1]]) / 2 for v in (theta, phi)]
        tot = tot + edge_length(pts, e) * HEAT_TRANSFER_COEFFICIENT * (th - ext) * ph
    return tot


def outer_edges(grid):
    """Edges of one triangle only."""
    count = {}
    for t in grid.triangles:
        for a, b in ((0, 1), (1, 2), (2, 0)):
            k = tuple(sorted((t[a], t[b])))
            count[k] = count.get(k, 0) + 1
    return [e for e, n in count.items() if n == 1]


def run(c, shape, fixed, ops):
    dom, grid = make_grid(shape, fixed)
    n = len(grid.points)
    ref = np.array([[x, y] for x, y in points2(grid)], dtype=object)
    r, fps = c.real("r", 0.1, 2), c.real("fps", 0.1, 10)
    ext = External(c)
    now = {
        "prev_y": around(c, "p", ref, 0.2),
        "y": around(c, "y", ref, 0.2),
        "theta": array(c, "t", (n,), 0, 3),
    }
    step = thermal_step(
        solver(), grid, now["prev_y"], now["y"], now["theta"], ThermalStepParams(r, fps, None), ext
    )
    time = 0.0
    for k, u in enumerate(ops):
        if u == "prev_y":
            now[u] = around(c, f"p{k}_", ref, 0.2)
            step.update_prev_y(now[u])
        elif u == "y":
            now[u] = around(c, f"y{k}_", ref, 0.2)
            step.update_y(now[u])
        elif u == "theta":
            now[u] = array(c, f"t{k}_", (n,), 0, 3)
            step.update_prev_theta(now[u])
        elif u == "time":
            time = [0.5, 1.25, 3.0, 4.0][k]
            step.update_external_temperature(time)
        elif u == "solve":
            solve_captured(step, step.theta, lambda cap: array(c, f"s{k}_", (n,), 0, 3))
    got = solve_captured(step, step.theta)
    c.check(len(got) == 1, "one model is solved")
    cap = got[0]
    c.check(cap.objective is not None and cap.objective.sense == pyo.minimize, "one objective, minimized")
    c.check(all(v is not None for v in cap.unknowns.flat), "temperatures are the unknowns of the model")
    c.check(cap.count == n, "there are no other unknowns")
    c.check(not cap.fixed.any() and not cap.residuals(now["theta"]), "no temperature is prescribed")
    theta = array(c, "theta", (n,), 0.1, 3)
    phi = array(c, "phi", (n,), -1, 1)
    with c.defined(), c.reciprocals():
        have = c.derivative(lambda *th: cap.energy(np.array(th, dtype=object)), list(theta), list(phi))
        want = weak_form(grid, now["prev_y"], now["y"], now["theta"], theta, phi, fps, ext(time))
    c.check_eq(have, want, "heat balance", scale=100, tol=1e-5)


@harness(bounds="one cell: all states, temperatures, test functions, frame rates, external temperatures; all sequences of up to two updates or solves", cost=5)
def histories(c):
    """One cell, every sequence of updates."""
    ops = ["prev_y", "y", "theta", "time", "solve", "end"]
    seq = []
    for k in range(3 if c.thorough else 2):
        o = c.choice(f"update{k}", ops)
        if o == "end":
            break
        seq.append(o)
    run(c, CELL, ["left"], seq)


@harness(bounds="grids of one to two cells (thorough: four), fixed sides none or two", cost=3)
def grids(c):
    """Other grids and fixed sides."""
    run(c, c.choice("grid", SHAPES + ([(1.0, 1.0, 0.5)] if c.thorough else [])), c.choice("fixed", FIXED[::2]), ["time", "theta", "y", "prev_y"])


@harness(bounds="one cell: all sequences of four updates that change everything once", cost=3)
def orders(c):
    """Updates in every order."""
    import itertools

    perms = list(itertools.permutations(["prev_y", "y", "theta", "time"]))
    run(c, CELL, ["left"], list(c.choice("order", perms)))
