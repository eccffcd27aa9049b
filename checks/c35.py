"""C35 The steps respect equilibrium, symmetry and the global balances."""

from fractions import Fraction

import numpy as np

from vt.harness import harness
from vt.pyowalk import solve_captured, solver
from vt.steps import *  # noqa: F403
from tvemoves_rufbad.helpers import HEAT_TRANSFER_COEFFICIENT, ENTROPY_CONSTANT, total_elastic_potential
from tvemoves_rufbad.tensors import Matrix
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams

ASSUMPTIONS = ["floating point idealised as real arithmetic", "strains have positive determinant"]
OUTSIDE = "more than 2x2 cells; refinement factors above one; rotations other than the stated ones"

PATCH = (1.0, 1.0, 0.5)  # one inner vertex


def strain(c, name):
    """An arbitrary matrix near the identity, with positive determinant."""
    F = [[c.real(f"{name}{i}{j}", (i == j) - 0.4, (i == j) + 0.4) for j in range(2)] for i in range(2)]
    c.assume(F[0][0] * F[1][1] - F[0][1] * F[1][0] > 0.1)
    return F


def affine(grid, F, factor=0, shift=(0, 0)):
    """Nodal data of x -> F x + shift."""
    pts = points2(grid)
    at = [[F[i][0] * x + F[i][1] * y + shift[i] for i in range(2)] for x, y in pts]
    if not factor:
        return np.array(at, dtype=object)
    return np.array([[[p[i], F[i][0], F[i][1], 0, 0, 0] for i in range(2)] for p in at], dtype=object)


def inner(grid):
    """Vertices off the boundary."""
    (w, h) = (max(p[k] for p in points2(grid)) for k in range(2))
    return [v for v, (x, y) in enumerate(points2(grid)) if 0 < x < w and 0 < y < h]


def hooked(step, read):
    (cap,) = solve_captured(step, read)
    return cap


def mechanical(c, grid, fine, prev_y, prev_theta, traction=lambda t, x, y: [0.0, 0.0]):
    reg = c.real("reg", 0, 1) if fine else None
    step = mechanical_step(solver(), grid, MechanicalStepParams(1.0, 1.0, c.real("fps", 0.1, 10), reg), fine, traction)
    step.update_prev_y(prev_y)
    step.update_prev_theta(prev_theta)
    return hooked(step, step.y)


def thermal(c, grid, fine, prev_y, y, prev_theta, ext=0.0):
    step = thermal_step(
        solver(), grid, prev_y, y, prev_theta,
        ThermalStepParams(1.0, c.real("fps", 0.1, 10), 0.25 if fine else None), lambda t: ext, fine,
    )  # fmt: skip
    return hooked(step, step.theta)


def slope(c, cap, at, along, name=10):
    """Derivative of the objective; sums of so many terms are named."""
    at, along = np.asarray(at, dtype=object), np.asarray(along, dtype=object)
    with c.defined(), c.reciprocals(), c.snapped_naming(at_least=name):
        return c.derivative(
            lambda *xs: cap.energy(np.array(xs, dtype=object).reshape(at.shape)), list(at.flat), list(along.flat)
        )


def uniform(n, t):
    return np.array([t] * n, dtype=object)


def meshes(c, shape, factors=(0, 1), fixed=None):
    factor = c.choice("factor", list(factors))
    dom, grid = make_grid(shape, fixed)
    return grid, dom.refine(grid, factor) if factor else None, factor


def vanishes(c, x, what):
    """x is nothing but rounding errors in the constants of the program."""
    size = c.real("size", 0, 1)
    c.check_eq(x + size, size, what, scale=100, tol=1e-6, rounding=True)


@harness(bounds="2x2 cells: all affine previous and new deformations, all uniform temperatures, all directions")
def homogeneous(c):
    """No forces inside a homogeneously deformed body."""
    grid, _, _ = meshes(c, PATCH, (0,))
    prev, new = (
        affine(grid, strain(c, "P")),
        affine(grid, strain(c, "F"), 0, (c.real("a0", -1, 1), c.real("a1", -1, 1))),
    )
    cap = mechanical(c, grid, None, prev, uniform(len(grid.points), c.real("t", 0, 3)))
    along = np.zeros(new.shape, dtype=object)
    (v,) = inner(grid)
    along[v] = [c.real("d0", -1, 1), c.real("d1", -1, 1)]
    vanishes(c, slope(c, cap, new, along), "forces inside")


def homogeneous_regularized(c, dofs, strains):
    grid, fine, factor = meshes(c, PATCH, (1,))
    prev, new = (affine(grid, c.choice(name, strains), factor) for name in ("before", "after"))
    cap = mechanical(c, grid, fine, prev, uniform(len(fine.points), c.real("t", 0, 3)))
    along = np.zeros(new.shape, dtype=object)
    (v,) = inner(grid)
    along[(v, *c.choice("dof", dofs))] = 1
    vanishes(c, slope(c, cap, new, along, 1), "forces inside")


STRAINS = [
    [[Fraction(v) for v in row] for row in m]
    for m in [((1, 0), (0, 1)), ((1.25, 0.25), (-0.125, 0.75)), ((0.75, -0.25), (0.5, 1.0)), ((1.0, 0.5), (0, 1.0))]
]
DOFS = [(i, k) for i in range(2) for k in range(6)]


@harness(bounds="2x2 cells: two previous and two new strains, all uniform temperatures, three directions", cost=8)
def homogeneous_fine(c):
    """No forces inside a homogeneously deformed body, regularized."""
    homogeneous_regularized(c, [(0, 0), (1, 2), (0, 4)], STRAINS[:2])


@harness(
    tier="thorough",
    bounds="2x2 cells: four previous and four new strains, all uniform temperatures, all directions",
    cost=9,
)
def homogeneous_fine_more(c):
    """No forces inside a homogeneously deformed body, regularized."""
    homogeneous_regularized(c, DOFS, STRAINS)


@harness(
    bounds="one cell, 2x2 cells, plain: all uniform temperatures, rotations by four angles and shifts, all directions"
)
def rest(c):
    """The unloaded undeformed body is in equilibrium at every temperature."""
    grid, _, _ = meshes(c, c.choice("shape", [CELL, PATCH]), (0,))
    ref = affine(grid, turn(c), 0, [c.real("a0", -1, 1), c.real("a1", -1, 1)])
    cap = mechanical(c, grid, None, ref, uniform(len(grid.points), c.real("t", 0, 3)))
    vanishes(c, slope(c, cap, ref, array(c, "d", ref.shape, -1, 1)), "forces")


def rest_regularized(c, dofs, turns):
    grid, fine, factor = meshes(c, CELL, (1,))
    ref = affine(grid, turn(c, turns), factor)
    cap = mechanical(c, grid, fine, ref, uniform(len(fine.points), c.real("t", 0, 3)))
    along = np.zeros(ref.shape, dtype=object)
    along[c.choice("dof", dofs)] = 1
    vanishes(c, slope(c, cap, ref, along, 1), "forces")


@harness(bounds="one cell: all uniform temperatures, no rotation and one by 37 degrees, three directions", cost=6)
def rest_fine(c):
    """The unloaded undeformed body is in equilibrium at every temperature, regularized."""
    rest_regularized(c, [(0, 1, 0), (1, 0, 2), (3, 1, 4)], [(1, 0), TURNS[2]])


@harness(
    tier="thorough",
    bounds="one cell: all uniform temperatures, rotations by four angles, all directions at two vertices",
    cost=8,
)
def rest_fine_more(c):
    """The unloaded undeformed body is in equilibrium at every temperature, regularized."""
    rest_regularized(c, [(v, *d) for v in (0, 1) for d in DOFS], TURNS)


TURNS = [(1, 0), (0, 1), (Fraction(3, 5), Fraction(4, 5)), (-1, 0)]


def turn(c, turns=TURNS):
    cs, sn = c.choice("turn", turns)
    return [[c.const(cs), c.const(-sn)], [c.const(sn), c.const(cs)]]


def moved(c, data, turns=((1, 0), (0, 1), (0, -1), (-1, 0))):
    """Both arrays of positions, turned and shifted by the same amounts."""
    Q, a = turn(c, list(turns)), [c.real("a0", -1, 1), c.real("a1", -1, 1)]
    return [
        np.array([[Q[i][0] * p[0] + Q[i][1] * p[1] + a[i] for i in range(2)] for p in d], dtype=object) for d in data
    ]


@harness(
    bounds="one cell: all previous and new deformations and temperatures; rotations by four angles and all shifts",
    cost=4,
)
def turned(c):
    """Turning and shifting previous and new deformation together does not change the energy."""
    grid, _, _ = meshes(c, CELL, (0,))
    ref = affine(grid, [[1, 0], [0, 1]])
    prev, new = around(c, "p", ref, 0.2), around(c, "y", ref, 0.2)
    th = array(c, "t", (len(grid.points),), 0, 3)
    other = moved(c, [prev, new])
    one, two = mechanical(c, grid, None, prev, th), mechanical(c, grid, None, other[0], th)
    with c.defined(), c.reciprocals():
        c.check_eq(two.energy(other[1]), one.energy(new), "energy", scale=10, rounding=True)


def turned_heat_by(c, turns):
    grid, _, _ = meshes(c, CELL, (0,))
    n = len(grid.points)
    ref = affine(grid, [[1, 0], [0, 1]])
    prev, new = around(c, "p", ref, 0.2), around(c, "y", ref, 0.2)
    s, t, ext = array(c, "s", (n,), 0, 3), array(c, "t", (n,), 0.1, 3), c.real("ext", 0, 3)
    one = thermal(c, grid, None, prev, new, s, ext)
    two = thermal(c, grid, None, *moved(c, [prev, new], turns), s, ext)
    with c.defined(), c.reciprocals():
        c.check_eq(two.energy(t), one.energy(t), "energy", scale=10, rounding=True)


@harness(
    bounds="one cell: all previous and new deformations, previous and new temperatures; a quarter turn and all shifts",
    cost=6,
)
def turned_heat(c):
    """Turning and shifting previous and new deformation together does not change the heat flow."""
    turned_heat_by(c, [(0, 1)])


@harness(
    tier="thorough",
    bounds="one cell: all previous and new deformations, previous and new temperatures; rotations by four angles and all shifts",
    cost=7,
)
def turned_heat_more(c):
    """Turning and shifting previous and new deformation together does not change the heat flow."""
    turned_heat_by(c, [(1, 0), (-1, 0), (0, -1)])


@harness(bounds="one and two cells, fixed left side or none: all deformations, temperatures, affine tractions", cost=4)
def forces(c):
    """The inner forces on the whole body balance the traction."""
    shape = c.choice("shape", [CELL, SHAPES[1]])
    fixed = c.choice("fixed", [None, ["left"]])
    grid, _, _ = meshes(c, shape, (0,), fixed)
    n = len(grid.points)
    ref = affine(grid, [[1, 0], [0, 1]])
    prev, new = around(c, "p", ref, 0.2), around(c, "y", ref, 0.2)
    g = [[c.real(f"g{i}{k}", -2, 2) for k in range(3)] for i in range(2)]
    cap = mechanical(
        c,
        grid,
        None,
        prev,
        array(c, "t", (n,), 0, 3),
        lambda t, x, y: [g[i][0] + g[i][1] * x + g[i][2] * y for i in range(2)],
    )
    d = [c.real("d0", -1, 1), c.real("d1", -1, 1)]
    got = slope(c, cap, new, [d] * n)
    w, h = shape[:2]
    sides = [((0, 0), (w, 0)), ((w, 0), (w, h)), ((w, h), (0, h))] + ([] if fixed else [((0, h), (0, 0))])
    want = 0
    for (x0, y0), (x1, y1) in sides:
        length = abs(x1 - x0) + abs(y1 - y0)
        for i in range(2):
            want = want - d[i] * length * (g[i][0] + g[i][1] * (x0 + x1) / 2 + g[i][2] * (y0 + y1) / 2)
    c.check_eq(got, want, "force balance", scale=100, tol=1e-6)


@harness(
    bounds="2x2 cells plain, one cell regularized: all homogeneous deformations at rest, all uniform temperatures equal to the external one, all test functions",
    cost=5,
)
def warm(c):
    """A homogeneously deformed body at rest, as warm as its surroundings, stays so."""
    regular = c.choice("regularized", [False, True])
    grid, fine, factor = meshes(c, CELL if regular else PATCH, (1,) if regular else (0,))
    y = affine(grid, strain(c, "F"), factor)
    t = c.real("t", 0, 3)
    n = len((fine or grid).points)
    cap = thermal(c, grid, fine, y, y, uniform(n, t), t)
    got = slope(c, cap, uniform(n, t), array(c, "phi", (n,), -1, 1))
    vanishes(c, got, "heat flow")


@harness(
    bounds="2x2 cells, plain and regularized: all homogeneous deformations at rest, all affine temperatures", cost=6
)
def steady(c):
    """Affine temperatures are steady inside a homogeneously deformed body at rest."""
    grid, fine, factor = meshes(c, PATCH)
    y = affine(grid, strain(c, "F"), factor)
    a = [c.real("t0", 1, 3), c.real("t1", -0.5, 0.5), c.real("t2", -0.5, 0.5)]
    g = fine or grid
    th = np.array([a[0] + a[1] * p + a[2] * q for p, q in points2(g)], dtype=object)
    cap = thermal(c, grid, fine, y, y, th)
    along = np.zeros(len(th), dtype=object)
    for v in inner(g):
        along[v] = c.real(f"phi{v}", -1, 1)
    vanishes(c, slope(c, cap, th, along), "heat flow inside")


def heat_gain(c, P, F, t0, t1, fps):
    """Gain of internal energy minus dissipation and reversible work, from the energy of the mechanical problem."""
    p, f = [x for row in P for x in row], [x for row in F for x in row]
    d = [b - a for a, b in zip(p, f)]

    def coupling(x, t):
        m = Matrix([x[:2], x[2:]])
        return total_elastic_potential(m, t) - total_elastic_potential(m, 0)

    def inner_energy(x, t):
        return coupling(x, t) - t * c.derivative(lambda u: coupling(x, u), [t], [1]) + ENTROPY_CONSTANT * t

    gain = inner_energy(f, t1) - inner_energy(p, t0)
    rate = [
        [sum(d[2 * k + i] * p[2 * k + j] + p[2 * k + i] * d[2 * k + j] for k in range(2)) for j in range(2)]
        for i in range(2)
    ]
    heat = fps * fps * sum(r * r for row in rate for r in row)
    work = fps * c.derivative(lambda *x: coupling(list(x), t0), p, d)
    return fps * gain - heat - work


@harness(
    bounds="one and two cells, plain: all homogeneous previous and new deformations, uniform previous and new temperatures, external temperatures",
    cost=5,
)
def heat(c):
    """The heat of the whole body: what it gains is what work and surroundings give."""
    shape = c.choice("shape", [CELL, SHAPES[1]])
    grid, _, _ = meshes(c, shape, (0,), ["left"])
    n = len(grid.points)
    P, F = strain(c, "P"), strain(c, "F")
    t0, t1, ext = c.real("before", 0, 3), c.real("after", 0.1, 3), c.real("ext", 0, 3)
    cap = thermal(c, grid, None, affine(grid, P), affine(grid, F), uniform(n, t0), ext)
    got = slope(c, cap, uniform(n, t1), uniform(n, 1))
    w, h = shape[:2]
    with c.defined(), c.reciprocals(), c.snapped_naming(at_least=10):
        local = heat_gain(c, P, F, t0, t1, c.real("fps", 0.1, 10))
    want = w * h * local + 2 * (w + h) * HEAT_TRANSFER_COEFFICIENT * (t1 - ext)
    c.check_eq(got, want, "heat balance of the body", scale=100, tol=1e-6, rounding=True)


@harness(
    bounds="one cell, plain: all previous and new deformations, all temperatures, all external temperatures", cost=5
)
def exchange(c):
    """A warmer environment changes the balance by the exchange through the whole boundary only."""
    grid, _, _ = meshes(c, CELL, (0,), c.choice("fixed", [None, ["left"]]))
    n = len(grid.points)
    ref = affine(grid, [[1, 0], [0, 1]])
    prev, new = around(c, "p", ref, 0.2), around(c, "y", ref, 0.2)
    th0, th = array(c, "s", (n,), 0, 3), array(c, "t", (n,), 0.1, 3)
    e = [c.real("cold", 0, 3), c.real("warm", 0, 3)]
    got = [slope(c, thermal(c, grid, None, prev, new, th0, x), th, uniform(n, 1)) for x in e]
    c.check_eq(
        got[0] - got[1], 4 * HEAT_TRANSFER_COEFFICIENT * (e[1] - e[0]), "exchange", scale=100, tol=1e-6, rounding=True
    )
