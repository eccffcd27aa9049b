"""C25 Regularized deformations are the identity along fixed sides."""

from fractions import Fraction

import numpy as np

from vt.harness import harness
from vt.pyowalk import solve_captured, solver
from vt.steps import *  # noqa: F401,F403
from tvemoves_rufbad.interpolation import C1Interpolation
from tvemoves_rufbad.tensors import Vector
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "grids with more than four cells; scales that are no short decimals"

GRIDS = [CELL, (1.0, 0.5, 0.5), (3.0, 3.0, 3.0), (0.25, 0.5, 0.25)]
SIDES = [None, ["left"], ["right"], ["lower"], ["upper"], ["left", "upper"], ["left", "right", "lower", "upper"]]


SLANTS = [((1.0, 0.5), (0.25, 1.0)), ((0.6, -0.8), (0.8, 0.6))]


def capture(c, shape, fixed, slant=None):
    dom, grid = make_grid(shape, fixed)
    fine = dom.refine(grid, 1)
    if slant:  # the same mesh of a parallelogram
        for g in (grid, fine):
            g.points = [Vector([slant[i][0] * x + slant[i][1] * y for i in range(2)]) for x, y in points2(g)]
    step = mechanical_step(
        solver(), grid, MechanicalStepParams(0.5, 5.0, 1.0, 0.25), fine, lambda t, x, y: [0.0, 0.0]
    )
    (cap,) = solve_captured(step, step.y)
    return grid, cap


def fixed_edges(grid, shape, fixed):
    """Edges of the grid on fixed sides, in both directions, found by position."""
    w, h, _ = shape
    pts = points2(grid)
    side = {"left": (0, 0.0), "right": (0, w), "lower": (1, 0.0), "upper": (1, h)}
    out = []
    for name in fixed or []:
        m, at = side[name]
        out += [e for e in grid.edges if all(pts[v][m] == at for v in e)]
    return out


def data(c, cap, name, ref):
    """Arbitrary nodal data; fixed entries keep their values."""
    y = array(c, name, cap.unknowns.shape, -8, 8)
    for k in np.ndindex(*y.shape):
        if cap.fixed[k]:
            y[k] = ref[k]
    return y


def pick(c, cases):
    return c.choice("case", cases)


def all_cases(c):
    cases = [(g, f) for g in GRIDS[:2] for f in SIDES]
    return cases + ([(g, f) for g in GRIDS[2:] for f in SIDES[1:]] if c.thorough else [(GRIDS[2], SIDES[5])])


def on_edge(y, grid, k, e, t):
    return C1Interpolation(grid, [list(y[v, k]) for v in range(len(y))]).on_edge(e, t)


@harness(bounds="grids of one or two cells, seven choices of fixed sides: all nodal data satisfying the constraints, all points of fixed edges", cost=5)
def constraints_imply_identity(c):
    """Whatever satisfies the constraints is the identity along fixed edges."""
    shape, fixed = pick(c, all_cases(c))
    implication(c, shape, fixed)


@harness(bounds="sheared and rotated cells, four choices of fixed sides: as the first", cost=5)
def slanted(c):
    """The same along sides that are not parallel to an axis."""
    shape = c.choice("shape", GRIDS[:2] if c.thorough else GRIDS[:1])
    implication(c, shape, c.choice("fixed", SIDES[1:6:2] + SIDES[6:]), c.choice("slant", SLANTS))


def implication(c, shape, fixed, slant=None):
    grid, cap = capture(c, shape, fixed, slant)
    pts, ref = points2(grid), c1_reference(grid)
    y = data(c, cap, "y", ref)
    for body, lo, up in cap.residuals(y):
        if lo is not None and up is not None and lo == up:
            c.assume_eq(body, lo)
        else:
            c.assume(c.all_of(([body >= lo] if lo is not None else []) + ([body <= up] if up is not None else [])))
    t = c.real("t", 0, 1)
    listed = {frozenset(e) for e in grid.dirichlet_boundary.edges}
    edges = grid.dirichlet_boundary.edges if slant else fixed_edges(grid, shape, fixed)
    c.check({frozenset(e) for e in edges} == listed, "fixed edges of the grid")
    for e in edges:
        for a in (e, e[::-1]):
            for k in range(2):
                p, q = pts[a[0]][k], pts[a[1]][k]
                c.check_eq(on_edge(y, grid, k, a, t), t * p + (1 - t) * q, f"component {k} on a fixed edge", scale=10)


@harness(bounds="as the first: all nodal data that are the identity at six points of each fixed edge", cost=5)
def identity_satisfies_constraints(c):
    """Whatever is the identity along fixed edges satisfies the constraints."""
    shape, fixed = pick(c, all_cases(c))
    grid, cap = capture(c, shape, fixed)
    pts, ref = points2(grid), c1_reference(grid)
    y = data(c, cap, "y", ref)
    for e in fixed_edges(grid, shape, fixed):
        for k in range(2):
            p, q = pts[e[0]][k], pts[e[1]][k]
            for n in range(6):
                t = c.const(Fraction(n, 5))
                c.assume_eq(on_edge(y, grid, k, e, t), t * p + (1 - t) * q)
    for body, lo, up in cap.residuals(y):
        if lo is not None:
            c.check_ge(body, lo, "constraint from below")
        if up is not None:
            c.check_ge(up, body, "constraint from above")


@harness(bounds="as the first: all pairs of nodal data that agree on the fixed sides", cost=3)
def free_vertices(c):
    """Vertices away from the fixed sides are not constrained; the undeformed state is admissible."""
    shape, fixed = pick(c, all_cases(c))
    grid, cap = capture(c, shape, fixed)
    ref = c1_reference(grid)
    bound = {v for e in fixed_edges(grid, shape, fixed) for v in e}
    for k in np.ndindex(*cap.unknowns.shape):
        c.check(bool(cap.fixed[k]) == (k[0] in bound and k[2] == 0), f"{k}: only positions on fixed sides are clamped")
    y, z = data(c, cap, "y", ref), data(c, cap, "z", ref)
    for v in bound:
        z[v] = y[v]
    for (a, _, _), (b, _, _) in zip(cap.residuals(y), cap.residuals(z)):
        c.check_eq(a, b, "constraints look at fixed sides only", scale=10)
    for body, lo, up in cap.residuals(ref):
        c.check((lo is None or body >= lo) and (up is None or body <= up), "the undeformed state is admissible")
