"""Inputs and reference integrals shared by the checks of the two steps."""

from __future__ import annotations

import numpy as np

from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.tensors import Matrix, Tensor3D, BarycentricCoordinates
from tvemoves_rufbad.interpolation import C1Interpolation
from tvemoves_rufbad.helpers import (
    heat_conductivity_reference,
    dissipation_rate,
    strain_derivative_coupling_potential,
    internal_energy,
)

# width, height, scale
CELL = (1.0, 1.0, 1.0)
SHAPES = [CELL, (1.0, 0.5, 0.5), (0.25, 0.5, 0.25)]
FIXED = [None, ["left"], ["lower", "right"], ["left", "right", "upper", "lower"]]


def make_grid(shape, fixed):
    w, h, s = shape
    dom = RectangleDomain(w, h, fixed)
    return dom, dom.grid(s)


def array(c, name, shape, lo=None, hi=None, **kw):
    """An array of arbitrary numbers."""
    out = np.empty(shape, dtype=object if c.symbolic else float)
    for k in np.ndindex(*shape):
        out[k] = c.real(name + "_".join(map(str, k)), lo, hi, **kw)
    return out


def around(c, name, centre, r, **kw):
    """An array of arbitrary numbers within r of the given ones."""
    out = np.empty(np.shape(centre), dtype=object if c.symbolic else float)
    for k in np.ndindex(*np.shape(centre)):
        out[k] = centre[k] + c.real(name + "_".join(map(str, k)), -r, r, **kw)
    return out


def points2(grid):
    return [(float(p[0]), float(p[1])) for p in grid.points]


def cut(pts, tri):
    """Area and constant gradients of the three barycentric coordinates of a triangle."""
    (x0, y0), (x1, y1), (x2, y2) = (pts[v] for v in tri)
    d = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
    g = [((y1 - y2) / d, (x2 - x1) / d), ((y2 - y0) / d, (x0 - x2) / d), ((y0 - y1) / d, (x1 - x0) / d)]
    return abs(d) / 2, g


def p1_gradient(pts, tri, vals):
    _, g = cut(pts, tri)
    return [sum(vals[tri[k]] * g[k][m] for k in range(3)) for m in range(2)]


def p1_strain(pts, tri, y):
    """Strain of an Nx2 array of positions."""
    return Matrix([p1_gradient(pts, tri, [y[v][i] for v in range(len(y))]) for i in range(2)])


def p1_value(tri, l, vals):
    return sum(vals[tri[k]] * l[k] for k in range(3))


DUNAVANT2 = [
    (1 / 3, (2 / 3, 1 / 6, 1 / 6)),
    (1 / 3, (1 / 6, 2 / 3, 1 / 6)),
    (1 / 3, (1 / 6, 1 / 6, 2 / 3)),
]


def same(a, b):
    """Whether the numbers a are the numbers b (symbolic values are not)."""
    return all(isinstance(x, (int, float)) and abs(x - y) < 1e-9 for x, y in zip(map(plain, a), b))


def plain(x):
    """A constant as a float."""
    return float(x) if getattr(x, "is_const", True) else x


def edge_length(pts, e):
    (a, b), (p, q) = pts[e[0]], pts[e[1]]
    return ((a - p) ** 2 + (b - q) ** 2) ** 0.5


# Dunavant's rule of degree five (https://doi.org/10.1002/nme.1620210612): weight, coordinates
DUNAVANT5 = [(0.225, (1 / 3, 1 / 3, 1 / 3))]
for _w, _a, _b in (
    (0.132394152788506, 0.059715871789770, 0.470142064105115),
    (0.125939180544827, 0.797426985353087, 0.101286507323456),
):
    DUNAVANT5 += [(_w, (_a, _b, _b)), (_w, (_b, _a, _b)), (_w, (_b, _b, _a))]


def coordinates(pts, tri, p):
    """Barycentric coordinates of the point p (floats) in a triangle."""
    (x0, y0), (x1, y1), (x2, y2) = (pts[v] for v in tri)
    d = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
    l1 = ((p[0] - x0) * (y2 - y0) - (x2 - x0) * (p[1] - y0)) / d
    l2 = ((x1 - x0) * (p[1] - y0) - (p[0] - x0) * (y1 - y0)) / d
    return (1 - l1 - l2, l1, l2)


class Quadrature:
    """Points of the degree five rule on a refined grid, located in the coarse grid.

    Iterating gives (weight times area, fine triangle, its coordinates, coarse triangle, coordinates
    there).
    """

    def __init__(self, grid, fine, rule=None):
        self.items = []
        cp, fp = points2(grid), points2(fine)
        for tri in fine.triangles:
            area, _ = cut(fp, tri)
            mid = [sum(fp[v][m] for v in tri) / 3 for m in range(2)]
            (home,) = [t for t in grid.triangles if min(coordinates(cp, t, mid)) > 1e-9]
            for w, l in rule or DUNAVANT5:
                p = [sum(l[k] * fp[tri[k]][m] for k in range(3)) for m in range(2)]
                self.items.append((area * w, tri, l, home, coordinates(cp, home, p)))

    def __iter__(self):
        return iter(self.items)


def c1_reference(grid):
    """Nodal data of the identity."""
    return np.array(
        [[[x, 1, 0, 0, 0, 0], [y, 0, 1, 0, 0, 0]] for x, y in points2(grid)], dtype=object
    )


def strains(grid, y, items):
    """Strain and hyper-strain of C1 nodal data at the quadrature points."""
    u = [C1Interpolation(grid, [list(y[v, k]) for v in range(len(y))]) for k in range(2)]
    for _, _, _, home, l in items:
        b = BarycentricCoordinates(l[0], l[1])
        g = [w.gradient(home, b) for w in u]
        h = [w.hessian(home, b) for w in u]
        yield (
            Matrix([[q[0], q[1]] for q in g]),
            Tensor3D([[[q[i, j] for j in range(2)] for i in range(2)] for q in h]),
        )


def heat_balance(prev_strain, strain, prev_temp, temp, grad, phi, dphi, fps):
    """The integrand of the weak heat equation tested with phi."""
    K = heat_conductivity_reference(prev_strain)
    flux = [K[i, 0] * grad[0] + K[i, 1] * grad[1] for i in range(2)]
    S = strain_derivative_coupling_potential(prev_strain, prev_temp)
    power = sum(S[i, j] * (strain[i, j] - prev_strain[i, j]) * fps for i in range(2) for j in range(2))
    rate = fps * (internal_energy(strain, temp) - internal_energy(prev_strain, prev_temp))
    return (
        flux[0] * dphi[0]
        + flux[1] * dphi[1]
        + (rate - dissipation_rate(prev_strain, strain, fps) - power) * phi
    )
