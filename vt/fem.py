"""Meshes of one or two arbitrary triangles and other inputs for the interpolation checks."""

from __future__ import annotations

import itertools

from tvemoves_rufbad.domain import Grid, Boundary
from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates


def small_grid(points, triangles):
    """A grid of the given triangles with the boundary computed from them."""
    edges, count = [], {}
    for t in triangles:
        for a, b in ((0, 1), (1, 2), (2, 0)):
            k = frozenset((t[a], t[b]))
            if k not in count:
                edges.append((t[a], t[b]))
            count[k] = count.get(k, 0) + 1
    be = [e for e in edges if count[frozenset(e)] == 1]
    bv = sorted({v for e in be for v in e})
    return Grid(
        list(range(len(points))),
        edges,
        [tuple(t) for t in triangles],
        Boundary(bv, be),
        Boundary([], []),
        Boundary(list(bv), list(be)),
        [Vector(list(p)) for p in points],
    )


def quiet_grid(c, points, triangles):
    """As small_grid, without symbolic edge lengths.

    The constructor of Grid sums up the lengths of all edges, which no interpolation looks at; with
    arbitrary points these are square roots that only burden the solver.  So the grid is built with
    concrete points and the arbitrary ones are put in afterwards.
    """
    g = small_grid([(float(k), float(k * k)) for k in range(len(points))], triangles)
    g.points = [Vector(list(p)) for p in points]
    return g


def bary(l2, l3):
    """Barycentric coordinates from the last two."""
    return BarycentricCoordinates(1 - l2 - l3, l2)


def triangle_inputs(c, base=True):
    """An arbitrary non-degenerate triangle: corners, and the two sides from the first corner."""
    p = [c.real("px"), c.real("py")] if base else [c.const(0), c.const(0)]
    e = [c.real("ex"), c.real("ey")]
    f = [c.real("fx"), c.real("fy")]
    c.assume(e[0] * f[1] - e[1] * f[0] != 0)
    pts = [p, [p[m] + e[m] for m in range(2)], [p[m] + f[m] for m in range(2)]]
    return pts, e, f


SIZES = "of ordinary size and of about 1e-10"


def in_a_row(c, n=2):
    """Several triangles, none very flat, all of the same order of size; and that size."""
    h = c.const(c.choice("size", [1.0, 2.0**-32]))
    out = []
    for k in range(n):
        p, e, f = ([c.real(f"{a}x{k}", -1, 1), c.real(f"{a}y{k}", -1, 1)] for a in "pef")
        c.assume(e[0] * f[1] - e[1] * f[0] >= 0.1)
        out.append([[x * h for x in v] for v in (p, [p[m] + e[m] for m in range(2)], [p[m] + f[m] for m in range(2)])])
    return out, h


def unit_data(c, n, k):
    """The k-th unit vector of nodal data, as lists of six numbers."""
    out = []
    for i in range(n):
        out.append([c.const(1 if 6 * i + j == k else 0) for j in range(6)])
    return out


PERMS3 = list(itertools.permutations(range(3)))


class Poly:
    """A polynomial in two variables as a dict {(i, j): coefficient}."""

    def __init__(self, co):
        self.co = dict(co)

    def __call__(self, x, y):
        tot = 0
        for (i, j), a in self.co.items():
            t = a
            for _ in range(i):
                t = t * x
            for _ in range(j):
                t = t * y
            tot = tot + t
        return tot

    def dx(self):
        return Poly({(i - 1, j): i * a for (i, j), a in self.co.items() if i})

    def dy(self):
        return Poly({(i, j - 1): j * a for (i, j), a in self.co.items() if j})

    def jet(self, x, y):
        """u, u_x, u_y, u_xx, u_xy, u_yy."""
        ux, uy = self.dx(), self.dy()
        return [f(x, y) for f in (self, ux, uy, ux.dx(), ux.dy(), uy.dy())]
