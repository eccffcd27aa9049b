"""C08 Piecewise affine interpolation is exact, continuous and local."""

from vt.harness import harness
from vt.common import eq_vec
from vt.fem import quiet_grid, bary, triangle_inputs, in_a_row, SIZES, PERMS3
from tvemoves_rufbad.domain import Boundary
from tvemoves_rufbad.interpolation import P1Interpolation, P1BoundaryInterpolation

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "nothing beyond floating-point rounding: the grid enters only through the triangle at hand"


def point(pts, l2, l3):
    return [pts[0][m] * (1 - l2 - l3) + pts[1][m] * l2 + pts[2][m] * l3 for m in range(2)]


@harness(bounds="all non-degenerate triangles, all affine functions, all points, all six vertex orders", cost=2)
def affine(c):
    """Affine functions and their gradients are reproduced."""
    pts, e, f = triangle_inputs(c)
    t = c.choice("order", PERMS3)
    g = quiet_grid(c, pts, [t])
    a, b, d = c.real("a"), c.real("b"), c.real("d")
    u = P1Interpolation(g, [a + b * p[0] + d * p[1] for p in pts])
    l2, l3 = c.real("l2"), c.real("l3")
    c.check(u.grid is g, "the grid is remembered")
    x = point([pts[k] for k in t], l2, l3)
    l = bary_any(c, l2, l3)
    c.check_eq(u(t, l), a + b * x[0] + d * x[1], "value")
    eq_vec(c, u.gradient(t, l), [b, d], "gradient")


def bary_any(c, l2, l3):
    c.assume(c.all_of([l2 >= 0, l3 >= 0, l2 + l3 <= 1]))
    return bary(l2, l3)


@harness(bounds="all values at the corners, all points; all vertex orders of both triangles at the common edge", cost=2)
def continuity(c):
    """Neighbours agree along the common edge with the evaluation on it."""
    vals = [c.real(f"v{k}") for k in range(4)]
    t = c.real("t", 0, 1)
    t1 = c.choice("order", PERMS3)
    t2 = {0: (1, 0, 3), 1: (0, 3, 1), 2: (3, 1, 0)}[c.choice("position", [0, 1, 2])]
    g = quiet_grid(c, [(0.0, 0.0), (1.0, 0.5), (0.25, 1.0), (1.0, -1.0)], [t1, t2])
    u = P1Interpolation(g, vals)
    out = []
    for tr in (t1, t2):
        l = [{0: t, 1: 1 - t}.get(v, 0) for v in tr]
        out.append(u(tr, bary(l[1], l[2])))
    want = t * vals[0] + (1 - t) * vals[1]
    c.check_eq(out[0], want, "first triangle on the edge")
    c.check_eq(out[1], want, "second triangle on the edge")
    c.check_eq(u.on_edge((0, 1), t), want, "evaluation on the edge")
    c.check_eq(u.on_edge((1, 0), 1 - t), want, "evaluation on the reversed edge")
    for tr in (t1, t2):
        for k, v in enumerate(tr):
            l = [1 if k == m else 0 for m in range(3)]
            c.check_eq(u(tr, bary(c.const(l[1]), c.const(l[2]))), vals[v], f"value at corner {v} of {tr}")


@harness(bounds="all values at the corners and positions, all gradients of arbitrary values", cost=2)
def gradients(c):
    """The gradient of arbitrary values is that of the affine function through them."""
    pts, e, f = triangle_inputs(c)
    t = c.choice("order", PERMS3)
    g = quiet_grid(c, pts, [t])
    v = [c.real(f"v{k}") for k in range(3)]
    u = P1Interpolation(g, v)
    gr = u.gradient(t, bary(c.const(1 / 4), c.const(1 / 4)))
    c.check(len(gr) == 2, "two components")
    for k, d in ((1, e), (2, f)):
        c.check_eq(gr[0] * d[0] + gr[1] * d[1], v[k] - v[0], f"increase along side {k}")


@harness(bounds=f"two triangles in a row, {SIZES}, at angles that are not very flat; all affine functions", cost=2)
def in_sequence(c):
    """An evaluation does not depend on earlier ones in other triangles."""
    triangles, h = in_a_row(c)
    t = c.choice("order", PERMS3)
    for n, pts in enumerate(triangles):
        g = quiet_grid(c, pts, [t])
        a, b, d = c.real(f"a{n}", -1, 1), c.real(f"b{n}", -1, 1), c.real(f"d{n}", -1, 1)
        values = [a * h + b * p[0] + d * p[1] for p in pts]
        u = P1Interpolation(g, values)
        l = bary(c.const(0.25), c.const(0.25))
        eq_vec(c, u.gradient(t, l), [b, d], f"gradient in triangle {n}")
        want = values[t[0]] * 0.5 + values[t[1]] * 0.25 + values[t[2]] * 0.25
        c.check_eq(u(t, l), want, f"value in triangle {n}", scale=h)


@harness(bounds="all values; 1 to 4 boundary vertices of arbitrary numbers")
def boundary(c):
    """Interpolation on boundary edges."""
    t = c.real("t", 0, 1)
    vals = {k: c.real(f"v{k}") for k in (2, 5, 9)}
    b = Boundary([2, 5, 9], [(2, 5), (9, 5), (2, 9)])
    u = P1BoundaryInterpolation(b, dict(vals))
    c.check(u.boundary is b, "the boundary is remembered")
    for i, j in b.edges:
        for p, q in ((i, j), (j, i)):
            c.check_eq(u((p, q), t), t * vals[p] + (1 - t) * vals[q], f"value on {p}-{q}")
    for bad in ({}, {2: vals[2], 5: vals[5]}, {**vals, 7: vals[2]}):
        c.raises(ValueError, lambda: P1BoundaryInterpolation(b, bad), f"{len(bad)} values refused")


@harness(bounds="0 to 6 values on a grid of 4 vertices")
def wrong_number(c):
    """A wrong number of values is rejected."""
    g = quiet_grid(c, [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0)], [(0, 1, 2), (3, 2, 1)])
    v = c.real("v")
    for n in (0, 1, 2, 3, 5, 6):
        c.raises(ValueError, lambda: P1Interpolation(g, [v] * n), f"{n} values refused")
    P1Interpolation(g, [v] * 4)
