"""C12 Refined and Euclidean interpolations evaluate the same function."""

from vt.harness import harness
from vt.common import eq_mat, eq_vec
from vt.fem import bary
from vt.mesh import SIDES
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import (
    P1Interpolation,
    C1Interpolation,
    RefinedInterpolation,
    EuclideanInterpolation,
    EuclideanDeformation,
)

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "other grids than the stated ones; scales other than the stated ones"


def interpolation(c, kind, grid, name="d"):
    n = len(grid.points)
    if kind == "p1":
        return P1Interpolation(grid, [c.real(f"{name}{i}", -10, 10) for i in range(n)])
    return C1Interpolation(
        grid, [[c.real(f"{name}{i}{j}", -10, 10) for j in range(6)] for i in range(n)]
    )


def rational(c, x):
    """Grid coordinates are small fractions."""
    return x if not c.symbolic else c.const(x)


def in_triangle(c, grid, t, x):
    """Barycentric coordinates of the plane point x in triangle t (by Cramer's rule)."""
    p, q, r = [[rational(c, grid.points[v][m]) for m in range(2)] for v in t]
    a = [q[m] - p[m] for m in range(2)]
    b = [r[m] - p[m] for m in range(2)]
    d = [x[m] - p[m] for m in range(2)]
    det = a[0] * b[1] - a[1] * b[0]
    return (d[0] * b[1] - d[1] * b[0]) / det, (a[0] * d[1] - a[1] * d[0]) / det


def home(coarse, fine, t):
    """The coarse triangle that contains the centre of the fine one (from plane coordinates)."""
    x = [sum(fine.points[v][m] for v in t) / 3 for m in range(2)]
    for s in coarse.triangles:
        p, q, r = [coarse.points[v] for v in s]
        a, b, d = [[z[m] - p[m] for m in range(2)] for z in (q, r, x)]
        det = a[0] * b[1] - a[1] * b[0]
        l2, l3 = (d[0] * b[1] - d[1] * b[0]) / det, (a[0] * d[1] - a[1] * d[0]) / det
        if l2 > 0 and l3 > 0 and l2 + l3 < 1:
            return s
    raise AssertionError("no coarse triangle")


def check_refined(c, kind, u, v, coarse, fine, label):
    l2, l3 = c.real("l2", 0, 1), c.real("l3", 0, 1)
    c.assume(l2 + l3 <= 1)
    for t in fine.triangles:
        x = [
            sum(rational(c, fine.points[w][m]) * l for w, l in zip(t, (1 - l2 - l3, l2, l3)))
            for m in range(2)
        ]
        s = home(coarse, fine, t)
        k2, k3 = in_triangle(c, coarse, s, x)
        l, k = bary(l2, l3), bary(k2, k3)
        name = f"{label} {t}"
        c.check_eq(v(t, l), u(s, k), f"{name}: value", scale=10)
        a, b = v.gradient(t, l), u.gradient(s, k)
        eq_vec(c, a, [b[0], b[1]], f"{name}: gradient", scale=10)
        if kind == "c1":
            a, b = v.hessian(t, l), u.hessian(s, k)
            eq_mat(c, a, [[b[0, 0], b[0, 1]], [b[1, 0], b[1, 1]]], f"{name}: hessian", scale=10)


CONFIGS = [(1, 1, 1.0, (2,)), (1, 1, 0.5, (3,)), (2, 1, 1.0, (2,)), (1, 1, 1.0, (2, 2))]


def refined_run(c, configs):
    kind = c.choice("kind", ["p1", "c1"])
    nx, ny, s, ns = c.choice("grid", configs)
    dom = RectangleDomain(nx * s, ny * s)
    g = dom.grid(s)
    u = v = interpolation(c, kind, g)
    f = g
    for n in ns:
        f = dom.refine(f, n)
        v = RefinedInterpolation(v, f)
    c.check(v.grid is f, "the grid is the refined one")
    check_refined(c, kind, u, v, g, f, f"{kind} {nx}x{ny} by {ns}")


@harness(bounds="up to 2x1 cells, factors 2 and 3, also twice; all points, all nodal data", cost=6)
def refined(c):
    """Values, gradients and Hessians through a refined grid."""
    refined_run(c, CONFIGS)


@harness(tier="thorough", bounds="up to 2x2 cells, factors up to 5", cost=9)
def refined_large(c):
    """Values, gradients and Hessians through a refined grid."""
    refined_run(c, [(2, 2, 1.0, (3,)), (1, 1, 1.0, (5,)), (1, 2, 0.25, (2, 3))])


@harness(bounds="up to 2x2 cells, factors 2 and 3, also twice; all positions on all fine edges, all nodal data", cost=5)
def edges(c):
    """Evaluation on fine edges that lie on coarse ones."""
    kind = c.choice("kind", ["p1", "c1"])
    nx, ny, s, ns = c.choice("grid", [(1, 1, 1.0, (2,)), (2, 1, 0.5, (3,)), (2, 2, 1.0, (2,)), (1, 1, 1.0, (2, 2))])
    dom = RectangleDomain(nx * s, ny * s)
    g = dom.grid(s)
    u = v = interpolation(c, kind, g)
    f, n = g, 1
    for k in ns:
        f = dom.refine(f, k)
        v = RefinedInterpolation(v, f)
        n *= k
    t = c.real("t", 0, 1)

    def lattice(grid):
        return [[round(p[m] / s * n) for m in range(2)] for p in grid.points]

    fi, co = lattice(f), lattice(g)
    for e in f.edges:
        on = None
        for ce in g.edges:
            a, b = co[ce[0]], co[ce[1]]
            d = [b[m] - a[m] for m in range(2)]
            pos = []
            for w in e:
                r = [fi[w][m] - a[m] for m in range(2)]
                dd = d[0] ** 2 + d[1] ** 2
                q = r[0] * d[0] + r[1] * d[1]
                if d[0] * r[1] == d[1] * r[0] and 0 <= q <= dd:
                    pos.append((q, dd))
            if len(pos) == 2:
                on = (ce, pos)
        name = f"{kind} {nx}x{ny} by {ns}: edge {e}"
        if on is None:
            c.raises(Exception, lambda: v.on_edge(e, t), f"{name}: refused")
            continue
        ce, pos = on
        # the position of the point, measured from the first end of the coarse edge
        away = sum(c.const(1) * q / dd * w for (q, dd), w in zip(pos, (t, 1 - t)))
        c.check_eq(v.on_edge(e, t), u.on_edge(ce, 1 - away), f"{name}: value", scale=10)


def off_edges(c, nx, n, x, y, margin=1e-6):
    """The point is not within the margin of an edge of the mesh."""
    zs = [n * (x - y) - k for k in range(1 - n, n * nx)]
    zs += [n * x - k for k in range(0, n * nx + 1)] + [n * y - k for k in range(0, n + 1)]
    c.assume(c.all_of([c.any_of([z >= margin, z <= -margin]) for z in zs]))


@harness(bounds="1x1, 2x1, refined 1x1 cells; all points at least 1e-6 away from the edges of the mesh, all nodal data", cost=5)
def euclidean(c):
    """Evaluation at plane coordinates."""
    kind = c.choice("kind", ["p1", "c1"])
    nx, n = c.choice("grid", [(1, 1), (2, 1), (1, 2)])
    dom = RectangleDomain(float(nx), 1.0)
    g = dom.grid(1.0)
    u = w = interpolation(c, kind, g)
    if n > 1:
        w = RefinedInterpolation(u, dom.refine(g, n))
    v = EuclideanInterpolation(w)
    x, y = c.real("x", 0, nx), c.real("y", 0, 1)
    off_edges(c, nx, n, x, y)
    # independent of the code: the cell and half of the point
    i = 0
    if nx == 2:
        i = 0 if c.fork(x < 1) else 1
    up = c.fork(y > x - i)
    t = [s for s in g.triangles if inside(g, s, i, up)][0]
    k = bary(*in_triangle(c, g, t, [x, y]))
    name = f"{kind} {nx}x1 by {n}"
    c.check_eq(v(x, y), u(t, k), f"{name}: value", scale=10)
    a, b = v.gradient(x, y), u.gradient(t, k)
    eq_vec(c, a, [b[0], b[1]], f"{name}: gradient", scale=10)
    if kind == "c1":
        a, b = v.hessian(x, y), u.hessian(t, k)
        eq_mat(c, a, [[b[0, 0], b[0, 1]], [b[1, 0], b[1, 1]]], f"{name}: hessian", scale=10)


@harness(bounds="1x1, 2x1, refined 1x1 cells; all points exactly on edges, all nodal data", cost=5)
def euclidean_on_edges(c):
    """Evaluation at plane coordinates on the edges of the mesh."""
    kind = c.choice("kind", ["p1", "c1"])
    nx, n = c.choice("grid", [(1, 1), (2, 1), (1, 2)])
    dom = RectangleDomain(float(nx), 1.0)
    g = dom.grid(1.0)
    u = w = interpolation(c, kind, g)
    if n > 1:
        w = RefinedInterpolation(u, dom.refine(g, n))
    v = EuclideanInterpolation(w)
    e = c.choice("edge", g.edges)
    at = c.choice("at", ["between", 0.0, 0.5, 1.0])
    if at == "between":  # at least 1e-6 away from the vertices of the mesh
        t = c.real("t", 1e-6, 1 - 1e-6)
        c.assume(c.any_of([t <= 0.5 - 1e-6, t >= 0.5 + 1e-6]))
    else:
        t = c.const(at)
    p, q = [[rational(c, g.points[k][m]) for m in range(2)] for k in e]
    x, y = [p[m] * t + q[m] * (1 - t) for m in range(2)]
    c.check_eq(v(x, y), u.on_edge(e, t), f"{kind} {nx}x1 by {n} edge {e}: value", scale=10)


@harness(bounds="one cell, refined by 1 and 2, at scales 1e-12, 1 and 1000: all sequences of two points anywhere in it, all nodal data", cost=3)
def sequences(c):
    """Earlier evaluations of the same object do not influence later ones."""
    kind = c.choice("kind", ["p1", "c1"])
    s = c.choice("scale", [1.0, 2.0**-40, 1024.0])
    n = c.choice("factor", [1, 2])
    dom = RectangleDomain(s, s)
    g = dom.grid(s)
    u = interpolation(c, kind, g)
    f = dom.refine(g, n)
    v = EuclideanInterpolation(RefinedInterpolation(u, f))
    w = EuclideanDeformation(u, u)
    for k in range(2):
        # a point in the first triangle of one of the halves of the cell
        t = g.triangles[k if n == 1 else 0]
        a, b = c.real(f"a{k}", 1e-6, 1), c.real(f"b{k}", 1e-6, 1)
        c.assume(a + b <= 1 - 1e-6)
        if n == 2:
            c.assume(a <= 0.5 - 1e-6)
            c.assume(b <= 0.5 - 1e-6)
            c.assume(a + b >= 0.5 + 1e-6)
        p, q, r = [[rational(c, g.points[i][m]) for m in range(2)] for i in t]
        x, y = [p[m] * a + q[m] * b + r[m] * (1 - a - b) for m in range(2)]
        ref = u(t, bary(b, 1 - a - b))
        c.check_eq(v(x, y), ref, f"{kind}: value at point {k}", scale=1e4)
        c.check_eq(w(x, y)[1], ref, f"{kind}: deformation at point {k}", scale=1e4)
        h, j = v.gradient(x, y), u.gradient(t, bary(b, 1 - a - b))
        eq_vec(c, h, [j[0], j[1]], f"{kind}: gradient at point {k}", scale=1e4 / s)


@harness(bounds="components on the unit cell and on its refinement by 2, in either order; all points at least 1e-6 away from the edges of the meshes, all nodal data", cost=3)
def own_meshes(c):
    """Each component of a deformation is evaluated on its own mesh."""
    kind = c.choice("kind", ["p1", "c1"])
    dom = RectangleDomain(1.0, 1.0)
    g = dom.grid(1.0)
    f = dom.refine(g, 2)
    us = [interpolation(c, kind, g, "d"), P1Interpolation(f, [c.real(f"e{i}", -10, 10) for i in range(9)])]
    if kind == "c1":
        us[1] = RefinedInterpolation(interpolation(c, kind, g, "e"), f)
    if c.choice("order", [False, True]):
        us.reverse()
    v = EuclideanDeformation(*us)
    x, y = c.real("x", 0, 1), c.real("y", 0, 1)
    off_edges(c, 1, 2, x, y)
    for k, u in enumerate(us):
        e = EuclideanInterpolation(u)
        c.check_eq(v(x, y)[k], e(x, y), f"{kind}: component {k}", scale=10)
        a, b = v.strain(x, y), e.gradient(x, y)
        for m in range(2):
            c.check_eq(a[k, m], b[m], f"{kind}: strain {k}{m}", scale=10)
        if kind == "c1":
            a, b = v.hyper_strain(x, y), e.hessian(x, y)
            for i in range(2):
                for j in range(2):
                    c.check_eq(a[k, i, j], b[i, j], f"{kind}: hyper-strain {k}{i}{j}", scale=10)


def inside(g, s, i, up):
    m = [sum(g.points[v][k] for v in s) / 3 for k in range(2)]
    return i < m[0] < i + 1 and (m[1] > m[0] - i) == up


@harness(bounds="unit square and 2x1, also refined: all points of the plane at least 1e-6 outside", cost=2)
def outside(c):
    """Points outside the domain are refused."""
    kind = c.choice("kind", ["p1", "c1"])
    nx, n = c.choice("grid", [(1, 1), (2, 1), (1, 2)])
    dom = RectangleDomain(float(nx), 1.0)
    g = dom.grid(1.0)
    u = interpolation(c, kind, g)
    if n > 1:
        u = RefinedInterpolation(u, dom.refine(g, n))
    v = EuclideanInterpolation(u)
    w = EuclideanDeformation(u, u)
    x, y = c.real("x"), c.real("y")
    c.assume(c.any_of([x >= nx + 1e-6, x <= -1e-6, y >= 1 + 1e-6, y <= -1e-6]))
    for f, what in ((v, "value"), (v.gradient, "gradient"), (w, "deformation"), (w.strain, "strain")):
        c.raises(Exception, lambda: f(x, y), f"{kind}: {what} outside refused")


@harness(bounds="unit square: all points, all nodal data of both components", cost=3)
def components(c):
    """A deformation at plane coordinates is taken component by component."""
    kind = c.choice("kind", ["p1", "c1"])
    dom = RectangleDomain(1.0, 1.0)
    g = dom.grid(1.0)
    u = [interpolation(c, kind, g, f"y{k}_") for k in range(2)]
    w = EuclideanDeformation(*u)
    x, y = c.real("x", 0, 1), c.real("y", 0, 1)
    off_edges(c, 1, 1, x, y)
    up = c.fork(y > x)
    t = [s for s in g.triangles if inside(g, s, 0, up)][0]
    k2, k3 = in_triangle(c, g, t, [x, y])
    eq_vec(c, w(x, y), [z(t, bary(k2, k3)) for z in u], f"{kind}: deformation", scale=10)
    for m in range(2):
        c.check_eq(w[m](x, y), u[m](t, bary(k2, k3)), f"{kind}: component {m}", scale=10)
