"""C11 Reported gradients and Hessians are the true derivatives."""

from vt.harness import harness
from vt.common import eq_mat, eq_ten, eq_vec
from vt.fem import quiet_grid, bary, triangle_inputs, in_a_row, SIZES, PERMS3
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import (
    P1Interpolation,
    C1Interpolation,
    RefinedInterpolation,
    EuclideanInterpolation,
    Deformation,
    EuclideanDeformation,
)

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "rounding errors on very flat triangles"
KINDS = {"p1": 1, "c1": 6}


def interpolation(c, kind, grid, name="d", n=None):
    n = len(grid.points) if n is None else n
    if kind == "p1":
        return P1Interpolation(grid, [c.real(f"{name}{i}", -10, 10) for i in range(n)])
    return C1Interpolation(
        grid, [[c.real(f"{name}{i}{j}", -10, 10) for j in range(6)] for i in range(n)]
    )


def directional(c, f, x, d):
    """Derivatives of the list valued f at x in direction d."""
    n = len(f(*x))
    return [c.derivative(lambda *z: f(*z)[k], x, d) for k in range(n)]


@harness(bounds="all non-degenerate triangles in all vertex orders, all points and directions, all nodal data", cost=3)
def gradient(c):
    """The gradient is the derivative of the value."""
    kind = c.choice("kind", list(KINDS))
    pts, e, f = triangle_inputs(c)
    order = c.choice("order", PERMS3)
    g = quiet_grid(c, pts, [order])
    u = interpolation(c, kind, g)
    l2, l3 = c.real("l2", 0.1, 0.4), c.real("l3", 0.1, 0.4)
    m2, m3 = c.real("m2", -1, 1), c.real("m3", -1, 1)
    q = [pts[k] for k in order]
    d = [(q[1][m] - q[0][m]) * m2 + (q[2][m] - q[0][m]) * m3 for m in range(2)]
    got = u.gradient(order, bary(l2, l3))
    (want,) = directional(c, lambda a, b: [u(order, bary(a, b))], [l2, l3], [m2, m3])
    c.check_eq(got[0] * d[0] + got[1] * d[1], want, f"{kind}: gradient", scale=10, tol=1e-5)


@harness(bounds=f"two triangles in a row, {SIZES}, at angles that are not very flat; all nodal data", cost=3)
def in_sequence(c):
    """Derivatives do not depend on earlier evaluations in other triangles."""
    kind = c.choice("kind", list(KINDS))
    triangles, h = in_a_row(c)
    t = (0, 1, 2)
    l2, l3 = 0.25, 0.5
    for n, pts in enumerate(triangles):
        g = quiet_grid(c, pts, [t])
        v = [c.real(f"v{n}{k}", -1, 1) for k in range(3)]
        u = P1Interpolation(g, v) if kind == "p1" else C1Interpolation(g, [[x, 0, 0, 0, 0, 0] for x in v])
        got = u.gradient(t, bary(c.const(l2), c.const(l3)))
        for m2, m3, k in ((1, 0, 1), (0, 1, 2)):
            (want,) = directional(c, lambda a, b: [u(t, bary(a, b))], [c.const(l2), c.const(l3)], [m2, m3])
            d = [pts[k][m] - pts[0][m] for m in range(2)]
            c.check_eq(got[0] * d[0] + got[1] * d[1], want, f"{kind}: gradient in triangle {n}", tol=1e-5)


@harness(bounds="as gradient, for the C1 interpolation", cost=5)
def hessian(c):
    """The Hessian is the symmetric derivative of the gradient."""
    pts, e, f = triangle_inputs(c)
    order = c.choice("order", PERMS3)
    g = quiet_grid(c, pts, [order])
    u = interpolation(c, "c1", g)
    l2, l3 = c.real("l2", 0.1, 0.4), c.real("l3", 0.1, 0.4)
    m2, m3 = c.real("m2", -1, 1), c.real("m3", -1, 1)
    q = [pts[k] for k in order]
    d = [(q[1][m] - q[0][m]) * m2 + (q[2][m] - q[0][m]) * m3 for m in range(2)]
    h = u.hessian(order, bary(l2, l3))
    c.check(tuple(h.shape) == (2, 2), "shape of the hessian")
    c.check_eq(h[0, 1], h[1, 0], "symmetric hessian", scale=10)
    for k in range(2):
        want = c.derivative(lambda a, b: u.gradient(order, bary(a, b))[k], [l2, l3], [m2, m3])
        c.check_eq(h[k, 0] * d[0] + h[k, 1] * d[1], want, f"hessian row {k}", scale=10, tol=1e-5)


def unit_square(fix=None):
    dom = RectangleDomain(1.0, 1.0, fix)
    return dom, dom.grid(1.0)


@harness(bounds="unit square refined by 2 and 3: all fine triangles, points, directions, nodal data", cost=4)
def refined(c):
    """The same for interpolations seen through a refined grid."""
    kind = c.choice("kind", list(KINDS))
    n = c.choice("factor", [2, 3])
    dom, g = unit_square()
    fine = dom.refine(g, n)
    u = RefinedInterpolation(interpolation(c, kind, g), fine)
    l2, l3 = c.real("l2", 0.1, 0.4), c.real("l3", 0.1, 0.4)
    m2, m3 = c.real("m2", -1, 1), c.real("m3", -1, 1)
    for t in fine.triangles:
        q = [[p[0], p[1]] for p in fine.triangle_vertices(t)]
        d = [(q[1][m] - q[0][m]) * m2 + (q[2][m] - q[0][m]) * m3 for m in range(2)]
        gr = u.gradient(t, bary(l2, l3))
        want = c.derivative(lambda a, b: u(t, bary(a, b)), [l2, l3], [m2, m3])
        c.check_eq(gr[0] * d[0] + gr[1] * d[1], want, f"{kind} {t}: gradient", scale=10, tol=1e-5)
        if kind == "c1":
            h = u.hessian(t, bary(l2, l3))
            c.check_eq(h[0, 1], h[1, 0], f"{t}: symmetric", scale=10)
            for k in range(2):
                want = c.derivative(lambda a, b: u.gradient(t, bary(a, b))[k], [l2, l3], [m2, m3])
                c.check_eq(h[k, 0] * d[0] + h[k, 1] * d[1], want, f"{t}: hessian row {k}", scale=10, tol=1e-5)


@harness(bounds="unit square, also refined by 2: all points in the interior of triangles, directions, nodal data", cost=4)
def euclidean(c):
    """The same for interpolations evaluated at plane coordinates."""
    kind = c.choice("kind", list(KINDS))
    n = c.choice("factor", [1, 2])
    dom, g = unit_square()
    u = interpolation(c, kind, g)
    if n > 1:
        u = RefinedInterpolation(u, dom.refine(g, n))
    u = EuclideanInterpolation(u)
    x, y = c.real("x", 0.01, 0.99), c.real("y", 0.01, 0.99)
    dx, dy = c.real("dx", -1, 1), c.real("dy", -1, 1)
    # away from the edges of the mesh
    for v in (x - y, n * x - 1, n * y - 1, n * (x - y) - 1, n * (y - x) - 1):
        c.assume(c.any_of([v >= 0.01, v <= -0.01]))
    gr = u.gradient(x, y)
    want = c.derivative(lambda a, b: u(a, b), [x, y], [dx, dy])
    c.check_eq(gr[0] * dx + gr[1] * dy, want, f"{kind}: gradient", scale=10, tol=1e-5)
    if kind == "c1":
        h = u.hessian(x, y)
        c.check_eq(h[0, 1], h[1, 0], "symmetric hessian", scale=10)
        for k in range(2):
            want = c.derivative(lambda a, b: u.gradient(a, b)[k], [x, y], [dx, dy])
            c.check_eq(h[k, 0] * dx + h[k, 1] * dy, want, f"hessian row {k}", scale=10, tol=1e-5)


@harness(bounds="all non-degenerate triangles in three vertex orders, all points, all nodal data of both components", cost=4)
def deformation(c):
    """Strain and hyper-strain collect the derivatives of the components."""
    kind = c.choice("kind", list(KINDS))
    pts, e, f = triangle_inputs(c)
    order = c.choice("order", PERMS3[::2])
    g = quiet_grid(c, pts, [order])
    u = [interpolation(c, kind, g, f"y{k}_") for k in range(2)]
    y = Deformation(*u)
    l = bary(c.real("l2", 0.1, 0.4), c.real("l3", 0.1, 0.4))
    c.check(y[0] is u[0] and y[1] is u[1], "components")
    eq_vec(c, y(order, l), [v(order, l) for v in u], "value")
    gr = [v.gradient(order, l) for v in u]
    eq_mat(c, y.strain(order, l), [[a[0], a[1]] for a in gr], "strain")
    t = c.real("t", 0, 1)
    eq_vec(c, y.on_edge(order[:2], t), [v.on_edge(order[:2], t) for v in u], "on an edge")
    if kind == "c1":
        hs = [v.hessian(order, l) for v in u]
        want = [[[h[i, j] for j in range(2)] for i in range(2)] for h in hs]
        eq_ten(c, y.hyper_strain(order, l), want, "hyper strain")


@harness(bounds="unit square: all points, all nodal data of both components", cost=4)
def euclidean_deformation(c):
    """The same for deformations evaluated at plane coordinates."""
    kind = c.choice("kind", list(KINDS))
    dom, g = unit_square()
    u = [interpolation(c, kind, g, f"y{k}_") for k in range(2)]
    y = EuclideanDeformation(*u)
    a, b = c.real("x", 0.05, 0.95), c.real("y", 0.05, 0.95)
    v = [EuclideanInterpolation(w) for w in u]
    eq_vec(c, y(a, b), [w(a, b) for w in v], "value")
    for k in range(2):
        c.check_eq(y[k](a, b), v[k](a, b), f"component {k}")
    gr = [w.gradient(a, b) for w in v]
    eq_mat(c, y.strain(a, b), [[p[0], p[1]] for p in gr], "strain")
    if kind == "c1":
        hs = [w.hessian(a, b) for w in v]
        want = [[[h[i, j] for j in range(2)] for i in range(2)] for h in hs]
        eq_ten(c, y.hyper_strain(a, b), want, "hyper strain")
