"""C34 Operations leave their inputs alone and objects do not influence each other."""

import copy

import numpy as np

from vt.fem import bary, triangle_inputs, quiet_grid
from vt.common import vec, mat, ten
from vt.harness import harness
from vt.pictures import FakePlots, FakeAxes
from vt.pyowalk import solve_captured
from vt.scheme import *  # noqa: F401,F403
from vt.steps import *  # noqa: F401,F403
from tvemoves_rufbad.domain import RectangleDomain, BarycentricPoint
from tvemoves_rufbad.integrators import Integrator, BoundaryIntegrator
from tvemoves_rufbad.interpolation import (
    P1Interpolation,
    P1BoundaryInterpolation,
    C1Interpolation,
    RefinedInterpolation,
    EuclideanInterpolation,
    EuclideanDeformation,
    Deformation,
)
from tvemoves_rufbad.quadrature_rules import CENTROID, DUNAVANT2, DUNAVANT5
from tvemoves_rufbad.tensors import Vector, Matrix, Tensor3D, BarycentricCoordinates, inverse_2x2

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "in the runs of two simulations the optimiser's answers are given numbers",
]
OUTSIDE = "more than two simulations at once; lists the caller changes after handing them over"


class Named:
    """The inputs of one of several problems."""

    def __init__(self, c, tag):
        self._c, self._tag = c, tag

    def real(self, name, *a, **kw):
        return self._c.real(self._tag + name, *a, **kw)

    def __getattr__(self, name):
        return getattr(self._c, name)


PAIRS = [
    ((0, CELL), (0, CELL)),
    ((0, CELL), (0, SHAPES[1])),
    ((0, CELL), (1, CELL)),
]
ORDERS = ["ab", "abab", "abba", "aab"]


@harness(bounds="three pairs of problems (one to two cells, one regularized), all parameters, loads and previous states; four orders of steps; given answers", cost=9)
def interleaved(c):
    """Two simulations, one step of each at a time, get the models they would get alone."""
    kinds = c.choice("pair", PAIRS)
    order = c.choice("order", ORDERS if kinds[0] == kinds[1] else ORDERS[2:3])
    probs, schemes, sims = {}, {}, {}
    for name, (factor, shape) in zip("ab", kinds):
        cc = Named(c, name)
        probs[name] = Problem(cc, shape, factor, theta0=0.75 if name == "a" else 0.5)
        schemes[name] = Scheme(cc, probs[name], given_answers)
    for name in order:
        with Hooked(schemes[name]):
            if name not in sims:
                sims[name] = probs[name].simulation()
            else:
                sims[name].run(1)
    for name in "ab":
        c.check(schemes[name].solves == 2 * order.count(name), f"{name}: solves of its own")
        check_records(c, probs[name], sims[name], schemes[name].records)


@harness(bounds="one cell; all parameters and loads", cost=5)
def shared(c):
    """Two simulations of the same domain and the same parameters."""
    prob = Problem(c, CELL, 0, theta0=0.75)
    first, second = Scheme(c, prob, given_answers), Scheme(c, prob, given_answers)
    params = prob.params
    before = dict(vars(params))
    with Hooked(first):
        a = prob.simulation()
    with Hooked(second):
        b = prob.simulation()
        b.run(1)
    with Hooked(first):
        a.run(1)
    check_records(c, prob, a, first.records)
    check_records(c, prob, b, second.records)
    same_values(c, before, dict(vars(params)), "parameters")


def same_values(c, a, b, label):
    c.check(sorted(a) == sorted(b), f"{label}: the same")
    for k in a:
        x, y = a[k], b[k]
        if x is None or y is None or isinstance(x, (str, int)):
            c.check(x is None and y is None or x == y, f"{label}: {k}")
        else:
            c.check_eq(x, y, f"{label}: {k}")


def picture(g):
    """Everything public about a mesh, copied."""

    def bd(b):
        return (list(b.vertices), [tuple(e) for e in b.edges])

    return {
        "vertices": list(g.vertices),
        "edges": [tuple(e) for e in g.edges],
        "triangles": [tuple(t) for t in g.triangles],
        "boundary": bd(g.boundary),
        "dirichlet": bd(g.dirichlet_boundary),
        "neumann": bd(g.neumann_boundary),
        "points": [(p[0], p[1]) for p in g.points],
    }


def unchanged(c, before, g, label):
    now = picture(g)
    for k in before:
        if k != "points":
            c.check(before[k] == now[k], f"{label}: {k}")
    c.check(len(before["points"]) == len(now["points"]), f"{label}: number of points")
    for p, q in zip(before["points"], now["points"]):
        for m in range(2):
            c.check_eq(q[m], p[m], f"{label}: points")


def use_grid(c, dom, g, ops):
    """Things that can be done with a grid."""
    n = len(g.points)
    u = [c.real(f"u{k}", -1, 1) for k in range(n)]
    d = [[c.real(f"d{k}_{i}", -1, 1) for i in range(6)] for k in range(n)]
    t = g.triangles[0]
    b = bary(0.25, 0.5)
    if "refine" in ops:
        f = dom.refine(g, 2)
        f.append_edge((0, len(f.points) - 1))
        f.boundary.vertices.reverse()
        f.boundary.edges.reverse()
        f.triangles.reverse()
        f.vertices.reverse()
        f.points.reverse()
    if "interpolate" in ops:
        P1Interpolation(g, u)(t, b)
        P1Interpolation(g, u).gradient(t, b)
        C1Interpolation(g, d)(t, b)
        C1Interpolation(g, d).hessian(t, b)
        P1BoundaryInterpolation(g.boundary, u)(g.boundary.edges[0], 0.25)
        EuclideanInterpolation(P1Interpolation(g, u))(0.25, 0.125)
    if "integrate" in ops:
        Integrator(DUNAVANT2, g.triangles, g.points)(lambda tri, p: p.l1)
        BoundaryIntegrator(2, g.boundary.edges, g.points)(lambda e, s: s)
    if "look" in ops:
        g.to_barycentric_point(Vector([0.25, 0.125]))
        g.point_to_vertex(Vector([0.0, 0.0]))
        g.triangle_vertices(t)
        g.edge_vertices(g.edges[0])
        _ = g == dom.grid(1.0), g == g, repr(g)
    if "draw" in ops:
        with FakePlots():
            g.plot(FakeAxes())
    if "steps" in ops:
        step = mechanical_step(StubSolver(), g, SimulationParams(0.5, 0.25, 2.0, 1.0).mechanical_step_params(), None, NoLoads().traction)
        solve_captured(step, step.y)


OPS = ["refine", "interpolate", "integrate", "look", "draw", "steps"]


@harness(bounds="1x1 and 2x1 cells, three choices of fixed sides; all nodal data", cost=2)
def grids(c):
    """Whatever is done with a grid does not change it, its domain, or other grids."""
    w, fixed = c.choice("grid", [(1.0, ["left"]), (2.0, ["lower", "right"]), (1.0, None)])
    op = c.choice("operation", OPS)
    given = None if fixed is None else list(fixed)
    dom = RectangleDomain(w, 1.0, given)
    g, other = dom.grid(1.0), dom.grid(1.0)
    before = picture(g)
    use_grid(c, dom, g, [op])
    unchanged(c, before, g, f"the grid after {op}")
    unchanged(c, before, other, f"another grid after {op}")
    unchanged(c, before, dom.grid(1.0), f"a new grid after {op}")
    c.check(dom.fix == fixed and given == fixed, "fixed sides")
    c.check(dom.width == w and dom.height == 1.0, "sides of the domain")
    dom.curves(3, 1)
    unchanged(c, before, dom.grid(1.0), "a new grid after making curves")


@harness(bounds="1x1 and 2x1 cells with all lists reversed, fixed sides; all nodal data", cost=2)
def disordered(c):
    """Grids whose vertices, edges and triangles are listed in another order keep that order."""
    w = c.choice("width", [1.0, 2.0])
    op = c.choice("operation", ["interpolate", "integrate", "look", "draw"])
    dom = RectangleDomain(w, 1.0, ["left", "upper"])
    g = dom.grid(1.0)
    for x in (g, g.boundary, g.dirichlet_boundary, g.neumann_boundary):
        x.vertices.reverse()
        x.edges.reverse()
    g.triangles.reverse()
    before, other = picture(g), dom.grid(1.0)
    use_grid(c, dom, g, [op])
    c.check(g == other and other == g, "the same grid")
    unchanged(c, before, g, f"the grid after {op}")
    unchanged(c, picture(dom.grid(1.0)), other, f"another grid after {op}")


@harness(bounds="1x1 and 2x1 cells refined by 2; all nodal data and points", cost=2)
def copies(c):
    """Grids of one domain are separate objects."""
    w = c.choice("width", [1.0, 2.0])
    dom = RectangleDomain(w, 1.0, ["left"])
    g = dom.grid(1.0)
    fine = dom.refine(g, 2)
    b, f = picture(g), picture(fine)
    other, again = dom.grid(1.0), dom.refine(g, 2)
    for h in (other, again):
        h.append_edge((0, len(h.points) - 1))
        for x in (h, h.boundary, h.dirichlet_boundary, h.neumann_boundary):
            x.vertices.append(99)
            x.edges.append((98, 99))
        h.triangles.append((97, 98, 99))
        h.points.append(Vector([7.0, 7.0]))
    unchanged(c, b, g, "the first grid")
    unchanged(c, f, fine, "the first refinement")
    unchanged(c, b, dom.grid(1.0), "a new grid")
    unchanged(c, f, dom.refine(g, 2), "a new refinement")


def nested(x):
    """The entries of a tensor, copied."""
    if isinstance(x, Vector):
        return [[[v for v in x]]]
    if isinstance(x, Matrix):
        return [[[x[i, j] for j in range(x.shape[1])] for i in range(x.shape[0])]]
    return [[[x[i, j, k] for k in range(x.shape[2])] for j in range(x.shape[1])] for i in range(x.shape[0])]


def vector_ops(a, b, s):
    return [
        lambda: a + b, lambda: a - b, lambda: -a, lambda: a * s, lambda: s * a, lambda: a / s,
        lambda: a.dot(b), lambda: a.normsqr(), lambda: a.stack(b), lambda: a.map(lambda x: x + 1),
        lambda: a.reshape(2, 1), lambda: a.extend(b), lambda: a.transpose(), lambda: a == b, lambda: a[0:1],
        lambda: (repr(a), str(a), len(a), list(a)),
    ]  # fmt: skip


def matrix_ops(a, b, s):
    return [
        lambda: a + b, lambda: a - b, lambda: -a, lambda: a * s, lambda: s * a, lambda: a / s,
        lambda: a @ b, lambda: a.transpose(), lambda: a.trace(), lambda: a.det(), lambda: a.normsqr(),
        lambda: a.scalar_product(b), lambda: a.flatten(), lambda: a.dot(Vector([s, 1])),
        lambda: a.map(lambda x: x + 1), lambda: a.stack(b), lambda: a == b, lambda: inverse_2x2(a),
        lambda: (repr(a), str(a)),
    ]  # fmt: skip


def tensor_ops(a, b, s):
    return [
        lambda: a + b, lambda: a - b, lambda: -a, lambda: a.normsqr(), lambda: a.map(lambda x: x + 1),
        lambda: a == b, lambda: (repr(a), str(a)),
    ]  # fmt: skip


@harness(bounds="all vectors, matrices and tensors of sizes two; every operation", cost=2)
def tensors(c):
    """No operation changes its operands, and numpy copies are copies."""
    kind = c.choice("kind", ["vector", "matrix", "tensor"])
    make = {
        "vector": lambda n: vec(c, n, 2),
        "matrix": lambda n: mat(c, n, 2, 2),
        "tensor": lambda n: ten(c, n, 2, 2, 2),
    }[kind]
    a, b = make("a"), make("b")
    s = c.real("s", 1, 2)
    if kind == "matrix":
        c.assume(a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0] > 0)
    old = copy.deepcopy(nested(a)), copy.deepcopy(nested(b))
    for k, op in enumerate({"vector": vector_ops, "matrix": matrix_ops, "tensor": tensor_ops}[kind](a, b, s)):
        op()
        op()
        kept(c, a, old[0], f"{kind}: left operand of operation {k}")
        kept(c, b, old[1], f"{kind}: right operand of operation {k}")
    arr = a.numpy()
    arr[...] = 17.0
    kept(c, a, old[0], f"{kind}: after changing the numpy copy")


def kept(c, x, old, label):
    now = nested(x)
    ok = len(now) == len(old) and all(
        len(p) == len(q) and all(len(u) == len(v) for u, v in zip(p, q)) for p, q in zip(now, old)
    )
    c.check(ok, f"{label}: shape")
    if ok:
        flat = lambda t: [v for p in t for u in p for v in u]  # noqa: E731
        for u, v in zip(flat(now), flat(old)):
            c.check_eq(u, v, f"{label}: entries")


@harness(bounds="one cell, plain and regularized; all data", cost=4)
def arrays(c):
    """Arrays handed to a step or read from it can be changed without changing the step."""
    factor = c.choice("factor", [0, 1])
    mech = c.choice("step", [True, False])
    prob = Problem(c, CELL, factor)
    n, nt = len(prob.grid.points), len((prob.fine or prob.grid).points)
    y0 = around(c, "p", prob.ref, 0.1)
    y1 = around(c, "q", prob.ref, 0.1)
    t0 = array(c, "t", (nt,), 0, 2)
    given = [y0.copy(), y1.copy(), t0.copy()]
    if mech:
        step = prob.mechanical(given[0], given[2], 0.0)
        read, extra = step.y, [step.prev_y, step.prev_theta, step.y]
        want = [y0, t0]
    else:
        step = prob.thermal(given[0], given[1], given[2], 0.0)
        read, extra = step.theta, [step.theta, step.y]
        want = [t0, y1]
    for a, b in zip(given, (y0, y1, t0)):
        equal_arrays(c, a, b, "arrays handed over keep their values")
    for a in given:
        a[...] = 0.5
    for get in extra:
        out = get()
        out[...] = 0.25
    for get, w in zip(extra, want):
        equal_arrays(c, get(), w, "data of the step")
    fresh = prob.mechanical(y0, t0, 0.0) if mech else prob.thermal(y0, y1, t0, 0.0)
    with c.defined(), c.reciprocals(), c.snapped_naming(at_least=6):
        vals = None
        snaps = []
        for s in (step, fresh):
            got = []

            def hook(model):
                nonlocal vals
                vals = vals or [c.real(f"v{k}", -1, 2) for k in range(len(variables(model)))]
                got.append(Snapshot(model, vals))

            with Hooked(hook):
                s.solve()
            snaps += got
    compare(c, snaps[0], snaps[1], "model")


def equal_arrays(c, a, b, label):
    c.check(np.shape(a) == np.shape(b), f"{label}: shape")
    for k in np.ndindex(*np.shape(b)):
        c.check_eq(a[k], b[k], label)
