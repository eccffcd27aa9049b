"""C04 Fine points and fine edges map to the same place on the coarse grid."""

from vt.harness import harness
from vt.common import bary_point
from vt.mesh import Lattice, valid
from tvemoves_rufbad.domain import RectangleDomain, BarycentricPoint
from tvemoves_rufbad.tensors import BarycentricCoordinates

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "more cells and larger factors than stated"

CONFIGS = [
    (1, 1, (1,)),
    (1, 1, (2,)),
    (1, 1, (3,)),
    (2, 1, (2,)),
    (1, 2, (3,)),
    (2, 2, (2,)),
    (1, 1, (2, 2)),
    (1, 1, (3, 2)),
    (2, 1, (1, 2)),
]
LARGE = [(1, 1, (4,)), (1, 1, (7,)), (2, 2, (3,)), (3, 2, (2,)), (2, 1, (2, 2)), (1, 1, (2, 2, 2))]


def setup(c, configs):
    s = c.real("scale", 0, open_lo=True)
    nx, ny, ns = c.choice("config", configs)
    dom = RectangleDomain(nx * s, ny * s, "left")
    g = dom.grid(s)
    n = 1
    for k in ns:
        g = dom.refine(g, k)
        n *= k
    label = f"{nx}x{ny} by {ns}"
    c.check(all(k is not None for k in (g.coarse(),)), f"{label}: coarse grid")
    ok = valid(c, g, label) and valid(c, g.coarse(), label + " coarse")
    return s, n, g, g.coarse(), label, ok


def triangle_points(c, configs):
    s, n, g, co, label, ok = setup(c, configs)
    if not ok:
        return
    l1, l2 = c.real("l1", 0, 1), c.real("l2", 0, 1)
    c.assume(l1 + l2 <= 1)
    for t in g.triangles:
        for k in range(3):
            ft = tuple(t[k:] + t[:k])
            r = g.to_coarse_barycentric_point(BarycentricPoint(ft, BarycentricCoordinates(l1, l2)))
            name = f"{label}: triangle {ft}"
            c.check(tuple(r.triangle) in set(co.triangles), f"{name}: a coarse triangle")
            here = bary_point([g.points[v] for v in ft], [l1, l2, 1 - l1 - l2])
            q = list(r.coordinates)
            there = bary_point([co.points[v] for v in r.triangle], q)
            for m in range(2):
                c.check_eq(there[m], here[m], f"{name}: same point ({'xy'[m]})", scale=s)
            for m in range(3):
                c.check_ge(q[m], 0, f"{name}: inside the coarse triangle ({m})")


@harness(bounds="up to 2x2 cells, factors up to 3, also twice; all fine triangles, all their cyclic orders, all points, all scales", cost=5)
def triangles(c):
    """Points of fine triangles."""
    triangle_points(c, CONFIGS)


@harness(tier="thorough", bounds="up to 3x2 cells, factors up to 7", cost=9)
def triangles_large(c):
    """Points of fine triangles."""
    triangle_points(c, LARGE)


def between(p, a, b):
    """The lattice point p lies on the segment from a to b."""
    cr = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
    return cr == 0 and all(min(a[m], b[m]) <= p[m] <= max(a[m], b[m]) for m in range(2))


def edge_points(c, configs):
    s, n, g, co, label, ok = setup(c, configs)
    if not ok:
        return
    t = c.real("t", 0, 1)
    fine = Lattice(c, g.points, s / n, label).index
    coarse = Lattice(c, co.points, s / n, label + " coarse").index
    for e in g.edges:
        on = [ce for ce in co.edges if all(between(fine[v], *[coarse[w] for w in ce]) for v in e)]
        name = f"{label}: edge {e}"
        if not on:
            c.raises(Exception, lambda: g.to_coarse_edge_point(e, t), f"{name}: rejected")
            continue
        ce, ct = g.to_coarse_edge_point(e, t)
        c.check(tuple(ce) in {tuple(x) for x in on}, f"{name}: the coarse edge it lies on")
        for m in range(2):
            here = t * g.points[e[0]][m] + (1 - t) * g.points[e[1]][m]
            there = ct * co.points[ce[0]][m] + (1 - ct) * co.points[ce[1]][m]
            c.check_eq(there, here, f"{name}: same point ({'xy'[m]})", scale=s)
        c.check_ge(ct, 0, f"{name}: position at least 0")
        c.check_ge(1, ct, f"{name}: position at most 1")


@harness(bounds="up to 2x2 cells, factors up to 3, also twice; all fine edges, all positions, all scales", cost=4)
def edges(c):
    """Points of fine edges."""
    edge_points(c, CONFIGS)


@harness(tier="thorough", bounds="up to 3x2 cells, factors up to 7", cost=8)
def edges_large(c):
    """Points of fine edges."""
    edge_points(c, LARGE)


@harness(bounds="1x1 and 2x1 cells, factors 2 and 3: all vertex triples that are no fine triangle", cost=3)
def reject(c):
    """What is not in the fine grid is refused."""
    import itertools

    s = c.real("scale", 0, open_lo=True)
    nx, n = c.choice("config", [(1, 2), (2, 2), (1, 3)])
    dom = RectangleDomain(nx * s, s)
    g = dom.refine(dom.grid(s), n)
    here = {t[k:] + t[:k] for t in g.triangles for k in range(3)}
    third = BarycentricCoordinates(1 / 3, 1 / 3)
    nv = len(g.points)
    for t in itertools.permutations(range(nv), 3):
        if t not in here and (nv < 12 or t[0] < 3):
            c.raises(
                Exception,
                lambda: g.to_coarse_barycentric_point(BarycentricPoint(t, third)),
                f"{nx}x1 by {n}: triangle {t} rejected",
            )
    both = {frozenset(e) for e in g.edges}
    for e in itertools.permutations(range(nv), 2):
        if frozenset(e) not in both:
            c.raises(
                Exception,
                lambda: g.to_coarse_edge_point(e, 0.5),
                f"{nx}x1 by {n}: pair {e} rejected",
            )
