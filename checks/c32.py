"""C32 Looking up points, triangles and edges of a mesh, and adding edges."""

from itertools import permutations

from vt.harness import harness
from tvemoves_rufbad.domain import RectangleDomain, Grid, Boundary
from tvemoves_rufbad.tensors import Vector

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "more cells than stated; points between 1e-9 and 1e-6 scales from a grid point are not judged"

NEAR, FAR = 1e-9, 1e-6
SCALES = {"1": 1.0, "1/3": 1 / 3, "1e-6": 1e-6, "1e6": 1e6}


def mesh(c, grids, scales):
    nx, ny, ns = c.choice("grid", grids)
    s = c.const(SCALES[c.choice("scale", scales)])
    dom = RectangleDomain(nx * s, ny * s)
    g = dom.grid(s)
    for n in ns:
        g = dom.refine(g, n)
        s = s / n
    return g, s


def lookup(c, g, s, x, y, label):
    """The vertex reported for a point is one close by, and there is one if a vertex is very close."""
    v = g.point_to_vertex(Vector([x, y]))
    if v is None:
        for k, p in enumerate(g.points):
            dx, dy = (x - p[0]) / s, (y - p[1]) / s
            near = c.all_of([dx <= NEAR, dx >= -NEAR, dy <= NEAR, dy >= -NEAR])
            c.check(c.not_(near), f"{label}: point {k} is found")
        return
    c.check(isinstance(v, int) and v in g.vertices, f"{label}: a vertex")
    p = g.points[v]
    for d in ((x - p[0]) / s, (y - p[1]) / s):
        c.check(c.all_of([d <= FAR, d >= -FAR]), f"{label}: the vertex at this point")


GRIDS = [(1, 1, ()), (2, 1, ()), (1, 2, ()), (1, 1, (2,)), (2, 2, ())]


@harness(bounds="1x1 to 2x2 cells and 1x1 refined by 2; scales 1, 1/3, 1e-6, 1e6; all points of the plane", cost=4)
def anywhere(c):
    """The vertex of any point of the plane."""
    g, s = mesh(c, GRIDS, ["1", "1e-6"] if not c.thorough else list(SCALES))
    u, v = c.real("u", -3, 5), c.real("v", -3, 5)
    lookup(c, g, s, u * s, v * s, "any point")


@harness(bounds="grids as above; all displacements by up to 1e-9 scales in each direction", cost=2)
def vertices(c):
    """Every vertex is found again, also after rounding of the point."""
    g, s = mesh(c, GRIDS, list(SCALES))
    d = [c.real(n, -NEAR, NEAR) for n in ("dx", "dy")]
    for k, p in enumerate(g.points):
        q = Vector([p[m] + d[m] * s for m in range(2)])
        c.check(g.point_to_vertex(q) == k, f"vertex {k}")


@harness(bounds="one cell; every scale, all displacements by up to 1e-9 scales", cost=2)
def any_scale(c):
    """Every vertex is found again at every scale."""
    s = c.real("scale", 0, open_lo=True)
    g = RectangleDomain(s, s).grid(s)
    d = [c.real(n, -NEAR, NEAR) for n in ("dx", "dy")]
    for k, p in enumerate(g.points):
        q = Vector([p[m] + d[m] * s for m in range(2)])
        c.check(g.point_to_vertex(q) == k, f"vertex {k}")
    half = Vector([s / 2, s / 2])
    c.check(g.point_to_vertex(half) is None, "no vertex in the middle")


@harness(bounds="1x1 to 2x2 cells and 1x1 refined by 2; every scale", cost=2)
def corners(c):
    """Corners of triangles and ends of edges, and the refusal of unknown ones."""
    nx, ny, ns = c.choice("grid", GRIDS)
    s = c.real("scale", 0, open_lo=True) if not ns else c.const(1.5)
    dom = RectangleDomain(nx * s, ny * s)
    g = dom.grid(s)
    for n in ns:
        g = dom.refine(g, n)
    pts = [(p[0], p[1]) for p in g.points]
    for name, items, get in (
        ("triangle", g.triangles, g.triangle_vertices),
        ("edge", g.edges, g.edge_vertices),
    ):
        for t in list(items):
            got = get(t)
            c.check(len(got) == len(t), f"{name}: number of points")
            for k, v in enumerate(t):
                for m in range(2):
                    c.check_eq(got[k][m], pts[v][m], f"{name}: point {k}", scale=s)
            for other in permutations(t):
                if other in items:
                    continue
                try:
                    got = get(other)
                except ValueError:
                    continue  # may be refused, but not answered in another order
                for k, v in enumerate(other):
                    for m in range(2):
                        c.check_eq(got[k][m], pts[v][m], f"{name}, other order: point {k}", scale=s)
    n = len(pts)
    tris, edges = {frozenset(t) for t in g.triangles}, {frozenset(e) for e in g.edges}
    for a in range(n):
        for b in range(n):
            if a != b and frozenset((a, b)) not in edges:
                c.raises(ValueError, lambda: g.edge_vertices((a, b)), "unknown edge")
            for d in range(n):
                if len({a, b, d}) == 3 and frozenset((a, b, d)) not in tris:
                    c.raises(ValueError, lambda: g.triangle_vertices((a, b, d)), "unknown triangle")


POINTS = [(0.0, 0.0), (3.0, 0.0), (3.0, 4.0), (0.0, 4.0)]


@harness(bounds="four points of every size; all sequences of three additions among five directed pairs, with and without edges to begin with", cost=4)
def additions(c):
    """Edges are added once, whatever their direction, and lookups keep working."""
    s = c.real("size", 0, open_lo=True)
    begin = c.choice("begin", [[], [(1, 0)], [(0, 1), (2, 3)]])
    pts = [Vector([a * s, b * s]) for a, b in POINTS]
    none = Boundary([], [])
    g = Grid([0, 1, 2, 3], list(begin), [], none, none, none, pts)
    pairs = [(0, 1), (1, 0), (2, 0), (0, 2), (3, 2)]
    want = [tuple(e) for e in begin]
    for k in range(3):
        e = c.choice(f"edge{k}", pairs)
        g.append_edge(e)
        if frozenset(e) not in {frozenset(x) for x in want}:
            want.append(e)
        c.check(
            sorted(tuple(sorted(x)) for x in g.edges) == sorted(tuple(sorted(x)) for x in want),
            "every edge once",
        )
    d = [c.real(n, -NEAR, NEAR) for n in ("dx", "dy")]
    for k, p in enumerate(pts):
        q = Vector([p[m] + d[m] * s for m in range(2)])
        c.check(g.point_to_vertex(q) == k, f"point {k} is found")
        q = Vector([p[0] + s / 1000, p[1]])
        c.check(g.point_to_vertex(q) is None, f"points next to point {k} are no vertices")


@harness(bounds="a row of 12 points with 66 edges added one by one, in both orders; every size", cost=2)
def many_additions(c):
    """After many additions points are still told apart."""
    s = c.real("size", 0, open_lo=True)
    n = 12
    pts = [Vector([k * s, 0 * s]) for k in range(n)]
    none = Boundary([], [])
    pairs = [(i, j) for i in range(n) for j in range(i)]
    if c.choice("order", ["forward", "backward"]) == "backward":
        pairs.reverse()
    g = Grid(list(range(n)), [], [], none, none, none, pts)
    for k, e in enumerate(pairs):
        g.append_edge(e)
        g.append_edge((e[1], e[0]))
        c.check(len(g.edges) == k + 1, "every edge once")
    mean = sum(i - j for i, j in pairs) / len(pairs)
    for v in (0, 5, n - 1):
        for d in (NEAR, -NEAR):
            c.check(g.point_to_vertex(Vector([(v + d * mean) * s, d * mean * s])) == v, f"point {v} is found")
        for a, b in ((1, 0), (0, 1), (-1, 0)):
            q = Vector([(v + a * FAR * mean) * s, b * FAR * mean * s])
            c.check(g.point_to_vertex(q) is None, f"points next to point {v} are no vertices")
