"""Reference descriptions of meshes, independent of the repository's own comparisons."""

from __future__ import annotations


class Lattice:
    """Identifies the points of a mesh with the integer points (i, j) times `unit`.

    The indices are guessed from one witness and then asserted for all inputs of the path.
    """

    def __init__(self, c, points, unit, label, tol=1e-7):
        self.c, self.ok = c, True
        self.index = []
        for k, p in enumerate(points):
            i, j = round(c.guess(p[0] / unit)), round(c.guess(p[1] / unit))
            c.check_eq(p[0], i * unit, f"{label}: point {k} on the lattice (x)", scale=unit, tol=tol)
            c.check_eq(p[1], j * unit, f"{label}: point {k} on the lattice (y)", scale=unit, tol=tol)
            self.index.append((i, j))

    def tri(self, t):
        a = [self.index[v] for v in t]
        k = a.index(min(a))
        return tuple(a[k:] + a[:k])

    def edge(self, e):
        return frozenset(self.index[v] for v in e)


def valid(c, grid, label):
    """Vertices 0..n-1, all references valid; returns False if the mesh is malformed."""
    n = len(grid.points)
    ok = sorted(grid.vertices) == list(range(n))
    for seq in (
        grid.edges,
        grid.triangles,
        grid.boundary.edges,
        grid.dirichlet_boundary.edges,
        grid.neumann_boundary.edges,
    ):
        ok = ok and all(0 <= v < n and isinstance(v, int) for t in seq for v in t)
    for b in (grid.boundary, grid.dirichlet_boundary, grid.neumann_boundary):
        ok = ok and all(isinstance(v, int) and 0 <= v < n for v in b.vertices)
    c.check(ok, f"{label}: vertices are numbered 0..n-1, references are valid")
    return ok


def canon(grid, lat):
    """Everything about the mesh up to numbering (as multisets)."""

    def bd(b):
        return (
            sorted(lat.index[v] for v in b.vertices),
            sorted(sorted(lat.edge(e)) for e in b.edges),
        )

    return {
        "points": sorted(lat.index),
        "edges": sorted(sorted(lat.edge(e)) for e in grid.edges),
        "triangles": sorted(lat.tri(t) for t in grid.triangles),
        "boundary": bd(grid.boundary),
        "dirichlet": bd(grid.dirichlet_boundary),
        "neumann": bd(grid.neumann_boundary),
    }


SIDES = ("lower", "right", "upper", "left")


def on_side(ij, side, nx, ny):
    i, j = ij
    return {"lower": j == 0, "upper": j == ny, "left": i == 0, "right": i == nx}[side]


def reference(nx, ny, fixed=()):
    """The mesh that a rectangle of nx by ny cells must get, from the description alone."""
    pts = [(i, j) for i in range(nx + 1) for j in range(ny + 1)]
    hor = [((i, j), (i + 1, j)) for i in range(nx) for j in range(ny + 1)]
    ver = [((i, j), (i, j + 1)) for i in range(nx + 1) for j in range(ny)]
    bd = [
        e for e in hor + ver if any(all(on_side(p, s, nx, ny) for p in e) for s in SIDES)
    ]
    fix = [e for e in bd if any(all(on_side(p, s, nx, ny) for p in e) for s in fixed)]
    free = [e for e in bd if e not in fix]

    def ends(es):
        return sorted({p for e in es for p in e})

    return {
        "points": sorted(pts),
        "boundary": (ends(bd), sorted(sorted(e) for e in bd)),
        "dirichlet": (ends(fix), sorted(sorted(e) for e in fix)),
        "neumann": (ends(free), sorted(sorted(e) for e in free)),
    }


def check_mesh(c, grid, lat, nx, ny, label):
    """A conforming triangulation of the nx by ny box by right triangles with legs one unit."""
    I = lat.index
    c.check(len(set(I)) == len(I), f"{label}: no point repeated")
    c.check(
        all(0 <= i <= nx and 0 <= j <= ny for i, j in I) and len(I) == (nx + 1) * (ny + 1),
        f"{label}: all lattice points of the box",
    )
    und = [frozenset(e) for e in grid.edges]
    c.check(len(set(und)) == len(und), f"{label}: no edge listed twice")
    c.check(all(len(e) == 2 for e in und), f"{label}: edges join different vertices")
    count = {e: 0 for e in und}
    sides_ok, shape_ok = True, True
    cells = {}
    for t in grid.triangles:
        for a, b in ((0, 1), (1, 2), (2, 0)):
            e = frozenset((t[a], t[b]))
            if e in count:
                count[e] += 1
            else:
                sides_ok = False
        p = [I[v] for v in t]
        det = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])
        lo = (min(q[0] for q in p), min(q[1] for q in p))
        hi = (max(q[0] for q in p), max(q[1] for q in p))
        # lattice triangle inside one cell with positive orientation: legs of one unit
        if det != 1 or hi != (lo[0] + 1, lo[1] + 1):
            shape_ok = False
        cells.setdefault(lo, []).append(set(p))
    c.check(sides_ok, f"{label}: every triangle side is an edge")
    c.check(shape_ok, f"{label}: positively oriented right triangles with legs of one scale")
    c.check(all(k in (1, 2) for k in count.values()), f"{label}: every edge has one or two triangles")
    fill = set(cells) == {(i, j) for i in range(nx) for j in range(ny)}
    for lo, ts in cells.items():
        if len(ts) != 2:
            fill = False
            continue
        only = [q - (ts[0] & ts[1]) for q in ts]
        # the two corners that are not shared are opposite, so the two halves do not overlap
        if len(ts[0] & ts[1]) != 2 or len(only[0]) != 1 or len(only[1]) != 1:
            fill = False
            continue
        (a,), (b,) = only
        if abs(a[0] - b[0]) != 1 or abs(a[1] - b[1]) != 1:
            fill = False
    c.check(fill, f"{label}: every cell is covered by exactly two triangles")
    single = sorted(sorted(e) for e, k in count.items() if k == 1)
    got = sorted(sorted(e) for e in grid.boundary.edges)
    c.check(got == single, f"{label}: boundary edges are the edges of one triangle")
    c.check(
        sorted(grid.boundary.vertices) == sorted({v for e in single for v in e}),
        f"{label}: boundary vertices are their endpoints, once each",
    )
