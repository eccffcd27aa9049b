"""C02 Fixed and free boundary split the boundary as requested."""

from itertools import combinations

from vt.harness import harness
from vt.mesh import Lattice, valid, canon, reference, SIDES
from tvemoves_rufbad.domain import RectangleDomain

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "more cells than stated; names other than the four sides"

SPELLINGS = [("none", None, ())] + [(s, s, (s,)) for s in SIDES]
for k in range(5):
    for sub in combinations(SIDES, k):
        SPELLINGS.append((f"list {sub}", list(sub), sub))
        if k > 1:
            SPELLINGS.append((f"reversed {sub}", list(sub)[::-1], sub))
        if k:
            SPELLINGS.append((f"repeated {sub}", list(sub) + list(sub)[:1] + list(sub)[::-1], sub))


def run(c, sizes):
    s = c.real("scale", 0, open_lo=True)
    nx, ny = c.choice("size", sizes)
    name, fix, sides = c.choice("fix", SPELLINGS)
    g = RectangleDomain(nx * s, ny * s, fix).grid(s)
    if not valid(c, g, name):
        return
    lat = Lattice(c, g.points, s, name)
    ref, got = reference(nx, ny, sides), canon(g, lat)
    for part in ("boundary", "dirichlet", "neumann"):
        c.check(got[part][1] == ref[part][1], f"{name}: {part} edges")
        c.check(got[part][0] == ref[part][0], f"{name}: {part} vertices")
    und = {frozenset(e) for e in g.edges}
    for b in (g.boundary, g.dirichlet_boundary, g.neumann_boundary):
        c.check(all(tuple(e) in g.edges for e in b.edges), f"{name}: oriented as in the grid")
        c.check(all(frozenset(e) in und for e in b.edges), f"{name}: edges of the grid")
    free = RectangleDomain(nx * s, ny * s).grid(s)
    c.check(
        sorted(g.vertices) == sorted(free.vertices)
        and sorted(g.edges) == sorted(free.edges)
        and sorted(g.triangles) == sorted(free.triangles),
        f"{name}: same triangulation as without fixed sides",
    )
    for p, q in zip(g.points, free.points):
        c.check_eq(p[0], q[0], f"{name}: same points", scale=0)
        c.check_eq(p[1], q[1], f"{name}: same points", scale=0)


@harness(bounds="all 16 subsets in several spellings; 1x1, 1x2, 3x1, 2x2, 3x2 cells; all scales", cost=3)
def split(c):
    """Dirichlet and Neumann part for every choice of fixed sides."""
    run(c, [(1, 1), (1, 2), (3, 1), (2, 2), (3, 2)])


@harness(tier="thorough", bounds="the same with up to 5x5 cells", cost=9)
def split_large(c):
    """Dirichlet and Neumann part for every choice of fixed sides."""
    run(c, [(1, 4), (4, 1), (3, 3), (4, 3), (5, 5)])
