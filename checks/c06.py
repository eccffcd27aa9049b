"""C06 Grid equality means the same mesh up to numbering."""

import itertools
import random

from vt.harness import harness
from vt.noise import Noisy, noisy_real, scale_choice
from tvemoves_rufbad.domain import RectangleDomain, Grid, Boundary
from tvemoves_rufbad.tensors import Vector

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "more cells than stated; displacements between 1e-9 and 1e-3 scales; pairs of alterations"


def parts(g):
    def b(x):
        return [list(x.vertices), [tuple(e) for e in x.edges]]

    return {
        "points": [(p[0], p[1]) for p in g.points],
        "edges": [tuple(e) for e in g.edges],
        "triangles": [tuple(t) for t in g.triangles],
        "boundary": b(g.boundary),
        "dirichlet": b(g.dirichlet_boundary),
        "neumann": b(g.neumann_boundary),
    }


def build(d):
    return Grid(
        list(range(len(d["points"]))),
        list(d["edges"]),
        list(d["triangles"]),
        *[Boundary(list(d[k][0]), list(d[k][1])) for k in ("boundary", "dirichlet", "neumann")],
        [Vector(list(p)) for p in d["points"]],
    )


def renumber(d, perm, rng):
    """The same mesh with vertex v called perm[v], everything reordered and reversed at random."""

    def shuffled(xs):
        xs = list(xs)
        rng.shuffle(xs)
        return xs

    def edge(e):
        e = tuple(perm[v] for v in e)
        return e[::-1] if rng.random() < 0.5 else e

    def tri(t):
        k = rng.randrange(3)
        t = tuple(perm[v] for v in t)
        return t[k:] + t[:k]

    pts = [None] * len(perm)
    for v, p in enumerate(d["points"]):
        pts[perm[v]] = p
    out = {
        "points": pts,
        "edges": shuffled(edge(e) for e in d["edges"]),
        "triangles": shuffled(tri(t) for t in d["triangles"]),
    }
    for k in ("boundary", "dirichlet", "neumann"):
        out[k] = [shuffled(perm[v] for v in d[k][0]), shuffled(edge(e) for e in d[k][1])]
    return out


def both(c, a, b, want, label):
    """Equality has the wanted value in both directions, and so has its negation."""
    for x, y, w in ((a, b, ""), (b, a, " (swapped)")):
        r = x == y
        c.check(r if want else c.not_(r), f"{label}: {'equal' if want else 'different'}{w}")
        c.check(c.not_(x != y) if want else (x != y), f"{label}: != agrees{w}")


CELLS = [(1, 1, ["lower"]), (2, 1, ["left", "upper"]), (1, 2, None)]


@harness(bounds="1x1 to 2x2 cells, also refined; all 24 renumberings of a 1x1 grid, 12 drawn ones of the others; all scales", cost=3)
def renumbered(c):
    """Renumbering, reordering, reversing edges and rotating triangles keeps grids equal."""
    s = c.real("scale", 0, open_lo=True)
    nx, ny, fix, ref = c.choice(
        "grid", [(1, 1, ["lower"], 1), (2, 1, ["left", "upper"], 1), (2, 2, "right", 1), (1, 1, None, 2)]
    )
    dom = RectangleDomain(nx * s, ny * s, fix)
    g = dom.grid(s) if ref == 1 else dom.refine(dom.grid(s), ref)
    d = parts(g)
    n = len(d["points"])
    rng = random.Random(3)
    if n == 4:
        perms = list(itertools.permutations(range(4)))
    else:
        perms = [tuple(range(n)), tuple(range(n - 1, -1, -1))]
        perms += [tuple(rng.sample(range(n), n)) for _ in range(10)]
    both(c, g, g, True, f"{nx}x{ny} itself")
    for perm in perms:
        both(c, g, build(renumber(d, perm, rng)), True, f"{nx}x{ny} renumbered {perm}")


def swaps(d):
    """Single alterations of a mesh: (what, altered parts)."""
    n = len(d["points"])

    def put(key, val, sub=None):
        e = {k: (list(v) if k in ("points", "edges", "triangles") else [list(v[0]), list(v[1])]) for k, v in d.items()}
        if sub is None:
            e[key] = val
        else:
            e[key][sub] = val
        return e

    for key, sub in (("edges", None), ("triangles", None), ("boundary", 1), ("dirichlet", 1), ("neumann", 1)):
        xs = d[key] if sub is None else d[key][sub]
        for k, x in enumerate(xs):
            yield f"{key} without {x}", put(key, xs[:k] + xs[k + 1 :], sub)
            yield f"{key} with {x} twice", put(key, xs + [x], sub)
            y = xs[(k + 1) % len(xs)]
            if y != x:
                yield f"{key} with {y} for {x}", put(key, xs[:k] + [y] + xs[k + 1 :], sub)
            if key == "triangles":
                yield f"{key} with {x} turned over", put(key, xs[:k] + [x[::-1]] + xs[k + 1 :])
                z = next(v for v in range(n) if v not in x)
                yield f"{key} with a changed corner of {x}", put(key, xs[:k] + [x[:2] + (z,)] + xs[k + 1 :])
            else:
                new = [v for v in range(n) if v not in x and (x[0], v) not in xs and (v, x[0]) not in xs]
                for z in new[:1]:
                    yield f"{key} with a changed end of {x}", put(key, xs[:k] + [(x[0], z)] + xs[k + 1 :], sub)
    for key in ("boundary", "dirichlet", "neumann"):
        xs = d[key][0]
        for k, x in enumerate(xs):
            yield f"{key} without vertex {x}", put(key, xs[:k] + xs[k + 1 :], 0)
            for z in range(n):
                if z not in xs:
                    yield f"{key} with vertex {z} for {x}", put(key, xs[:k] + [z] + xs[k + 1 :], 0)
        for z in range(n):
            if z not in xs:
                yield f"{key} with vertex {z}", put(key, xs + [z], 0)


@harness(bounds="1x1, 2x1 and 1x2 cells: every single removal, duplication, replacement, reversal of an entry, also renumbered; all scales", cost=4)
def altered(c):
    """Alterations of one entry make grids different."""
    s = c.real("scale", 0, open_lo=True)
    nx, ny, fix = c.choice("grid", CELLS)
    dom = RectangleDomain(nx * s, ny * s, fix)
    g = dom.grid(s)
    d = parts(g)
    n = len(d["points"])
    rng = random.Random(5)
    ident = tuple(range(n))
    for what, e in swaps(d):
        for perm in (ident, tuple(rng.sample(range(n), n))):
            f = e if perm is ident else renumber(e, perm, rng)
            both(c, g, build(f), False, f"{nx}x{ny} {what}, numbered {perm}")
    for what, e in points(d, s):
        both(c, g, build(e), False, f"{nx}x{ny} {what}")
    others = [RectangleDomain(nx * s, ny * s, f).grid(s) for f in (None, "lower", ["right", "left"])]
    for o, f in zip(others, (None, "lower", ["right", "left"])):
        same = set([f] if isinstance(f, str) else f or []) == set(fix or [])
        both(c, g, o, same, f"{nx}x{ny} fixed at {f} instead of {fix}")
    both(c, g, RectangleDomain((nx + 1) * s, ny * s, fix).grid(s), False, f"{nx}x{ny} one more cell")
    both(c, g, RectangleDomain(nx * s, ny * s, fix).grid(s / 2), False, f"{nx}x{ny} half the scale")
    both(c, g, RectangleDomain(2 * nx * s, 2 * ny * s, fix).grid(2 * s), False, f"{nx}x{ny} twice as large")


def points(d, s):
    n = len(d["points"])
    for k in range(n):
        e = dict(d)
        e["points"] = list(d["points"])
        e["points"][k] = d["points"][(k + 1) % n]
        yield f"point {k} where the next one is", e
        e = dict(d)
        e["points"] = list(d["points"])
        e["points"][k] = (d["points"][k][0] + s / 1000, d["points"][k][1])
        yield f"point {k} moved to the right", e
        e = dict(d)
        e["points"] = list(d["points"])
        e["points"][k] = (d["points"][k][0], d["points"][k][1] - s / 1000)
        yield f"point {k} moved down", e
    e = dict(d)
    e["points"] = d["points"] + [(2 * s, 3 * s)]
    yield "one more point", e


@harness(bounds="one cell of scale 1; one vertex displaced by any vector up to 1e-9, or by any vector of 1e-3 to 0.2", cost=4)
def displaced(c):
    """Rounding-size displacements are ignored, visible ones are not."""
    Noisy.always_ask = True
    d = parts(RectangleDomain(1.0, 1.0, "lower").grid(1.0))
    k = c.choice("vertex", [0, 1, 2, 3])
    t, v = 1e-9, 0.2
    box = {
        "rounding": ((-t, t), (-t, t)),
        "visibly right": ((1e-3, v), (-v, v)),
        "visibly left": ((-v, -1e-3), (-v, v)),
        "visibly up": ((-v, v), (1e-3, v)),
        "visibly down": ((-v, v), (-v, -1e-3)),
    }
    size = c.choice("size", list(box))
    dx, dy = (noisy_real(c, f"d{m}", *box[size][m]) for m in range(2))
    one = scale_choice(c, "one", [(1, 1)])
    e = dict(d)
    e["points"] = [(x * one, y * one) for x, y in d["points"]]
    e["points"][k] = (d["points"][k][0] + dx, d["points"][k][1] + dy)
    both(c, build(d), build(e), size == "rounding", f"vertex {k} displaced ({size})")


@harness(bounds="values of six other types; all scales")
def other_types(c):
    """A grid is not equal to something that is no grid."""
    s = c.real("scale", 0, open_lo=True)
    dom = RectangleDomain(s, s)
    g = dom.grid(s)
    for x in (None, 0, "grid", (1, 2), [], dom, g.boundary):
        c.check((g == x) is False, f"different from {type(x).__name__}")
        c.check((g != x) is True, f"!= {type(x).__name__}")
        c.check((x == g) is False, f"{type(x).__name__} different from grid")
