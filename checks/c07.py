"""C07 Domain curves are evenly spaced lines of the rectangle."""

from vt.harness import harness
from tvemoves_rufbad.domain import RectangleDomain

ASSUMPTIONS = ["floating point idealised as real arithmetic"]
OUTSIDE = "more curves and points than stated; fewer than two points per curve"


def straight(c, curve, n, start, end, label, size):
    """The curve has n points, evenly spaced from start to end."""
    c.check(len(curve) == n, f"{label}: {n} points")
    if len(curve) != n:
        return False
    ok = True
    for k, p in enumerate(curve):
        c.check(len(p) == 2, f"{label}: plane points")
        for m in range(2):
            want = start[m] + (end[m] - start[m]) * k / (n - 1)
            c.check_eq(p[m], want, f"{label}: point {k} ({'xy'[m]})", scale=size)
    return ok


def check(c, w, h, n, nh, nv, label, *args):
    dom = RectangleDomain(w, h)
    cs = dom.curves(n, *args)
    c.check(len(cs) == nh + nv + 4, f"{label}: number of curves")
    if len(cs) != nh + nv + 4:
        return
    # which curve is which: by a witness, then asserted for every rectangle
    hor, ver = [], []
    for k, cu in enumerate(cs):
        c.check(len(cu) == n, f"{label}: curve {k} has {n} points")
        if len(cu) != n:
            return
        flat = abs(c.guess(cu[0][1] / h) - c.guess(cu[-1][1] / h)) < 1e-6
        (hor if flat else ver).append(cu)
    c.check(len(hor) == nh + 2 and len(ver) == nv + 2, f"{label}: horizontal and vertical curves")
    if len(hor) != nh + 2 or len(ver) != nv + 2:
        return
    for cus, m, side, other, cnt in ((hor, 1, h, w, nh), (ver, 0, w, h, nv)):
        at = []
        for cu in cus:
            j = round(c.guess(cu[0][m] / side) * (cnt + 1))
            at.append(j)
            if c.guess(cu[0][1 - m] / other) > 0.5:
                cu = cu[::-1]
            pos = side * j / (cnt + 1)
            a = [0, pos] if m else [pos, 0]
            b = [other, pos] if m else [pos, other]
            straight(c, cu, n, a, b, f"{label}: {'horizontal' if m else 'vertical'} {j}", other)
        c.check(
            sorted(at) == list(range(cnt + 2)),
            f"{label}: one {'horizontal' if m else 'vertical'} curve at each level, both sides included",
        )


@harness(bounds="2 to 5 points, 0 to 3 horizontal and 0 to 3 or unstated vertical curves; all rectangles", cost=3)
def lines(c):
    """Curves of every rectangle."""
    w, h = c.real("width", 0, open_lo=True), c.real("height", 0, open_lo=True)
    n = c.choice("points", [2, 3, 5])
    for nh in range(4):
        for nv in (None, 0, 1, 3):
            tot = nh if nv is None else nv
            check(c, w, h, n, nh, tot, f"{n} points, {nh} and {nv}", nh, nv)
        check(c, w, h, n, nh, nh, f"{n} points, {nh}", nh)
    check(c, w, h, n, 0, 0, f"{n} points")


@harness(tier="thorough", bounds="up to 12 points and 9 curves; all rectangles", cost=5)
def lines_large(c):
    """Curves of every rectangle."""
    w, h = c.real("width", 0, open_lo=True), c.real("height", 0, open_lo=True)
    n = c.choice("points", [2, 4, 7, 12])
    for nh in (0, 4, 9):
        for nv in (0, 5, 8):
            check(c, w, h, n, nh, nv, f"{n} points, {nh} and {nv}", nh, nv)
