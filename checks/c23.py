"""C23 Mechanical search windows, start values and clamping."""

import numpy as np

from vt.harness import harness
from vt.pyowalk import solve_captured, solver
from vt.steps import *  # noqa: F401,F403
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams

ASSUMPTIONS = ["floating point idealised as real arithmetic", "the optimiser respects bounds and fixed variables"]
OUTSIDE = "grids with more than four cells; optimisers that ignore the bounds of the model"


def no_load(t, x, y):
    return [0.0, 0.0]


def build(c, shape, fixed, regularized, factor=1):
    dom, grid = make_grid(shape, fixed)
    r = c.real("r", 0, 3, open_lo=True)
    th = c.real("theta0", 0, 3)
    fine = dom.refine(grid, factor) if regularized else None
    params = MechanicalStepParams(th, r, 2.0, 0.125 if regularized else None)
    step = mechanical_step(solver(), grid, params, fine, no_load)
    n = len(grid.points)
    pts = points2(grid)
    if regularized:
        ref = np.array(
            [[[x, 1, 0, 0, 0, 0], [y, 0, 1, 0, 0, 0]] for x, y in pts], dtype=object
        )
        clamped = [(v, k, 0) for v in on_sides(grid, shape, fixed) for k in range(2)]
        nt = len(fine.points)
    else:
        ref = np.array([[x, y] for x, y in pts], dtype=object)
        clamped = [(v, k) for v in on_sides(grid, shape, fixed) for k in range(2)]
        nt = n
    return step, ref, set(clamped), r, np.array([th] * nt, dtype=object)


def on_sides(grid, shape, fixed):
    """Vertices on the fixed sides, by position."""
    w, h, s = shape
    test = {
        "left": lambda x, y: x == 0,
        "right": lambda x, y: x == w,
        "lower": lambda x, y: y == 0,
        "upper": lambda x, y: y == h,
    }
    names = fixed or []
    return [v for v, (x, y) in enumerate(points2(grid)) if any(test[f](x, y) for f in names)]


def same_array(c, a, b, label):
    c.check(np.shape(a) == np.shape(b), f"{label}: shape")
    if np.shape(a) == np.shape(b):
        c.check(c.all_of([a[k] == b[k] if c.symbolic else close(a[k], b[k]) for k in np.ndindex(*np.shape(b))]), label)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def solve_and_check(c, step, prev, clamped, r, tag, start=True):
    """One solve with an arbitrary answer; returns the answer."""
    ans = {}

    def answer(cap):
        c.check(all(v is not None for v in cap.unknowns.flat), f"{tag}: every position is an unknown of the model")
        c.check(cap.count == cap.unknowns.size, f"{tag}: no other unknowns")
        if start:
            same_array(c, cap.start, prev, f"{tag}: start value is the previous state")
        out = np.empty(prev.shape, dtype=object)
        ok = []
        for k in np.ndindex(*prev.shape):
            v = c.real(f"{tag}_" + "_".join(map(str, k)), -20, 20)
            out[k] = v
            if cap.fixed[k]:
                continue
            # the solver's contract
            if cap.lower[k] is not None:
                ok.append(v >= cap.lower[k])
            if cap.upper[k] is not None:
                ok.append(v <= cap.upper[k])
        c.assume(c.all_of(ok))
        ans["y"] = out
        ans["fixed"] = cap.fixed
        return out

    got = solve_captured(step, step.y, answer)
    c.check(len(got) == 1, f"{tag}: one solve")
    y = np.array(step.y(), dtype=object)
    c.check(y.shape == prev.shape, f"{tag}: shape of y")
    same_array(c, step.prev_y(), prev, f"{tag}: the previous state is kept")
    # floats leave the windows by rounding only
    slack = 0 if c.symbolic else 1e-9
    inside, kept, mine = [], [], []
    for k in np.ndindex(*prev.shape):
        d = y[k] - prev[k]
        inside += [d <= r + slack, d >= -r - slack]
        if k in clamped:
            kept.append(d == 0 if c.symbolic else abs(d) <= 1e-9)
        else:
            mine.append(y[k] == ans["y"][k])
    c.check(c.all_of(inside), f"{tag}: inside the search window")
    c.check(c.all_of(kept), f"{tag}: clamped vertices keep their place")
    c.check(c.all_of(mine), f"{tag}: y() is what the solver returned elsewhere")
    return y


def updates(c, step, ref, clamped, r, th, reg):
    """The first solve, an arbitrary sequence of updates, and another solve."""
    same_array(c, step.prev_y(), ref, "initial state is the reference configuration")
    same_array(c, step.prev_theta(), th, "initial temperature")
    solve_and_check(c, step, ref, clamped, r, "first")
    prev, cur = ref, th
    for k in range(2 if c.thorough or not reg else 1):
        u = c.choice(f"update{k}", ["y", "theta", "time", "solve", "none"])
        if u == "y":
            prev = array(c, f"p{k}_", ref.shape, -8, 8)
            step.update_prev_y(prev)
        elif u == "theta":
            cur = array(c, f"th{k}_", th.shape, 0, 5)
            step.update_prev_theta(cur)
        elif u == "time":
            step.update_boundary_traction(1.5)
        elif u == "solve" and k == 0:
            solve_and_check(c, step, prev, clamped, r, f"mid{k}", start=False)
        same_array(c, step.prev_y(), prev, "prev_y() is what was set")
        same_array(c, step.prev_theta(), cur, "prev_theta() is what was set")
    prev = array(c, "q", ref.shape, -8, 8)
    step.update_prev_y(prev)
    same_array(c, step.y(), prev, "an update also sets the start value")
    solve_and_check(c, step, prev, clamped, r, "last")
    same_array(c, step.prev_theta(), cur, "the temperature is kept")


@harness(bounds="one cell, two sides fixed; all states, radii, solver answers; sequences of two updates between solves", cost=6)
def plain(c):
    """The step without regularization."""
    updates(c, *build(c, CELL, ["lower", "right"], False), False)


@harness(bounds="one cell refined by 1, two sides fixed; as plain, with one update (thorough: two)", cost=8)
def regularized(c):
    """The step with regularization."""
    updates(c, *build(c, CELL, ["lower", "right"], True), True)


@harness(bounds="plain: grids of one to two cells; regularized: two cells refined by 1, one by 2; four choices of fixed sides", cost=8)
def grids(c):
    """Other grids and fixed sides: the first two solves."""
    # (refinement factor or 0 for the plain step, grid)
    kinds = [(0, s) for s in SHAPES] + [(1, SHAPES[1]), (2, CELL)]
    if c.thorough:
        kinds += [(0, (1.0, 1.0, 0.5)), (1, SHAPES[2]), (2, SHAPES[1]), (3, CELL), (1, (1.0, 1.0, 0.5))]
    reg, shape = c.choice("kind", kinds)
    step, ref, clamped, r, th = build(c, shape, c.choice("fixed", FIXED), reg > 0, max(reg, 1))
    y = solve_and_check(c, step, ref, clamped, r, "first")
    step.update_prev_y(y)
    cur = array(c, "th", th.shape, 0, 5)
    step.update_prev_theta(cur)
    step.update_boundary_traction(0.5)
    solve_and_check(c, step, y, clamped, r, "second")
    same_array(c, step.prev_theta(), cur, "temperature")


@harness(bounds="one cell, plain and regularized: all wrong shapes of up to three dimensions and sizes up to twice the right ones", cost=4)
def shapes(c):
    """Updates of the wrong shape are refused and change nothing."""
    reg = c.choice("regularized", [False, True])
    step, ref, clamped, r, th = build(c, CELL, ["left"], reg, 2)
    n = ref.shape[0]
    prev, cur = array(c, "p", ref.shape, -8, 8), array(c, "th", th.shape, 0, 5)
    step.update_prev_y(prev)
    step.update_prev_theta(cur)
    wrong_y = [(n,), (n, 3), (n + 1,) + ref.shape[1:], (n - 1,) + ref.shape[1:], (2, n), (n, 1)]
    wrong_y += [(n, 2, 5), (n, 1, 6), (n, 6, 2), (n, 3, 6), (n, 2, 6, 1), (2 * n, 2), (2 * n, 2, 6), ref.shape + (1,), (0,)]
    wrong_y += [(n, 2)] if reg else [(n, 2, 6)]
    m = len(th)
    wrong_t = [(m + 1,), (m - 1,), (m, 1), (1, m), (2 * m,), (0,)] + ([(n,)] if m != n else [])
    for s in wrong_y:
        c.raises(ValueError, lambda: step.update_prev_y(np.zeros(s)), f"prev_y of shape {s} is refused")
    for s in wrong_t:
        c.raises(ValueError, lambda: step.update_prev_theta(np.zeros(s)), f"prev_theta of shape {s} is refused")
    same_array(c, step.prev_y(), prev, "prev_y() unchanged")
    same_array(c, step.y(), prev, "y() unchanged")
    same_array(c, step.prev_theta(), cur, "prev_theta() unchanged")
    solve_and_check(c, step, prev, clamped, r, "solve")
