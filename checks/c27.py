"""C27 Temperatures stay non-negative and inside the search window."""

import numpy as np

from vt.harness import harness
from vt.pyowalk import solve_captured, solver
from vt.steps import *  # noqa: F401,F403
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "the optimiser respects bounds and domains of the variables",
    "previous temperatures are non-negative",
]
OUTSIDE = "grids with more than four cells; optimisers that ignore the bounds of the model"


class State:
    """A step and what it should hold."""

    def __init__(self, c, shape, regularized, factor=1, fixed=("left",)):
        self.c = c
        dom, self.grid = make_grid(shape, list(fixed))
        self.fine = dom.refine(self.grid, factor) if regularized else None
        n = len(self.grid.points)
        self.ys = (n, 2, 6) if regularized else (n, 2)
        self.ts = (len(self.fine.points),) if regularized else (n,)
        self.r = c.real("r", 0, 3, open_lo=True)
        self.prev_y, self.y = array(c, "p", self.ys, -8, 8), array(c, "y", self.ys, -8, 8)
        self.theta = array(c, "t", self.ts, 0, 5)
        self.regularized = regularized
        self.step = self.make(self.prev_y, self.y, self.theta)
        self.fresh = True  # the start value is the previous temperature
        self.count = 0

    def make(self, prev_y, y, theta):
        reg = 0.125 if self.regularized else None
        # the objective plays no role here, so that it need not be defined at this state
        with self.c.defined(), self.c.reciprocals():
            return thermal_step(
                solver(),
                self.grid,
                prev_y,
                y,
                theta,
                ThermalStepParams(self.r, 2.0, reg),
                lambda t: 1.0 + t,
                self.fine,
            )

    def update(self, what):
        self.count += 1
        c, k = self.c, self.count
        if what == "prev_y":
            self.prev_y = array(c, f"p{k}_", self.ys, -8, 8)
            self.step.update_prev_y(self.prev_y)
        elif what == "y":
            self.y = array(c, f"y{k}_", self.ys, -8, 8)
            self.step.update_y(self.y)
        elif what == "theta":
            self.theta = array(c, f"t{k}_", self.ts, 0, 5)
            self.step.update_prev_theta(self.theta)
            self.fresh = True
            same_array(c, self.step.theta(), self.theta, "an update also sets the start value")
        elif what == "time":
            self.step.update_external_temperature(1.5)
        elif what == "solve":
            self.solve()
        self.readback()

    def readback(self):
        same_array(self.c, self.step.prev_y(), self.prev_y, "prev_y() is what was set")
        same_array(self.c, self.step.y(), self.y, "y() is what was set")
        same_array(self.c, self.step.prev_theta(), self.theta, "prev_theta() is what was set")

    def solve(self):
        """One solve with an arbitrary answer."""
        c, tag = self.c, f"solve{self.count}"
        given = {}

        def answer(cap):
            c.check(all(v is not None for v in cap.unknowns.flat), "temperatures are unknowns of the model")
            c.check(cap.count == cap.unknowns.size, "no other unknowns: deformations are data")
            if self.fresh:
                same_array(c, cap.start, self.theta, "start value is the previous temperature")
            out, ok = np.empty(self.ts, dtype=object), []
            for k in np.ndindex(*self.ts):
                v = c.real(f"{tag}_{k[0]}", -20, 20)
                out[k] = self.theta[k] if cap.fixed[k] else v
                if cap.lower[k] is not None:
                    ok.append(v >= cap.lower[k])
                if cap.upper[k] is not None:
                    ok.append(v <= cap.upper[k])
            c.assume(c.all_of(ok))
            given["theta"] = out
            return out

        got = solve_captured(self.step, self.step.theta, answer)
        c.check(len(got) == 1, "one solve")
        th = np.array(self.step.theta(), dtype=object)
        c.check(th.shape == self.ts, "shape of theta")
        slack = 0 if c.symbolic else 1e-9
        c.check(c.all_of([t >= -slack for t in th]), "temperatures are non-negative")
        near = []
        for a, b in zip(th, self.theta):
            near += [a - b <= self.r + slack, a - b >= -self.r - slack]
        c.check(c.all_of(near), "inside the search window")
        same_array(c, th, given["theta"], "theta() is what the solver returned")
        self.fresh = False
        self.readback()


def same_array(c, a, b, label):
    c.check(np.shape(a) == np.shape(b), f"{label}: shape")
    if np.shape(a) == np.shape(b):
        c.check(c.all_of([a[k] == b[k] if c.symbolic else close(a[k], b[k]) for k in np.ndindex(*np.shape(b))]), label)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


OPS = ["prev_y", "y", "theta", "time", "solve", "none"]


def history(c, s, length):
    s.readback()
    s.solve()
    for k in range(length):
        s.update(c.choice(f"update{k}", OPS))
    s.solve()
    s.update("theta")
    s.solve()


@harness(bounds="one cell; all states, radii, solver answers; all sequences of two updates or solves between solves", cost=6)
def plain(c):
    """The step without regularization."""
    history(c, State(c, CELL, False), 3 if c.thorough else 2)


@harness(bounds="one cell refined by 1: all states, radii, solver answers; one update or solve (thorough: two) between solves", cost=8)
def regularized(c):
    """The step with regularization."""
    history(c, State(c, CELL, True), 2 if c.thorough else 1)


@harness(bounds="plain: one to two cells; regularized: two cells refined by 1, one by 2 (thorough: more)", cost=8)
def grids(c):
    """Other grids."""
    kinds = [(0, s) for s in SHAPES] + [(1, SHAPES[1]), (2, CELL)]
    if c.thorough:
        kinds += [(0, (1.0, 1.0, 0.5)), (1, SHAPES[2]), (2, SHAPES[1]), (3, CELL)]
    factor, shape = c.choice("kind", kinds)
    s = State(c, shape, factor > 0, max(factor, 1), c.choice("fixed", [("left", "right"), ()]))
    s.solve()
    s.theta = np.array(s.step.theta(), dtype=object)
    s.step.update_prev_theta(s.theta)
    s.fresh = True
    s.update("y")
    s.update("prev_y")
    s.solve()


@harness(bounds="one cell, plain and regularized: listed wrong shapes of up to four dimensions", cost=4)
def shapes(c):
    """Data of the wrong shape is refused and changes nothing."""
    reg = c.choice("regularized", [False, True])
    s = State(c, CELL, reg, 2)
    s.update("theta")
    s.update("y")
    s.update("prev_y")
    n, m = s.ys[0], s.ts[0]
    rest = s.ys[1:]
    wrong_y = [(n,), (n, 3), (n + 1,) + rest, (n - 1,) + rest, (2, n), (n, 1), (n, 2, 5), (n, 1, 6), (n, 6, 2)]
    wrong_y += [(n, 3, 6), (n, 2, 6, 1), (2 * n, 2), (2 * n, 2, 6), s.ys + (1,), (0,), (n, 2) if reg else (n, 2, 6)]
    wrong_t = [(m + 1,), (m - 1,), (m, 1), (1, m), (2 * m,), (0,)] + ([(n,)] if m != n else [])
    zy, zt = np.zeros(s.ys), np.zeros(s.ts)
    for w in wrong_y:
        c.raises(ValueError, lambda: s.step.update_prev_y(np.zeros(w)), f"prev_y of shape {w} is refused")
        c.raises(ValueError, lambda: s.step.update_y(np.zeros(w)), f"y of shape {w} is refused")
        c.raises(ValueError, lambda: s.make(np.zeros(w), zy, zt), f"a step from prev_y of shape {w} is refused")
        c.raises(ValueError, lambda: s.make(zy, np.zeros(w), zt), f"a step from y of shape {w} is refused")
    for w in wrong_t:
        c.raises(ValueError, lambda: s.step.update_prev_theta(np.zeros(w)), f"prev_theta of shape {w} is refused")
        c.raises(ValueError, lambda: s.make(zy, zy, np.zeros(w)), f"a step from prev_theta of shape {w} is refused")
    s.readback()
    same_array(c, s.step.theta(), s.theta, "theta() unchanged")
    s.solve()
