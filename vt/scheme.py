"""Running whole simulations with arbitrary solver answers, for the checks of the scheme."""

from __future__ import annotations

import numpy as np

from vt.pyowalk import evaluate, variables, constraints, objective
from vt.steps import *  # noqa: F401,F403
from vt.stubs import SolverHook, StubSolver
from tvemoves_rufbad.mechanical_step import mechanical_step
from tvemoves_rufbad.simulation import Simulation, SimulationParams
from tvemoves_rufbad.thermal_step import thermal_step


class Loads:
    """Loads that depend on time and place through arbitrary coefficients."""

    def __init__(self, c):
        self.a = [c.real(f"ext{k}", 0, 1) for k in range(2)]
        self.b = [c.real(f"load{k}", -1, 1) for k in range(4)]

    def external(self, t):
        return self.a[0] + self.a[1] * t

    def traction(self, t, x, y):
        b = self.b
        return [b[0] + b[1] * t, b[2] * x + b[3] * t * y]


class NoLoads:
    def external(self, t):
        return 0.0

    def traction(self, t, x, y):
        return [0.0, 0.0]


class Problem:
    """Parameters of a simulation (regularized when factor is positive)."""

    def __init__(self, c, shape=CELL, factor=0, fixed=("left",), loads=True, theta0=None):
        self.c, self.factor = c, factor
        self.dom, self.grid = make_grid(shape, list(fixed))
        self.fine = self.dom.refine(self.grid, factor) if factor else None
        n = len(self.grid.points)
        self.theta0 = c.real("theta0", 0, 2) if theta0 is None else theta0
        self.r, self.fps = c.real("r", 0.1, 0.5), c.real("fps", 0.25, 4) if loads else 2.0
        reg = c.real("reg", 0, 1) if factor else None
        self.params = SimulationParams(self.theta0, self.r, self.fps, shape[2], reg, factor or None)
        self.loads = Loads(c) if loads else NoLoads()
        self.ref = c1_reference(self.grid) if factor else np.array([[x, y] for x, y in points2(self.grid)], dtype=object)
        self.hot = np.array([self.theta0] * len((self.fine or self.grid).points), dtype=object)

    def simulation(self):
        return Simulation(self.dom, self.params, self.loads.external, self.loads.traction)

    def mechanical(self, prev_y, prev_theta, time):
        """A mechanical step built from scratch for these previous data at this time."""
        s = mechanical_step(
            StubSolver(), self.grid, self.params.mechanical_step_params(), self.fine, self.loads.traction
        )
        s.update_prev_y(prev_y)
        s.update_prev_theta(prev_theta)
        s.update_boundary_traction(time)
        return s

    def thermal(self, prev_y, y, prev_theta, time):
        s = thermal_step(
            StubSolver(),
            self.grid,
            prev_y,
            y,
            prev_theta,
            self.params.thermal_step_params(),
            self.loads.external,
            self.fine,
        )
        s.update_external_temperature(time)
        return s


class Snapshot:
    """What the optimiser gets: variables with start values, bounds, fixing, and the functions."""

    def __init__(self, model, values):
        vs = variables(model)
        self.count = len(vs)
        self.fixed = [v.fixed for v in vs]
        self.start = [evaluate(v, {}) for v in vs]
        self.lower = [None if v.lower is None else evaluate(v.lower, {}) for v in vs]
        self.upper = [None if v.upper is None else evaluate(v.upper, {}) for v in vs]
        self.senses = objective(model).sense
        vals = {id(v): s if f else x for v, s, f, x in zip(vs, self.start, self.fixed, values)}
        self.energy = evaluate(objective(model).expr, vals)
        self.bodies = []
        for con in constraints(model):
            self.bodies.append([evaluate(e, vals) for e in (con.body, con.lower, con.upper) if e is not None])


def fresh_snapshot(step, values):
    got = []
    old, SolverHook.on_solve = SolverHook.on_solve, lambda m: got.append(Snapshot(m, values))
    try:
        step.solve()
    finally:
        SolverHook.on_solve = old
    return got[0]


def answers(c, model, tag, radius=None):
    """Arbitrary values within the model's bounds, written to its variables."""
    ok, out = [], []
    for k, v in enumerate(variables(model)):
        if v.fixed:
            out.append(v.value)
            continue
        x = c.real(f"{tag}_{k}", -20, 20)
        lo = None if v.lower is None else evaluate(v.lower, {})
        hi = None if v.upper is None else evaluate(v.upper, {})
        if c.symbolic:
            ok += [x >= lo] if lo is not None else []
            ok += [x <= hi] if hi is not None else []
        else:  # the inputs keep the bounds up to rounding
            x = x if lo is None or x >= lo else lo
            x = x if hi is None or x <= hi else hi
        v.set_value(x, skip_validation=True)
        out.append(x)
    c.assume(c.all_of(ok))
    return out


def given_answers(c, model, tag):
    """Fixed values near the start values, written to the model's variables."""
    out = []
    for k, v in enumerate(variables(model)):
        if not v.fixed:
            v.set_value(v.value + 2.0**-8 * (k % 5 - 2), skip_validation=True)
        out.append(v.value)
    return out


class Hooked:
    """While active, on_solve(model) plays the optimiser."""

    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        self.old, SolverHook.on_solve = SolverHook.on_solve, self.fn
        return self

    def __exit__(self, *a):
        SolverHook.on_solve = self.old
        return False


def read_answer(step, vals, mech):
    """The data a step reports once the optimiser has found vals."""

    def put(model):
        for v, x in zip(variables(model), vals):
            v.set_value(x, skip_validation=True)

    with Hooked(put):
        step.solve()
    return np.array(step.y() if mech else step.theta(), dtype=object)


class Scheme:
    """Compares every model handed to the optimiser with one built from scratch."""

    def __init__(self, c, prob, answer=answers):
        self.c, self.p, self.answer = c, prob, answer
        self.solves = 0
        self.prev = (prob.ref, prob.hot)
        self.records = [self.prev]
        self.y = None

    def __call__(self, model):
        c, p = self.c, self.p
        k, mech = divmod(self.solves, 2)
        mech = not mech
        time = k / p.fps if k else 0.0
        self.solves += 1
        tag = f"step {k}, {'mechanical' if mech else 'thermal'} solve"
        at = [c.real(f"v{self.solves}_{i}", -1, 2) for i in range(len(variables(model)))]
        with c.defined(), c.reciprocals(), c.snapped_naming(at_least=6):
            step = p.mechanical(*self.prev, time) if mech else p.thermal(self.prev[0], self.y, self.prev[1], time)
            want, have = fresh_snapshot(step, at), Snapshot(model, at)
        compare(c, have, want, tag)
        got = self.answer(c, model, f"a{self.solves}")
        # the same answer, read back through the reference step
        new = read_answer(step, got, mech)
        if mech:
            self.y = new
        else:
            self.prev = (self.y, new)
            self.records.append(self.prev)


def compare(c, have, want, tag):
    c.check(have.count == want.count, f"{tag}: number of unknowns")
    if have.count != want.count:
        return
    c.check(have.fixed == want.fixed, f"{tag}: clamped unknowns")
    c.check(have.senses == want.senses, f"{tag}: minimized")
    for name in ("start", "lower", "upper"):
        same(c, getattr(have, name), getattr(want, name), f"{tag}: {name}")
    c.check(len(have.bodies) == len(want.bodies), f"{tag}: number of constraints")
    for a, b in zip(have.bodies, want.bodies):
        same(c, a, b, f"{tag}: constraints")
    c.check_eq(have.energy, want.energy, f"{tag}: objective", scale=100, rounding=True)


def same(c, a, b, label):
    c.check(len(a) == len(b), f"{label}: number")
    c.check([x is None for x in a] == [x is None for x in b], f"{label}: present")
    c.check(c.all_of([eq(c, x, y) for x, y in zip(a, b) if x is not None and y is not None]), label)


def eq(c, a, b):
    if c.symbolic:
        return c.const(a) == b if isinstance(a, (int, float)) else a == b
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def check_records(c, prob, sim, records):
    c.check(len(sim.steps) == len(records), "one record per step")
    if len(sim.steps) != len(records):
        return
    for k, (st, (y, th)) in enumerate(zip(sim.steps, records)):
        for v, (px, py) in enumerate(points2(prob.grid)):
            at = st.y(px, py)
            for m in range(2):
                want = y[v, m, 0] if prob.factor else y[v, m]
                c.check_close(at[m], want, 1e-7, f"record {k}: deformation at the vertices")
        for v, (px, py) in enumerate(points2(prob.fine or prob.grid)):
            c.check_close(st.theta(px, py), th[v], 1e-7, f"record {k}: temperature at the vertices")
