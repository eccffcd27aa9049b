"""Evaluation of Pyomo models on symbolic (or ordinary) numbers.

The steps of the scheme hand a model to the optimiser.  Here its objective and constraints are
evaluated for arbitrary values of the variables: every operation of the expression tree that the
code under test built is performed on symbolic reals.
"""

from __future__ import annotations

import math

import numpy as np
import pyomo.environ as pyo

from vt.stubs import SolverHook, StubSolver

TOKEN = 3.0e7  # start of the numbers by which variables are recognised


def variables(model):
    """All variables of the model in a fixed order."""
    return list(model.component_data_objects(pyo.Var, active=True, descend_into=True))


def constraints(model):
    return list(model.component_data_objects(pyo.Constraint, active=True, descend_into=True))


def objective(model):
    objs = list(model.component_data_objects(pyo.Objective, active=True, descend_into=True))
    return objs[0] if len(objs) == 1 else None


_FN = {"exp": "exp", "log": "log", "sqrt": "sqrt"}


def _unary(fn, x):
    if hasattr(x, fn):
        return getattr(x, fn)()
    return getattr(math, fn)(x)


def evaluate(expr, values):
    """Value of a Pyomo expression; values maps id(variable) to a number."""
    memo = {}
    stack = [expr]
    while stack:
        e = stack[-1]
        i = id(e)
        if i in memo:
            stack.pop()
            continue
        if not hasattr(e, "is_expression_type"):
            memo[i] = (e, e)
            stack.pop()
            continue
        if not e.is_expression_type():
            if hasattr(e, "is_variable_type") and e.is_variable_type():
                v = values[i] if i in values else e.value
            else:
                v = pyo.value(e)
            memo[i] = (v, e)
            stack.pop()
            continue
        args = list(e.args)
        todo = [a for a in args if id(a) not in memo]
        if todo:
            # keep the arguments alive: some nodes create them on the fly
            stack.extend(todo)
            memo[("args", i)] = (None, args)
            continue
        a = [memo[id(x)][0] for x in args]
        name = e.getname() if hasattr(e, "getname") else ""
        if name in _FN and len(a) == 1:
            v = _unary(name, a[0])
        else:
            v = e._apply_operation(a)
        memo[i] = (v, e)
        stack.pop()
    return memo[id(expr)][0]


class Captured:
    """The model handed to the optimiser by one solve() of a step.

    `unknowns` is an array of the shape of read() holding the variable behind each entry.
    """

    def __init__(self, model, unknowns, start, lower, upper, fixed):
        self.model = model
        self.unknowns = unknowns
        self.start, self.lower, self.upper, self.fixed = start, lower, upper, fixed
        self.objective = objective(model)

    def assignment(self, values):
        """values: array of the shape of read()."""
        vals = np.asarray(values, dtype=object)
        return {id(v): vals[k] for k, v in np.ndenumerate(self.unknowns) if v is not None}

    def energy(self, values):
        """The objective for these values of the unknowns."""
        return evaluate(self.objective.expr, self.assignment(values))

    def residuals(self, values):
        """(body, lower, upper) of every constraint for these values."""
        asg = self.assignment(values)
        out = []
        for con in constraints(self.model):
            b = evaluate(con.body, asg)
            lo = None if con.lower is None else evaluate(con.lower, asg)
            up = None if con.upper is None else evaluate(con.upper, asg)
            out.append((b, lo, up))
        return out


def solve_captured(step, read, answer=None):
    """Call step.solve() and look at the model it hands to the optimiser.

    read() returns the unknowns of the step as an array (step.y or step.theta).  `answer(captured)`
    may return an array of the same shape: what the optimiser puts into the variables.
    """
    got = []

    def hook(model):
        vs = variables(model)
        start = {id(v): v.value for v in vs}
        shown = np.array(read(), dtype=object)
        for k, v in enumerate(vs):
            v.set_value(TOKEN + k, skip_validation=True)
        tokens = np.array(read(), dtype=object)
        unknowns = np.empty(tokens.shape, dtype=object)
        for k, t in np.ndenumerate(tokens):
            n = float(t) - TOKEN if isinstance(t, (int, float, np.floating)) else -1
            unknowns[k] = vs[int(n)] if n in range(len(vs)) else None
        for v in vs:
            v.set_value(start[id(v)], skip_validation=True)
        lower, upper = np.empty(tokens.shape, dtype=object), np.empty(tokens.shape, dtype=object)
        fixed = np.zeros(tokens.shape, dtype=bool)
        for k, v in np.ndenumerate(unknowns):
            if v is not None:
                lower[k], upper[k] = evaluate(v.lower, {}), evaluate(v.upper, {})
                fixed[k] = v.fixed
        cap = Captured(model, unknowns, shown, lower, upper, fixed)
        cap.count = len(vs)
        got.append(cap)
        if answer is not None:
            vals = np.asarray(answer(cap), dtype=object)
            for k, v in np.ndenumerate(unknowns):
                if v is not None and not v.fixed:
                    v.set_value(vals[k], skip_validation=True)

    old, SolverHook.on_solve = SolverHook.on_solve, hook
    try:
        step.solve()
    finally:
        SolverHook.on_solve = old
    return got


def solver():
    return StubSolver()
