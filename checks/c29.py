"""C29 The staggered scheme hands every result to the right place and time."""

from vt.harness import harness
from vt.scheme import *  # noqa: F401,F403
from vt.steps import *  # noqa: F401,F403

ASSUMPTIONS = [
    "floating point idealised as real arithmetic",
    "the optimiser answers within the bounds of the model",
    "strains for which the energies are undefined (zero determinant) are excluded",
]
OUTSIDE = "more than three steps after the initial ones (six with given answers); grids with more than two cells; objectives are compared at one arbitrary point per solve"


def run(c, prob, groups, answer=answers):
    s = Scheme(c, prob, answer)
    with Hooked(s):
        sim = prob.simulation()
        c.check(s.solves == 2, "one mechanical and one thermal solve at the start")
        check_records(c, prob, sim, s.records)
        total = 0
        for g in groups:
            sim.run(g) if g > 1 or total else (sim.run() if g == 1 else None)
            total += g
            c.check(s.solves == 2 * (total + 1), "one mechanical and one thermal solve per step")
            check_records(c, prob, sim, s.records)


GROUPS = [[1, 1, 1], [2, 1], [1, 2], [3]]


@harness(bounds="one cell: all answers, parameters and coefficients of the loads; three steps grouped in the four possible ways", cost=8)
def plain(c):
    """Without regularization."""
    run(c, Problem(c), c.choice("runs", GROUPS))


@harness(bounds="one cell refined by 1: all answers, parameters and coefficients of the loads; two steps grouped in both ways", cost=9)
def regularized(c):
    """With regularization."""
    run(c, Problem(c, factor=1), c.choice("runs", GROUPS if c.thorough else [[1, 1], [2]]))


@harness(bounds="two cells, three choices of fixed sides; two steps", cost=8)
def grids(c):
    """Other grids and fixed sides, without regularization."""
    fixed = c.choice("fixed", [(), ("lower", "right"), ("left", "right", "upper", "lower")])
    run(c, Problem(c, c.choice("grid", SHAPES[1:]), fixed=fixed), [2])


COMPOSITIONS = [[4], [3, 1], [1, 3], [2, 2], [2, 1, 1], [1, 2, 1], [1, 1, 2], [4, 2], [5, 1], [6], [1, 5]]


@harness(bounds="one cell, given initial temperature and answers: all parameters and coefficients of the loads; four to six steps grouped in eleven ways", cost=4)
def groupings(c):
    """Longer runs."""
    run(c, Problem(c, theta0=0.5), c.choice("runs", COMPOSITIONS), given_answers)
