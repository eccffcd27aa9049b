#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py"""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/tvemoves_rufbad/"
P = []


def prop(id, title, statement, over, text, cant, files, mech, observe=(), state=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": " ".join(statement.split()),
            "quantifier": {"over": list(over), "text": " ".join(text.split())},
            "why_tests_cant": " ".join(cant.split()),
            "anchors": {
                "files": [S + f for f in files],
                "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


# ---------------------------------------------------------------- mesh
prop(
    "C01",
    "The generated grid is a conforming triangulation of the rectangle",
    """For every rectangle and every scale not exceeding its sides, the grid consists of positively oriented right triangles with
    legs of exactly that scale that do not overlap and together fill the largest box of whole cells
    that fits into the rectangle (all of it when the scale divides its sides, also when the division
    is only exact up to floating-point rounding). Every triangle side is listed exactly once as an
    edge and every edge is a side of one or two triangles, and vertex k sits at point k, with no
    point repeated. The boundary consists of exactly the edges that belong to one triangle only and
    of exactly their endpoints.""",
    ["inputs", "configurations"],
    """all widths, heights and scales (including sides that are a multiple of the scale only up to
    rounding)""",
    """The tests compare one 2x1 grid at scale 0.5 against a literal; whether the topology is right for other
    cell counts, aspect ratios and inexact divisions is never executed.""",
    ["domain.py"],
    [("RectangleDomain.grid", "domain.py"), ("Grid.__init__", "domain.py")],
    ["RectangleDomain(...).grid(scale): vertices, points, edges, triangles, boundary"],
)
prop(
    "C02",
    "Fixed and free boundary split the boundary as requested",
    """For every choice of fixed sides of the rectangle (none, one name, or any list of names in any
    order, with repetitions), the boundary edges of the grid are split without overlap or omission into those on
    a fixed side (Dirichlet) and the others (Neumann). The Dirichlet vertices are exactly the
    vertices lying on a fixed side and the Neumann vertices exactly the endpoints of Neumann edges,
    each listed once. The triangulation itself does not depend on which sides are fixed.""",
    ["inputs", "configurations"],
    "all subsets of the four sides, in every spelling, on all rectangles and scales",
    """The tests look at two of the sixteen subsets on one grid size; a mistake confined to one side
    or one corner combination is invisible to them.""",
    ["domain.py"],
    [("RectangleDomain.grid (tags)", "domain.py"), ("Boundary", "domain.py")],
    ["dirichlet_boundary / neumann_boundary of a grid"],
)
prop(
    "C03",
    "Refining a grid gives the grid of the finer scale",
    """Refining a generated grid by a positive factor n yields the same grid (up to numbering) as
    generating it directly with the scale divided by n, including the boundary and its Dirichlet and
    Neumann parts, and refined grids can be refined again. The vertices of the coarse grid keep
    their numbers and positions, the coarse grid remains reachable and unmodified, and factors below
    one are rejected. Rounding-size perturbations of the coordinates neither make the refinement
    fail nor duplicate or merge vertices.""",
    ["inputs", "configurations"],
    """all rectangles, scales and fixed sides, all refinement factors, repeated refinement, and all
    perturbations of the coordinates of the size of floating-point rounding""",
    """One test refines one grid with one factor; vertices shared between coarse triangles, repeated
    refinement and accumulated rounding are configuration dependent and not sampled.""",
    ["domain.py"],
    [
        ("RectangleDomain.refine", "domain.py"),
        ("_refine_equilateral_triangle", "domain.py"),
        ("_refine_boundary_edge", "domain.py"),
        ("Grid.point_to_vertex / append_edge", "domain.py"),
    ],
    ["RectangleDomain.refine(grid, n)"],
)
prop(
    "C04",
    "Fine points and fine edges map to the same place on the coarse grid",
    """For every refined grid, converting a barycentric point of a fine triangle (whose vertices may
    be given in any cyclic order) to the coarse grid gives a coarse triangle and coordinates
    describing the same point of the plane. Every fine edge that lies on a coarse edge converts every
    position on it to the same point on that coarse edge, measured in the coarse edge's own
    orientation. Triangles that are not in the fine grid and fine edges that do not lie on a coarse
    edge are rejected with an error.""",
    ["inputs", "configurations"],
    "all fine triangles, barycentric coordinates, fine edges and edge positions of all refined grids",
    """No test converts edge points at all and triangle points are only compared at a few sampled
    coordinates in stored vertex order.""",
    ["domain.py", "interpolation.py"],
    [
        ("RefinedGrid.to_coarse_barycentric_point", "domain.py"),
        ("RefinedGrid.to_coarse_edge_point", "domain.py"),
        ("coarse maps built in _refine_equilateral_triangle", "domain.py"),
    ],
    ["to_coarse_barycentric_point, to_coarse_edge_point"],
)
prop(
    "C05",
    "Point location finds a triangle containing the point",
    """Locating any point of the meshed area, on grids of any scale, returns one of the grid's
    triangles together with barycentric coordinates that are non-negative up to rounding, sum to one
    and reproduce the point. Points outside the meshed area are reported as outside, and points on
    the boundary (also when they miss it by rounding) are found.""",
    ["inputs", "configurations"],
    "all points of the plane, all grids and scales",
    """The test samples a handful of interior points of one grid at scale of order one; edges, vertices,
    the outside and very small or large scales are not covered.""",
    ["domain.py"],
    [
        ("Grid.to_barycentric_point", "domain.py"),
        ("_triangle_contains_point", "domain.py"),
        ("_to_barycentric_coordinates", "domain.py"),
    ],
    ["Grid.to_barycentric_point"],
)
prop(
    "C06",
    "Grid equality means the same mesh up to numbering",
    """Two grids compare equal exactly when a renumbering of the vertices maps the points, edges
    (regardless of direction), triangles (regardless of rotation, but not of orientation) and all
    three boundaries of one onto those of the other. Comparison ignores rounding-size differences of
    coordinates, is reflexive and symmetric, and comparing with something else gives inequality.""",
    ["inputs", "configurations"],
    "all renumberings, reorderings and single alterations of generated grids",
    """The test suite uses equality as its oracle for refinement and never checks that altered grids
    compare unequal.""",
    ["domain.py"],
    [("Grid.__eq__", "domain.py"), ("_boundaries_coincide", "domain.py")],
    ["grid1 == grid2"],
)
prop(
    "C07",
    "Domain curves are evenly spaced lines of the rectangle",
    """Asking a rectangle for curves gives the requested number of interior horizontal and vertical
    lines (as many vertical as horizontal ones when only one number is given) plus the four sides,
    each with the requested number (two or more) of points. The lines are evenly spaced over the rectangle, run
    from side to side, and all their points lie in the rectangle, evenly spaced with both ends
    included.""",
    ["inputs"],
    "all rectangle sizes and curve and point counts",
    "One literal comparison for one rectangle and one set of counts.",
    ["domain.py"],
    [("RectangleDomain.curves", "domain.py")],
    ["RectangleDomain.curves"],
)

# ---------------------------------------------------------------- interpolation
prop(
    "C08",
    "Piecewise affine interpolation is exact, continuous and local",
    """On every triangle the piecewise affine interpolation of nodal values is the affine function
    through the three values: it reproduces every affine function of the plane together with its
    gradient, for any triangle shape and orientation. Neighbouring triangles agree along their common
    edge, where both agree with the evaluation on that edge in either direction, and a wrong number
    of values is rejected.""",
    ["inputs"],
    "all triangles, nodal values, evaluation points and affine functions",
    "One random polynomial on one grid at a few points with tolerance.",
    ["interpolation.py", "bell_finite_element.py"],
    [
        ("P1Interpolation", "interpolation.py"),
        ("P1BoundaryInterpolation", "interpolation.py"),
        ("transform_gradient", "bell_finite_element.py"),
    ],
    ["P1Interpolation(grid, params)"],
)
prop(
    "C09",
    "The C1 interpolation reproduces every quartic polynomial",
    """For every non-degenerate triangle and every point of it, interpolating the value, gradient and
    second derivatives of a polynomial of degree at most four at the three vertices gives back that
    polynomial's value, gradient and Hessian. For arbitrary nodal data the interpolation takes on the
    prescribed value, gradient and second derivatives at each vertex.""",
    ["inputs"],
    "all triangles (shape, size, orientation, position), all points, all quartics, all nodal data",
    """Tests draw random polynomials and points on a few fixed triangles with tolerance; they do not
    look at the Hessian on general triangles nor at nodal conditions for data that is no
    polynomial.""",
    ["bell_finite_element.py", "interpolation.py"],
    [
        ("shape functions _N1.._N6 and their cyclic permutations", "bell_finite_element.py"),
        ("bell_interpolation[_gradient|_hessian]", "bell_finite_element.py"),
        ("C1Interpolation", "interpolation.py"),
    ],
    ["C1Interpolation(grid, params): value, gradient, hessian"],
)
prop(
    "C10",
    "The C1 interpolation is continuously differentiable across edges",
    """For arbitrary nodal data, the interpolations in two triangles sharing an edge agree along the
    whole edge in value and in both first derivatives, whatever the shapes of the two triangles. Along
    every edge the value also equals the dedicated edge evaluation, in either direction of the
    edge.""",
    ["inputs"],
    "all pairs of neighbouring triangles, all nodal data, all points of the edge",
    """The test for independence of the opposite vertex samples one data set; normal derivatives across
    the edge, which make the element conforming, are not tested.""",
    ["bell_finite_element.py", "interpolation.py"],
    [
        ("r_ij terms of the shape functions", "bell_finite_element.py"),
        ("bell_interpolation_on_edge", "bell_finite_element.py"),
        ("C1Interpolation.on_edge", "interpolation.py"),
    ],
    ["C1Interpolation on neighbouring triangles; on_edge"],
)
prop(
    "C11",
    "Reported gradients and Hessians are the true derivatives",
    """For every interpolation (affine, C1, refined, and their Euclidean versions) and arbitrary nodal
    data, the reported gradient is the derivative of the reported value with respect to the position
    in the plane, and the reported Hessian is the (symmetric) derivative of the reported gradient. The
    strain and hyper-strain of a deformation collect the component gradients row by row and the
    component Hessians.""",
    ["inputs"],
    "all triangles, points, directions and nodal data",
    """Tests only compare derivatives for sampled polynomials that the element reproduces; data outside
    that space (every deformation a solver returns) is not covered.""",
    ["interpolation.py", "bell_finite_element.py"],
    [
        ("transform_gradient / transform_hessian", "bell_finite_element.py"),
        ("Deformation.strain / hyper_strain", "interpolation.py"),
        ("EuclideanDeformation", "interpolation.py"),
    ],
    ["gradient, hessian, strain, hyper_strain"],
)
prop(
    "C12",
    "Refined and Euclidean interpolations evaluate the same function",
    """Evaluating an interpolation through a refinement of its grid gives, at every point of every
    fine triangle and of every fine edge on a coarse edge, the value, gradient and Hessian the
    original has at that point of the plane. Evaluating at Euclidean coordinates gives the value of
    the barycentric evaluation at that point, the component-wise deformation, and an error outside the
    domain.""",
    ["inputs", "configurations"],
    "all refinements, points, edges and nodal data",
    "Tests cover one refinement at sampled points and never evaluate refined edges.",
    ["interpolation.py", "domain.py"],
    [
        ("RefinedInterpolation", "interpolation.py"),
        ("EuclideanInterpolation", "interpolation.py"),
        ("EuclideanDeformation", "interpolation.py"),
    ],
    ["RefinedInterpolation, EuclideanInterpolation, EuclideanDeformation"],
)

# ---------------------------------------------------------------- quadrature
prop(
    "C13",
    "Quadrature rules integrate polynomials of their degree exactly",
    """Each triangle rule of nominal degree d integrates every polynomial of degree at most d over
    every triangle exactly up to rounding of its tabulated digits, its weights sum to one and its
    points lie in the triangle; the rule built from the vertices is exact for affine functions. The
    n-point edge rule is exact for polynomials of degree up to 2n-1 on every edge. Rules whose weights
    do not sum to one or whose points leave the triangle are refused.""",
    ["inputs"],
    "all polynomials of the nominal degree, all triangles and edges",
    """Tests integrate sampled monomials on the reference triangle; a wrong digit in a weight that the
    sampled tolerance hides, or a permuted point, is not excluded for all polynomials.""",
    ["quadrature_rules.py"],
    [
        ("DUNAVANT2..5, CENTROID, VERTEX", "quadrature_rules.py"),
        ("TriangleQuadratureRule.__init__", "quadrature_rules.py"),
        ("GaussQuadratureRule", "quadrature_rules.py"),
    ],
    ["points and weights of the rules"],
)
prop(
    "C14",
    "Integrals add up over the mesh and scale with area and length",
    """Integrating over a list of triangles or edges is the sum of the integrals over its members,
    each weighted with the true area or length independently of orientation, vertex order or position,
    and is linear in the integrand. Integrating one gives the total area or length, and polynomials
    within the degree of the rule are integrated exactly over the whole region.""",
    ["inputs", "configurations"],
    "all triangles, edges, integrands and partitions of the region",
    "No test calls an integrator.",
    ["integrators.py", "quadrature_rules.py"],
    [("Integrator", "integrators.py"), ("BoundaryIntegrator", "integrators.py")],
    ["Integrator(...)(integrand), BoundaryIntegrator(...)(integrand)"],
)

# ---------------------------------------------------------------- tensors
prop(
    "C15",
    "Tensor operations obey the laws of linear algebra",
    """For all entries, vector, matrix and third-order tensor operations return what their
    mathematical definitions say: entrywise sums, differences, negatives, scalings and quotients,
    products, traces, transposes, determinants (multiplicative, antisymmetric, of any size used),
    scalar products, norms, 2x2 inverses and reshaping or stacking. Barycentric coordinates always sum
    to one, and equality holds exactly when shapes and all entries agree. The printed forms show
    every entry in its place, so that evaluating the repr of a tensor gives an equal tensor.
    Operations never modify their operands.""",
    ["inputs"],
    "all entries and all shapes up to the stated sizes",
    "Tests compare literals for a few small integer examples.",
    ["tensors.py"],
    [
        ("Vector", "tensors.py"),
        ("Matrix", "tensors.py"),
        ("Tensor3D", "tensors.py"),
        ("inverse_2x2", "tensors.py"),
        ("BarycentricCoordinates", "tensors.py"),
    ],
    ["public methods of the tensor classes"],
)
prop(
    "C16",
    "Ill-shaped tensor operations and out-of-range indices are refused",
    """Every tensor operation whose operands do not fit (sums, differences, products, scalar products,
    stacking, reshaping, determinants and inverses of the wrong shape, ragged data) raises an error
    instead of returning a truncated or broadcast result. Reading an entry works exactly for indices
    within the shape and returns that entry, and every negative or too large index in any position
    raises an index error.""",
    ["inputs"],
    "all pairs of shapes up to the stated sizes, all indices",
    "Tests check a few error cases and only the first index of third-order tensors.",
    ["tensors.py"],
    [
        ("shape checks in Vector, Matrix, Tensor3D", "tensors.py"),
        ("__getitem__ of the tensor classes", "tensors.py"),
    ],
    ["exceptions raised by tensor operations"],
)

# ---------------------------------------------------------------- constitutive law
prop(
    "C17",
    "Stored energies are frame indifferent with the right wells",
    """Austenite and martensite energies and every temperature-dependent mixture of them do not change
    when the deformed body is rotated. Among strains of positive determinant the austenite energy is
    non-negative and zero exactly at rotations; the martensite energy is non-negative, zero at all
    rotations of the two shears by plus or minus one half, and positive at every strain that changes
    area or whose squared length differs from that of the shears. The mixture is the martensite energy
    at zero temperature, and heating moves it monotonically towards the austenite energy. The
    hyper-elastic energy is the third power of the length of the hyper-strain, hence non-negative and
    rotation invariant.""",
    ["inputs"],
    "all strains of positive determinant, rotations, temperatures and hyper-strains",
    "No test evaluates a potential.",
    ["helpers.py"],
    [
        ("austenite_potential, martensite_potential", "helpers.py"),
        ("total_elastic_potential", "helpers.py"),
        ("hyper_elastic_potential", "helpers.py"),
    ],
    ["the potential functions of the material model"],
)
prop(
    "C18",
    "Stress functions are the derivatives of the energies",
    """At every strain of positive determinant, the derivative functions of the austenite and
    martensite energies return the matrix of partial derivatives of the respective energy, entry by
    entry. The strain derivative of the coupling energy is the austenite share times the difference of
    the two, which is the strain derivative of the temperature-dependent part of the total elastic
    energy.""",
    ["inputs"],
    "all strains of positive determinant and all temperatures",
    "No test evaluates a derivative; entry order and transposition errors would go unnoticed.",
    ["helpers.py"],
    [
        ("derivative_austenite_potential, derivative_martensite_potential", "helpers.py"),
        ("strain_derivative_coupling_potential", "helpers.py"),
    ],
    ["derivative_* functions, strain_derivative_coupling_potential"],
)
prop(
    "C19",
    "Internal energy is consistent with the free energy and its antiderivative",
    """The austenite share is zero at zero temperature, strictly increases and stays below one for all
    temperatures. The internal energy is the free energy minus temperature times its temperature
    derivative plus the entropy constant times temperature, so the mixture part vanishes at zero
    temperature and its weight lies in the unit interval and increases. The temperature antiderivative
    vanishes at zero temperature and its temperature derivative is the internal energy without the
    entropy term.""",
    ["inputs"],
    "all non-negative temperatures and all strains of positive determinant",
    "No test evaluates these functions.",
    ["helpers.py"],
    [
        ("austenite_percentage, internal_energy_weight", "helpers.py"),
        ("antider_internal_energy_weight, temp_antrider_internal_energy_no_entropy", "helpers.py"),
        ("internal_energy, internal_energy_no_entropy", "helpers.py"),
    ],
    ["internal energy functions of the material model"],
)
prop(
    "C20",
    "Dissipation is non-negative and blind to rigid motions",
    """The dissipation potential of a step is half the squared length of the symmetrized rate of the
    strain: non-negative, quadratic in the strain increment, and zero exactly when the linearized
    change of the right Cauchy-Green tensor vanishes. It does not change when both strains are rotated
    alike, and increments that spin the deformed body infinitesimally do not dissipate. The dissipation
    rate is twice the potential of the strain velocity.""",
    ["inputs"],
    "all pairs of strains, rotations, spins and frame rates",
    "No test evaluates the dissipation.",
    ["helpers.py"],
    [
        ("symmetrized_strain_delta", "helpers.py"),
        ("dissipation_potential, dissipation_rate", "helpers.py"),
    ],
    ["dissipation_potential, dissipation_rate"],
)
prop(
    "C21",
    "Pulled-back heat conductivity is symmetric, positive and frame indifferent",
    """At every strain of positive determinant the heat conductivity in the reference configuration is
    the determinant times inverse strain times conductivity times transposed inverse strain: it is
    symmetric, positive definite, equal to the material conductivity at the identity and at isotropic
    stretches, has the material conductivity's determinant, and does not change when the deformed body
    is rotated.""",
    ["inputs"],
    "all strains of positive determinant, temperature gradients and rotations",
    "No test evaluates the conductivity.",
    ["helpers.py", "tensors.py"],
    [("heat_conductivity_reference", "helpers.py"), ("inverse_2x2", "tensors.py")],
    ["heat_conductivity_reference"],
)

# ---------------------------------------------------------------- steps
prop(
    "C22",
    "The mechanical step minimizes the energy of the scheme",
    """Without regularization, the objective of the mechanical step is, for every previous state and
    candidate deformation, the integral of the total elastic energy at the previous temperature, minus
    the work of the boundary traction on the free boundary, plus the frame rate times the integral of
    the dissipation potential between previous and candidate strain. This stays true after any
    sequence of updates of the previous deformation, temperature and time.""",
    ["inputs", "histories", "configurations"],
    "all nodal values, temperatures, tractions, frame rates, grids and update histories",
    "No test builds a mechanical step (the optimiser is not available to them).",
    ["mechanical_step.py", "helpers.py", "integrators.py"],
    [
        ("_model", "mechanical_step.py"),
        ("_MechanicalStep.update_*", "mechanical_step.py"),
        ("boundary_traction_potential", "mechanical_step.py"),
    ],
    ["the model handed to the optimiser by mechanical_step(...).solve()"],
)
prop(
    "C23",
    "Mechanical search windows, start values and clamping",
    """Whatever the solver returns within the model, fixed vertices keep their previous (initially:
    reference) positions and every other unknown stays within the search radius of its previous value,
    in the plain and the regularized step, in the first step and after every update. The start value
    handed to the solver is the previous state, reading the state back returns exactly what was set,
    and updates of the wrong shape are refused without changing anything.""",
    ["inputs", "histories", "configurations"],
    "all solver answers, previous states, radii, grids, fixed sides and update histories",
    "No test builds a mechanical step.",
    ["mechanical_step.py"],
    [
        ("bounds and fix() in _model / _model_regularized", "mechanical_step.py"),
        ("update_prev_y, update_prev_theta, update_boundary_traction", "mechanical_step.py"),
    ],
    ["mechanical_step(...): y(), prev_y(), prev_theta() around solve() and update_*"],
)
prop(
    "C24",
    "The regularized mechanical step minimizes the regularized energy",
    """With regularization, the objective of the mechanical step is, for every previous state and
    candidate C1 deformation, the integral over the refined grid of the total elastic energy at the
    previous temperature, plus the regularization constant times the hyper-elastic energy of the second
    derivatives, plus the frame rate times the dissipation potential. It is evaluated with a rule exact
    to degree five, and this stays true after updates.""",
    ["inputs", "histories", "configurations"],
    "all nodal data, temperatures, constants, refinement factors and update histories",
    "No test builds a regularized step.",
    ["mechanical_step.py", "interpolation.py", "helpers.py"],
    [("_model_regularized", "mechanical_step.py")],
    ["the model handed to the optimiser by mechanical_step(...).solve()"],
)
prop(
    "C25",
    "Regularized deformations are the identity along fixed sides",
    """In the regularized mechanical step the constraints handed to the solver are satisfied by a C1
    deformation exactly when it is the identity at every point of every fixed edge (together with
    the clamped vertex positions), not only at the vertices. They put no condition on vertices away
    from fixed sides, and the undeformed state satisfies them.""",
    ["inputs", "configurations"],
    "all nodal data, all points of all fixed edges, all choices of fixed sides and scales",
    "No test builds a regularized step.",
    ["mechanical_step.py", "bell_finite_element.py"],
    [("_dirichlet_constraint_regularized", "mechanical_step.py")],
    ["constraints of the regularized model; boundary values of the resulting deformation"],
)
prop(
    "C26",
    "Stationary temperatures of the thermal step satisfy the heat balance",
    """For every state, the derivative of the thermal step's objective in the direction of any nodal
    test function is the discrete weak heat equation: heat conduction with the pulled-back conductivity
    at the previous strain, minus dissipation rate and coupling power as heat sources, plus the rate of
    the internal energy between the previous and the new state, plus (without regularization) the heat
    exchange with the external temperature through the whole boundary. This stays true after any
    sequence of updates, so heat is created or lost only through these terms.""",
    ["inputs", "histories", "configurations"],
    "all deformations, temperatures, test functions, frame rates, external temperatures, histories",
    "No test builds a thermal step.",
    ["thermal_step.py", "helpers.py"],
    [
        ("_energy_potential, _dissipation_potential, _boundary_potential", "thermal_step.py"),
        ("_add_objective, _model", "thermal_step.py"),
        ("_ThermalStep.update_*", "thermal_step.py"),
    ],
    ["the model handed to the optimiser by thermal_step(...).solve()"],
)
prop(
    "C27",
    "Temperatures stay non-negative and inside the search window",
    """Whatever the solver returns within the model, every nodal temperature is non-negative and within
    the search radius of its previous value, in the plain and the regularized thermal step, in the
    first step and after every update. The start value handed to the solver is the previous
    temperature, deformations enter as data and never change, reading the state back returns exactly
    what was set, and data of the wrong shape is refused without changing anything.""",
    ["inputs", "histories", "configurations"],
    "all solver answers, states, radii, grids and update histories",
    "No test builds a thermal step.",
    ["thermal_step.py"],
    [
        ("bounds and domain of theta", "thermal_step.py"),
        ("_check_prev_step_data", "thermal_step.py"),
        ("update_prev_y, update_y, update_prev_theta", "thermal_step.py"),
    ],
    ["thermal_step(...): theta(), y(), prev_y(), prev_theta() around solve() and update_*"],
)
prop(
    "C28",
    "The regularized thermal step satisfies the same heat balance",
    """With regularization, the derivative of the thermal step's objective in any nodal direction is
    the weak heat equation on the refined grid with the C1 deformations: conduction, dissipation and
    coupling power, and rate of internal energy, without boundary exchange. It is evaluated with a rule
    exact to degree five and stays true after updates.""",
    ["inputs", "histories", "configurations"],
    "all C1 deformations, temperatures, test functions, frame rates, refinement factors, histories",
    "No test builds a regularized thermal step.",
    ["thermal_step.py", "interpolation.py", "helpers.py"],
    [("_model_regularized, _add_objective", "thermal_step.py")],
    ["the model handed to the optimiser by thermal_step(...).solve()"],
)

# ---------------------------------------------------------------- simulation
prop(
    "C29",
    "The staggered scheme hands every result to the right place and time",
    """Whatever the two solvers return, the simulation alternates one mechanical and one thermal solve
    per step; each mechanical solve starts from the deformation and temperature of the last recorded
    step, and each thermal solve sees that same previous state together with the new deformation. The
    first solves use tractions and external temperature at time zero and those of the k-th later step
    at k times the time increment (one over the frame rate), independent of how the steps are grouped
    into runs. Each step appends exactly one record holding the new deformation and the new
    temperature, after the initial record of the undeformed state at the initial temperature.""",
    ["inputs", "histories", "configurations"],
    "all solver answers, parameters, loads and groupings of steps into runs",
    "No test creates a simulation.",
    ["simulation.py", "mechanical_step.py", "thermal_step.py"],
    [
        ("Simulation.__init__, run, _run_single_step", "simulation.py"),
        ("_update_mechanical_step, _update_thermal_step", "simulation.py"),
        ("_append_step", "simulation.py"),
    ],
    ["sequence of models handed to the optimiser; calls of the load functions; steps"],
)
prop(
    "C30",
    "Recorded steps are immutable history and evaluate to what was recorded",
    """Every recorded step evaluates, at the grid points and in between, to the interpolation of the
    deformation and temperature the solvers produced for it, and stays so whatever is computed
    afterwards. The maximum temperature and the plot limits cover the nodal temperatures and the
    deformed positions of the grid's vertices of all recorded steps and are attained by one of them,
    and plotting a step draws the deformed mesh coloured by its temperatures on the scale from zero to
    that maximum.""",
    ["inputs", "histories"],
    "all solver answers and numbers of steps, plain and regularized",
    "No test creates a simulation.",
    ["simulation.py", "interpolation.py"],
    [
        ("Step, RegularizedStep", "simulation.py"),
        ("Simulation._append_step, max_temp", "simulation.py"),
        ("AbstractStep.plot", "simulation.py"),
    ],
    ["Simulation.steps[i].y / .theta / .plot, max_temp()"],
)
prop(
    "C31",
    "Invalid simulation parameters are refused, valid ones passed on",
    """Parameters are accepted exactly when the initial temperature is non-negative, search radius,
    frame rate and scale are positive, a given regularization is non-negative and comes with a
    positive refinement factor, and are refused with an error otherwise. Accepted values reach the
    mechanical and thermal steps unchanged, a refinement factor without regularization is ignored,
    wrongly shaped step data and a regularized step without refined grid are refused, and non-positive
    numbers of steps are refused without advancing the simulation.""",
    ["inputs"],
    "all parameter combinations",
    "No test constructs parameters.",
    ["simulation.py", "mechanical_step.py", "thermal_step.py"],
    [
        ("SimulationParams.__post_init__", "simulation.py"),
        ("mechanical_step / thermal_step factories", "mechanical_step.py"),
        ("Step / RegularizedStep shape checks", "simulation.py"),
    ],
    ["SimulationParams(...), Simulation.run"],
)

prop(
    "C32",
    "Meshes find their points, corners and edges again",
    """Looking up a point of the plane returns the vertex that lies there, also when the point differs
    from it by rounding errors, for coarse and refined meshes of every scale, and reports that there
    is none for points away from all vertices. Looking up the corners of a listed triangle or the ends
    of a listed edge returns the points of its vertices in the order given, and triangles or edges the
    mesh does not have are refused with an error. Adding an edge lists it exactly once, whatever its
    direction and however often it is added, and does not disturb the lookup of points.""",
    ["inputs", "configurations", "histories"],
    "all points of the plane, scales and sequences of additions",
    "Tests look up a handful of points of one mesh.",
    ["domain.py"],
    [
        ("Grid.point_to_vertex", "domain.py"),
        ("Grid.triangle_vertices, edge_vertices", "domain.py"),
        ("Grid.append_edge", "domain.py"),
    ],
    ["Grid.point_to_vertex, triangle_vertices, edge_vertices, append_edge, edges"],
)
prop(
    "C33",
    "Pictures, films and mesh plots show what they are asked to show",
    """Plotting or saving a step by its index (also counted from the end) draws exactly that recorded
    step, on axes that cover all recorded steps, and saving writes exactly one file, named after the
    given path and the step's index counted from the start; for an index without a step nothing is
    drawn or written. A saved film has exactly one picture of every recorded step, in order, each on
    those common axes and with the colours on the common scale from zero to the highest recorded
    temperature. Plotting a mesh draws all its points and all its edges and nothing else, within the
    limits of the axes, which are never narrowed, and plotting a domain draws the rectangle; both
    create axes when none are given and return the axes used.""",
    ["inputs", "configurations"],
    "all solver answers, step indices, meshes, rectangles and limits of given axes",
    "No test draws anything.",
    ["simulation.py", "domain.py", "helpers.py"],
    [
        ("Simulation.plot_step, save_step, save_animation", "simulation.py"),
        ("Grid.plot, RectangleDomain.plot", "domain.py"),
        ("fig_axis, setup_axis", "helpers.py"),
    ],
    ["calls of the drawing library: what is drawn, limits, file names"],
)
prop(
    "C34",
    "Operations leave their inputs alone and objects do not influence each other",
    """No operation changes what it is given: refining, interpolating, integrating, locating points,
    comparing, plotting or building and solving steps leaves grids and domains as they were, tensor
    operations leave their operands as they were, and simulations leave their parameters as they were.
    Grids made from the same domain or grid are separate objects, so changing one does not change
    another. Steps copy the arrays handed to them and hand out copies, so changing those arrays later
    does not change the step. Several simulations, also of the same domain with the same parameters,
    can be advanced in any order and each gets exactly the models and records it would get alone.""",
    ["inputs", "histories", "schedules"],
    "all data, operations and interleavings of two simulations",
    "Tests use every object once and alone.",
    ["simulation.py", "mechanical_step.py", "thermal_step.py", "domain.py", "tensors.py"],
    [
        ("Simulation", "simulation.py"),
        ("steps: update_*, y(), theta()", "mechanical_step.py"),
        ("RectangleDomain.grid, refine", "domain.py"),
        ("Vector, Matrix, Tensor3D operations", "tensors.py"),
    ],
    ["objects and arrays before and after each operation; models handed to the optimiser"],
)

prop(
    "C35",
    "The steps respect equilibrium, symmetry and the global balances",
    """The problems the steps hand to the optimiser obey the physics they discretise. The undeformed
    unloaded body, turned and shifted at will, is in equilibrium at every uniform temperature, and no
    forces act inside a homogeneously deformed body of uniform temperature, with and without
    regularization. Turning and shifting previous and new deformation together changes neither the
    mechanical energy nor the heat problem. Without fixed sides the forces of the body balance the
    boundary traction exactly. A homogeneously deformed body at rest stays as warm as its surroundings;
    affine temperatures are steady inside it. What the body gains as heat is what dissipation, the
    coupling of temperature and strain, and the exchange through its whole boundary give, and the
    exchange is the heat transfer coefficient times the difference to the external temperature per unit
    of length.""",
    ["inputs"],
    "all strains, deformations, temperatures, tractions, external temperatures and test directions",
    """Tests run a few steps and look at stored numbers; a potential that is not frame indifferent, a
    boundary part missing in the exchange, a term evaluated at another strain or a quadrature that is
    too coarse go unnoticed.""",
    ["mechanical_step.py", "thermal_step.py", "helpers.py"],
    [
        ("objective of both mechanical models", "mechanical_step.py"),
        ("_add_objective", "thermal_step.py"),
        ("potentials", "helpers.py"),
    ],
    ["derivatives of the objectives handed to the optimiser"],
)

CLAIMED = [p["id"] for p in P]
NOT_APPLICABLE = {}
TECH = "symbolic execution of the real Python code with path forking; z3 decides every assertion"


def main():
    claimed = [i for i in CLAIMED if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    notes = {}
    try:
        from level_notes import NOTES as notes
    except ImportError:
        pass
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup.py",
        "checks": [
            {
                "property": i,
                "quick_cmd": f"/opt/venv/bin/python run.py {i}",
                "thorough_cmd": f"/opt/venv/bin/python run.py {i} --thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": TECH,
                "level": "model_checking",
                "level_note": notes.get(
                    i,
                    "Bounded symbolic verification of the real code: holds for all real-valued inputs "
                    "within the bounds listed in the evidence; floating point is idealised as real "
                    "arithmetic, the optimiser is an arbitrary-answer stand-in.",
                ),
            }
            for i in claimed
        ],
        "not_applicable": [
            {
                "property": p["id"],
                "reason": NOT_APPLICABLE.get(p["id"], "the check for this property is not built yet"),
            }
            for p in P
            if p["id"] not in claimed
        ],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
