"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "mpopt/mpopt.py"
P = []


def prop(id, title, st, over, q, why, mech, obs=(), note=""):
    P.append(dict(id=id, title=title, statement=st,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=[F], mechanism=[
                      dict(name=m, where=F + ":" + m) for m in mech],
                      observe_at=list(obs), hook_needed=None), note=note))


I, C, H, PR = "inputs", "configurations", "histories", "programs"

prop("C01", "Collocation nodes are the scheme's quadrature nodes",
     "For the schemes LGR, LGL and CGL and every polynomial degree p >= 1 the collocation nodes are p+1 strictly increasing points that start and end exactly at the ends of the configured reference interval and are the scheme's Gauss-Radau, Gauss-Lobatto or Chebyshev-Lobatto nodes. A configured reference interval other than [-1, 1] gives the affine image of the same nodes.",
     [I, C], "all degrees p >= 1, three schemes, every reference interval",
     "The tests check a few degrees on [-1,1] against stored numbers.",
     ["CollocationRoots"], ["Collocation.roots", "CollocationRoots._taus_fn"])
prop("C02", "Differentiation matrices are exact for polynomials of the segment degree",
     "For every scheme, degree, reference interval and mixture of degrees over the segments, the differentiation matrices (per segment, composite, and evaluated at arbitrary points other than the nodes, for first and second derivatives) applied to samples of a polynomial of at most the segment's degree give that polynomial's derivative. This holds for both ways of building them (symbolic and numerical).",
     [I, C, PR], "all schemes, degrees, degree mixtures, evaluation points, derivative orders 1 and 2",
     "The tests compare a handful of matrices of fixed degree with stored values.",
     ["Collocation.get_diff_matrix", "Collocation.get_composite_differentiation_matrix",
      "Collocation.get_composite_interpolation_Dmatrix_at"])
prop("C03", "Quadrature weights integrate polynomials of the segment degree exactly",
     "For every scheme, degree, reference interval and degree mixture, the quadrature weights integrate every polynomial of at most the segment's degree exactly, over the whole reference interval and over any requested sub-interval; LGR and LGL weights are exact to their Gauss order. The composite weights give the sum of the integrals over the segments, so a node shared by two segments carries the weight of both.",
     [I, C], "all schemes, degrees, degree mixtures and integration limits",
     "The tests check weights sum or single degrees; no composite weights over mixed degrees are integrated.",
     ["Collocation.get_quadrature_weights", "Collocation.get_composite_quadrature_weights"])
prop("C04", "Interpolation matrices reproduce polynomials of the segment degree",
     "For every scheme, degree, reference interval and degree mixture, interpolating samples of a polynomial of at most the segment's degree at arbitrary points gives that polynomial's values, in the order the points were given, also when segments have different numbers of points or none. Interpolating at the collocation nodes is the identity.",
     [I, C], "all schemes, degree mixtures and lists of points per segment, empty ones included",
     "The tests interpolate at a few fixed points of one or two degrees.",
     ["Collocation.get_interpolation_matrix", "Collocation.get_composite_interpolation_matrix"])
prop("C05", "The NLP enforces the user's dynamics at every collocation node",
     "For every problem, mesh, segment widths and optimizer class, the NLP handed to the solver contains for each phase, collocation node and state the equality that the derivative of the state's segment polynomial equals the user's dynamics evaluated at the unscaled state, control, parameter and time of that node, times the duration of the segment. Nothing that the problem does not ask for is imposed in addition.",
     [I, C, PR], "all problems (phases, states, controls, parameters, dynamics), meshes, width vectors, decision vectors",
     "The tests solve a few problems with one mesh and look at the cost or one constraint vector; they cannot see a term that is wrong only for unequal widths, mixed degrees, later phases or parameters.",
     ["mpopt.get_discretized_dynamics_constraints_and_cost_matrices",
      "mpopt.get_nlp_constraints_for_dynamics", "mpopt.discretize_phase"],
     ["casadi.nlpsol", "the solver call's inputs"])
prop("C06", "The NLP objective is the Bolza cost of the trajectory",
     "For every problem, mesh, segment widths and decision vector, the NLP objective equals the sum over the phases of the terminal cost at that phase's unscaled end points plus the collocation quadrature of the running cost over the phase in time, each segment weighted with its own duration. A running cost that is a polynomial of at most the segment degree along the trajectory is integrated exactly.",
     [I, C, PR], "all problems, meshes, widths, decision vectors",
     "The tests use equal widths and one degree, where misplaced weights or widths cancel.",
     ["mpopt.get_discretized_dynamics_constraints_and_cost_matrices", "mpopt.discretize_phase",
      "Collocation.get_composite_quadrature_weights"], ["casadi.nlpsol"])
prop("C07", "Path and terminal constraints hold wherever the user asked for them",
     "Every path constraint of every phase appears in the NLP as an inequality (value <= 0) at every collocation node of that phase, with the unscaled state, control, time and parameters of that node. Every terminal constraint appears as an equality (value = 0) in the phase's unscaled end and start states and times; phases without constraints get none.",
     [I, C, PR], "all problems with any number of constraints in any subset of the phases",
     "The tests have one or two problems with such constraints, all single phase or with the same constraints.",
     ["mpopt.get_nlp_constraints_for_path_contraints",
      "mpopt.get_nlp_constraints_for_terminal_contraints"], ["casadi.nlpsol"])
prop("C08", "Variable bounds reach the solver for every variable of every phase",
     "The bounds given for states, controls, start and final times and parameters of each phase reach the solver, scaled, for every node and component of that phase. The states at the first node of the first phase are fixed to the given initial state; no other phase start is fixed.",
     [I, C], "all problems, bounds (infinite ones included), scalings, meshes",
     "The tests look at the length of the bound vectors or at one state and one control.",
     ["mpopt.get_nlp_variables", "mpopt_adaptive.get_nlp_variables"], ["lbx/ubx of the solver call"])
prop("C09", "Linked phases are continuous up to the allowed state jumps",
     "For every pair of linked phases the NLP requires the state jump from the end of the first phase to the start of the second to stay within the bounds given for that link, and the controls and the time to be continuous. Phases that are not linked are not coupled.",
     [I, C], "all numbers of phases, link lists (any order, any subset), jump bounds, scalings",
     "The tests have one three-phase problem with default links and equality jumps.",
     ["mpopt.get_event_constraints"], ["casadi.nlpsol"])
prop("C10", "Scaling does not change the problem",
     "For every problem and every positive scaling of states, controls, parameters and time, the scaled transcription describes the same problem as the unscaled one: at corresponding decision vectors the objective is equal and a decision vector is feasible for one exactly when the corresponding one is feasible for the other. Solutions reported in original units do not depend on the scaling.",
     [I, C], "all problems and scale factors",
     "The tests set scaling on single problems and only check that they solve.",
     ["mpopt.create_variables", "mpopt.create_nlp", "post_process.get_trajectories"], ["casadi.nlpsol"])
prop("C11", "The time grid follows the segment widths",
     "The time assigned to each node of a phase starts at the phase's start time, ends at its final time, is increasing, has its segment boundaries at the cumulative width fractions, and within a segment is the affine image of the collocation nodes. The same times are seen by the user's functions, by the post-processed data and by the residual estimates.",
     [I, C, H], "all meshes, width vectors, start and final times, time scalings",
     "The tests use equal widths and look at end times only.",
     ["mpopt.get_discretized_dynamics_constraints_and_cost_matrices", "mpopt.init_trajectories"],
     ["time argument of the user's functions", "get_original_data"])
prop("C12", "The initial guess is the line between the guessed end values",
     "Without a given starting point the solver starts each phase from states and controls that vary linearly over the nodes between the guessed start and end values, with the guessed times and parameters and equal widths, each scaled and each placed at its own variable. The guess has the length of the decision vector and lies between its end values.",
     [I, C], "all numbers of phases, states, controls, parameters; scalings; non-zero start times",
     "The tests check lengths and a single state and control.",
     ["mpopt.init_solution_per_phase", "mpopt_adaptive.init_solution_per_phase"], ["x0 of the solver call"])
prop("C13", "Optional control constraints act where and as they are switched on",
     "In each phase where it is switched on: control values at the mid points between collocation nodes respect the control bounds, the slope of every control with respect to time at every node is within the slope bounds, and the slope in time of every control is equal on both sides of every segment boundary. Phases where an option is off, or controls without bounds, get no such constraint.",
     [I, C], "all subsets of phases and options, numbers of controls, degrees (1 included), widths, scalings",
     "The tests count constraint rows of single-control problems with equal widths.",
     ["mpopt.get_nlp_constraints_for_control_input_slope",
      "mpopt.get_nlp_constrains_for_control_input_at_mid_colloc_points",
      "mpopt.get_nlp_constrains_for_control_slope_continuity_across_segments"], ["casadi.nlpsol"])
prop("C14", "Post-processed data are the optimised trajectory in original units",
     "For every solution, the original data returned by the post-processor are exactly the states, controls and parameters of the decision vector, divided by their scales unless scaled data were asked for, at the nodes' times for the segment widths used in the solve, phase after phase in the order the phases were requested. Nothing is lost, duplicated or reordered.",
     [I, C, H], "all problems, decision vectors, phase selections, scaling flag, optimizer classes",
     "The tests check shapes of one single-phase problem.",
     ["mpopt.init_trajectories", "mpopt.process_results", "post_process.get_trajectories",
      "post_process.get_original_data"], ["post_process.get_data"])
prop("C15", "Interpolated data lie on the collocation polynomials",
     "The interpolated data returned by the post-processor, on the default grid or on points given by the user, are the values of the segment polynomials of the returned solution at the returned times, cover each requested phase from start to end in order, and agree with the original data at the nodes. The interpolation of a single phase by the optimizer (scaled values and derivatives on the reference interval, at given points or on the evaluation grid of the phase) lies on the same polynomials. This holds for every selection and order of phases, every mesh and every set of widths.",
     [I, C], "all meshes, phase selections, interpolation points per segment, scalings",
     "The tests check shapes on one mesh.",
     ["post_process.get_interpolated_data", "post_process.get_interpolated_time_grid",
      "post_process.get_interpolation_taus"], ["post_process.get_data"])
prop("C16", "Dynamics residuals measure the defect of the returned trajectory",
     "For every solution and evaluation grid the dynamics residual reported at a point of a phase is the derivative of the interpolating polynomial minus the user's dynamics at the interpolated state, control, parameters and time (times segment duration, in scaled units), reported with the time of that point. It vanishes at collocation nodes of a feasible solution, and relative residuals are these divided by the largest magnitude of the dynamics per state over the phase.",
     [I, C], "all problems, decision vectors, evaluation grids (fixed, mid-points, spectral, user given), residual types",
     "The tests look at shapes on one single-phase problem.",
     ["mpopt.get_dynamics_residuals", "mpopt.get_dynamics_residuals_single_phase",
      "mpopt.interpolate_single_phase"], ["get_dynamics_residuals"])
prop("C17", "State residuals compare with the integrated dynamics",
     "For every solution, the state residual reported at a point of a segment is the interpolated state minus the state at the segment start plus the integral of the dynamics (interpolated through the segment's evaluation points) up to that point, and the integrated state, control and time are reported with it (all in the NLP's scaled units). Relative residuals are these divided by the largest magnitude of the integrated state per component over the phase.",
     [I, C], "all problems, decision vectors, evaluation grids, phase selections",
     "The tests only run it on one problem.",
     ["mpopt.get_states_residuals", "mpopt.compute_states_from_solution_dynamics"], ["get_states_residuals"])
prop("C18", "Second derivatives are those of the collocation polynomials",
     "The second derivatives of states and controls reported at the points of a grid are the second derivatives of the segment polynomials (in the NLP's scaled units) with respect to the normalised segment coordinate at those points, reported with the times of those points, per phase and segment. This holds for every grid type and for grids given by the user.",
     [I, C], "all meshes, degrees, grids, phases",
     "The tests run it once and check the shape.",
     ["mpopt.get_state_second_derivative", "mpopt.get_state_second_derivative_single_phase"],
     ["get_state_second_derivative"])
prop("C19", "Evaluation grids cover every phase inside the right segments",
     "The evaluation grids consist of points inside the segments they are assigned to: the equally spaced grid contains every requested equally spaced point of the phase strictly between its ends exactly once, the mid-point grid the mid points between adjacent nodes, the spectral grid the interior nodes of a higher-order scheme. Mapping arbitrary increasing phase points to segments puts each in the segment that contains it, at the right place, losing none but the start point, for every set of widths.",
     [I, C], "all width vectors (round-off in their sum included), points (also on boundaries), intervals",
     "The tests map one set of points with equal widths.",
     ["mpopt.get_residual_grid_taus", "mpopt.compute_interpolation_taus_corresponding_to_original_grid"])
prop("C20", "Width refinement returns valid widths for every phase",
     "For every previous solution and refinement method (residual with equal-area or merge/split, control slope), the refined segment widths have one positive fraction per segment and phase, and sum to one in each phase; the control-slope method keeps them between the fraction limits up to the common factor that makes them sum to one. Phases already within tolerance keep their widths, the reported error is the largest residual over all phases, and without a solution or with one segment the widths are equal.",
     [I, C, H], "all solutions, residual distributions, previous widths, tolerances, methods, phases",
     "The tests run the refinement on one solved problem.",
     ["mpopt_h_adaptive.get_segment_width_parameters",
      "mpopt_h_adaptive.compute_seg_width_based_on_residuals",
      "mpopt_h_adaptive.compute_seg_width_based_on_input_slope"], ["get_segment_width_parameters"])
prop("C21", "Equal-area, merge/split and slope rules place segments as specified",
     "The equal-area rule places the segment boundaries so that every segment has the same area under the residual curve; the merge/split rule merges consecutive segments below tolerance and divides the segments above it, leaving the union of each group in place; the slope rule puts boundaries at the times of the steepest control slopes above the threshold, steepest first. The total is preserved and the order of segments is kept.",
     [I], "all residual curves, width vectors, tolerances, slope profiles",
     "The tests call each helper with one or two vectors.",
     ["mpopt_h_adaptive.get_roots_wrt_equal_area",
      "mpopt_h_adaptive.merge_split_segments_based_on_residuals",
      "mpopt_h_adaptive.compute_time_at_max_values",
      "mpopt_h_adaptive.compute_segment_widths_at_times"])
prop("C22", "The h-adaptive solve stops within its limits with matching widths",
     "The h-adaptive solve makes at most the requested number of NLP solves and at least one (none only if a given initial solution is already within tolerance, which is then returned), each warm started from the previous solution, stops as soon as the largest residual is below the tolerance or the widths hardly change, and records what it did. The solution it returns is that of its last NLP solve, and the widths it keeps for post-processing are the ones that solve used.",
     [H, I, C], "all problems, solver answers, tolerances, iteration limits, methods, initial solutions",
     "The tests run one problem to convergence, so the stop rules other than the first are hardly reached.",
     ["mpopt_h_adaptive.solve"], ["every solver call", "_nlp_sw_params", "iter_count"])
prop("C23", "Direct adaptive solve optimises valid widths with controlled residuals",
     "When segment widths are optimisation variables they are bounded by the given limits and sum to one in each phase, states and controls respect their bounds and the dynamics residual its tolerance at the mid points between nodes, phase by phase. Post-processing uses the optimised widths of the returned solution.",
     [I, C], "all problems, meshes, tolerances and width limits per phase, decision vectors",
     "The tests look at one problem with default settings.",
     ["mpopt_adaptive.get_nlp_constrains_for_segment_widths", "mpopt_adaptive.get_nlp_variables",
      "mpopt_adaptive.solve"], ["casadi.nlpsol"])
prop("C24", "Optimizers are isolated from each other and from the caller's objects",
     "An optimizer keeps its own copy of the problem: later changes of the user's problem do not change it, and it never changes the user's problem, options, initial solution or meshes. Results of a sequence of solves and queries on several optimizers equal the results of each one alone, and repeating a query gives the same answer.",
     [H, C], "all interleavings of operations on several optimizer objects and problems",
     "The tests build one object at a time.",
     ["mpopt.__init__", "mpopt.solve", "mpopt_h_adaptive.solve", "Collocation"], ["results of public calls"])
prop("C25", "Starting points, widths and solver options reach the solver",
     "Solve passes a given starting point and multipliers (under any of their accepted names), the given or equal width fractions, the chosen solver plugin and the given options overriding the defaults to the NLP solver. It creates a solver once and reuses it unless a reinitialisation is asked for, and returns the solver's answer unchanged.",
     [H, C, I], "all combinations and sequences of solve arguments and optimizer classes",
     "The tests solve with defaults.",
     ["mpopt.create_solver", "mpopt.solve", "mpopt.get_solver_warm_start_input_parameters",
      "mpopt_adaptive.solve", "solve"], ["casadi.nlpsol", "every solver call"])
prop("C26", "Solutions converge to known optima",
     "For problems with a known optimal solution (cost, final time, states, controls, parameters), every optimizer class, scheme, sufficiently fine mesh, scaling and split into phases returns that solution within discretisation accuracy. The values reported by the post-processor agree with it.",
     [I, C, PR], "all members of families of problems with closed-form solutions, meshes, schemes, scalings",
     "The tests compare one or two problems on one mesh with a stored cost.",
     ["mpopt", "mpopt_h_adaptive", "mpopt_adaptive", "mpopt_ph_adaptive", "solve"], ["solution", "get_data"])
prop("C27", "Returned trajectories satisfy the original continuous problem",
     "When the solver reports success, integrating the user's dynamics independently from the returned initial state with the returned controls and parameters reproduces the returned states within discretisation accuracy, and initial state, bounds, path and terminal constraints, phase links and slope limits hold in original units. The reported cost equals the cost of the returned trajectory.",
     [I, C, PR], "all problems, meshes, schemes, scalings that solve",
     "The tests never integrate a solution.",
     ["mpopt.solve", "mpopt.process_results"], ["solution", "get_data"])
prop("C28", "Problem validation accepts well-formed and rejects malformed problems",
     "Validation of a problem raises an error (an assertion error except for wrong array types or shapes) if any array has the wrong shape, any function returns the wrong number of equations or no cost, a constraint list is empty, a list does not cover all phases, or a lower bound of states, controls, parameters, times or links exceeds its upper bound, in any phase and component. It accepts every well-formed problem, including default ones, and does not change it.",
     [I, PR], "all single corruptions of well-formed problems of any size",
     "The tests validate a couple of valid problems.",
     ["OCP.validate", "OCP.__init__"], ["OCP.validate"])
prop("C29", "Both ways of building the numerical operators agree",
     "The symbolic and the numerical way of building the polynomial operators give the same matrices, weights, NLP and results, for every scheme, degree, interval and problem. Switching the way after objects were created does not corrupt objects created later.",
     [C, I, H], "all schemes, degrees, intervals, problems",
     "The tests use the symbolic default almost everywhere.",
     ["Collocation.D_MATRIX_METHOD", "Collocation.get_lagrange_polynomials"])
prop("C30", "Splitting a phase or a segment does not change what is feasible",
     "A trajectory made of polynomials of the segment degrees that is feasible for a mesh stays feasible with the same cost (for costs the quadrature integrates exactly) when a segment is divided, when its degree is raised, or when a phase is split into two linked phases. Trajectories that violate the dynamics stay infeasible.",
     [I, C, PR], "all polynomial trajectories, problems built around them, and mesh transformations",
     "The tests never compare two meshes or phase structures.",
     ["mpopt.create_nlp", "Collocation"], ["casadi.nlpsol"])
prop("C31", "Plots show the returned data",
     "Every plotting function draws exactly the (original or interpolated) data of the requested phases and components against their times, plot_residuals draws the 2-norm over the states of the residuals against their times and the residual panels of plot_phases draw the residuals of every state. Groups of components are stacked vertically (axis=1) or horizontally (axis=0) in their order. Figures and axes given by the caller are used (plot_phases with residual panels always makes its own) and every plotting method of post_process returns the figure and the axes it drew on. Plotting does not fail for any number of phases, segments, states and controls, and does not alter the data.",
     [I, C], "all problems, phase selections, component selections, residual combinations",
     "The tests call plot functions and look at nothing.",
     ["post_process.plot_phases", "post_process.plot_x", "post_process.plot_u",
      "post_process.plot_residuals", "post_process.plot_all"], ["matplotlib lines"])
prop("C32", "The ph-adaptive solve refines within its limits with a consistent mesh",
     "The ph-adaptive solve makes at most the requested number of refinements, stops once every phase is within tolerance, keeps polynomial degrees and the number of segments within their limits, and after every refinement the degrees, the number of segments and the widths of each phase (positive, summing to one) are consistent. A given initial solution starts the solve on the initial mesh. The solution it returns is that of its last NLP solve and can be post-processed with the mesh it keeps.",
     [H, I, C], "all problems, solver answers, limits, tolerances",
     "The tests run at most one refinement of one problem.",
     ["mpopt_ph_adaptive.__init__", "mpopt_ph_adaptive.solve_ph"], ["every solver call", "poly_orders", "n_segments"])

TECH = {
    "C01": "runtime oracle monitor: nodes vs independent root finder",
    "C02": "runtime oracle monitor: exactness on polynomial probes",
    "C03": "runtime oracle monitor: exactness on polynomial probes",
    "C04": "runtime oracle monitor: exactness on polynomial probes",
    "C10": "metamorphic runtime monitor at the solver boundary",
    "C22": "trace monitor of solver calls with scripted solver answers",
    "C24": "metamorphic history monitor over interleaved operations",
    "C25": "trace monitor at the solver boundary",
    "C26": "end-to-end runtime oracle (closed-form optima)",
    "C27": "end-to-end runtime oracle (independent integration)",
    "C28": "runtime monitor with mutated inputs (single corruption)",
    "C29": "differential runtime monitor",
    "C30": "metamorphic runtime monitor at the solver boundary",
    "C31": "runtime monitor of drawn artists",
    "C32": "trace monitor of solver calls with scripted and real answers",
}


def main():
    import glob
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != "note"}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    have = {os.path.basename(x)[:-3].upper() for x in glob.glob(ROOT + "/vmon/checks/c*.py")}
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in have:
            checks.append(dict(
                property=i, quick_cmd="./run %s" % i,
                thorough_cmd="./run %s --tier thorough" % i,
                evidence_file="evidence/%s.json" % i,
                technique=TECH.get(i, "runtime monitoring: captured NLP / results vs independent reference model"),
                level="exploration",
                level_note="Every execution explored is judged by an independent oracle; "
                           "assurance is limited to the generated problems, meshes and histories "
                           "counted in the evidence. Trusts casadi, numpy and the reference "
                           "model in vmon/ref.py."))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                   notes="No hooks in /repo: observation is at casadi.nlpsol and at the public API, "
                         "patched in the check's own process."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()
