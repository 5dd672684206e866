#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay readable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in state]} if state else {}),
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })


AD = "include/sleipnir/autodiff/"
OPT = "include/sleipnir/optimization/"
SOL = OPT + "solver/"
SU = SOL + "util/"
UT = "include/sleipnir/util/"
PY = "python/cpp/"

prop("A01", "Expression values equal the mathematics they were written as",
     "Every expression built from variables, constants, operators and math functions evaluates to the value of the written formula (to rounding) at every point where the formula is defined. "
     "After any sequence of changes to leaf values and evaluations in any order, of this or of expressions sharing parts with it, the value reported is the one for the current leaf values. "
     "Simplification during construction, such as folding constants, never changes the value (constant log(0), log10(0) and powers of 0 with nonpositive exponent aside, which unit tests pin to 0).",
     ["inputs", "programs", "histories"],
     "all expression DAGs over the operator set, with shared subterms and constant subterms, all leaf values in the domain (special values 0, 1, -1, ties and signed arguments included), all histories of assignments and evaluations",
     "The tests evaluate one operator at a time at a few points, straight after construction; they never combine pruning rules, sharing and re-evaluation.",
     [AD + "expression.hpp", AD + "expression_graph.hpp", AD + "variable.hpp"],
     [("operator overloads with pruning/constant folding", AD + "expression.hpp"), ("topological sort + update_values", AD + "expression_graph.hpp"), ("Variable::value cached graph", AD + "variable.hpp")],
     ["Variable::value()", "Variable::set_value()", "math functions on Variable"],
     [("Expression::val", "cached node value", AD + "expression.hpp"), ("Variable::m_graph", "cached evaluation order", AD + "variable.hpp")])

prop("A02", "Gradients and Jacobians are the exact first derivatives",
     "The gradient and Jacobian objects report, for every expression and every list of variables, the exact partial derivatives (to rounding) at the current leaf values, with each entry in the row and column of its own function and variable; at a tie of max or min and at a zero of abs, a combination of those of the two sides. "
     "The symbolic form they return evaluates to the same numbers, at construction and after any later change of values. "
     "Neither the order of evaluations nor other derivative objects over shared subexpressions influence the result.",
     ["inputs", "programs", "histories"],
     "all smooth expression DAGs, all variable lists (order, absent variables, subsets), all histories of value changes and interleaved derivative evaluations",
     "Tests differentiate isolated operators and a handful of formulas at fixed points; adjoint state left over from other objects and cached rows is only visible across histories.",
     [AD + "gradient.hpp", AD + "jacobian.hpp", AD + "expression.hpp", AD + "expression_graph.hpp"],
     [("reverse accumulation", AD + "expression_graph.hpp"), ("linear rows cached once", AD + "jacobian.hpp"), ("per-operator grad_l/grad_r and symbolic twins", AD + "expression.hpp")],
     ["Gradient::value()/get()", "Jacobian::value()/get()"],
     [("Expression::adjoint / adjoint_expr / scratch", "transient per-node derivative state shared by all objects", AD + "expression.hpp")])

prop("A03", "Hessians are the exact second derivatives and stay live",
     "The Hessian object reports the exact second partial derivatives (to rounding) of its function at the current leaf values, complete and symmetric in the default form and equal to its lower triangle in the lower-triangular form. "
     "The symbolic Hessian evaluates to the same numbers. "
     "This holds at construction and after any later change of values, whatever other derivative objects share the expression.",
     ["inputs", "programs", "histories"],
     "all twice differentiable expression DAGs, all variable lists and both triangle options, all histories of value changes",
     "Tests cover a few formulas at single points; the cached/non-cached split per row and the triangle filter only fail on particular structures and later values.",
     [AD + "hessian.hpp", AD + "gradient.hpp", AD + "expression_graph.hpp", AD + "expression.hpp"],
     [("gradient tree + second reverse sweep", AD + "hessian.hpp"), ("cached triplets for linear rows", AD + "hessian.hpp")],
     ["Hessian::value()/get()"])

prop("A04", "Expression type labels never understate an expression's degree",
     "An expression reported as constant has a value independent of every variable, one reported as linear is affine in the variables, and one reported as quadratic has constant second derivatives. "
     "A problem's reported cost and constraint types likewise never understate the hardest member. "
     "Consequently derivatives that are computed once because of the label remain right at every later point.",
     ["inputs", "programs"],
     "all expressions and all pairs of evaluation points; all problems",
     "The solver chooses algorithms and caches derivatives by these labels; tests check labels for single operators only.",
     [AD + "expression.hpp", AD + "expression_type.hpp", AD + "variable.hpp", OPT + "problem.hpp"],
     [("type computed while building nodes", AD + "expression.hpp"), ("max over constraints", OPT + "problem.hpp")],
     ["Variable::type()", "Problem::cost_function_type()/equality_constraint_type()/inequality_constraint_type()"])

prop("M01", "Matrix and block arithmetic equals ordinary matrix arithmetic",
     "Sums, differences, products, scalings, quotients, transposes, element-wise maps and reductions, block concatenation and constant constructors on variable matrices, blocks and mixed numeric operands give in every entry the value ordinary real-matrix arithmetic gives, for every shape including empty and 1x1. "
     "The result keeps doing so when leaf values change later. "
     "Reading a matrix's numeric values returns every entry at its own position.",
     ["inputs", "programs", "histories"],
     "all conformable shapes, storage orders of numeric operands, operand kinds (matrix, block, view of view, numeric) and programs composing them",
     "Tests use a few small, mostly square examples with distinct operand kinds tested separately.",
     [AD + "variable_matrix.hpp", AD + "variable_block.hpp"],
     [("operator overloads per operand kind", AD + "variable_matrix.hpp"), ("block(), VariableMatrix constructors", AD + "variable_matrix.hpp")],
     ["VariableMatrix/VariableBlock operators", "value()", "cwise_map/cwise_reduce/block/zero/ones"])

prop("M02", "Slices and views select and write exactly the specified elements",
     "Indexing a matrix, view or nested view with offsets and extents or with start/stop/step slices selects exactly the elements Python's slice rules select, in that order, for any sign of start, stop and step, including omitted, negative and out-of-range bounds. "
     "Writing through a view changes exactly those elements of the underlying matrix and no others. "
     "Iteration visits each element once in row-major order and agrees with indexing.",
     ["inputs", "programs"],
     "all (start, stop, step, length) combinations, all nestings of blocks, slices, rows, columns and segments, all writes through them",
     "Tests list a few slices per constructor; nesting of stepped and reversed views and write-through are sampled at single points.",
     [AD + "slice.hpp", AD + "variable_block.hpp", AD + "variable_matrix.hpp"],
     [("Slice::adjust", AD + "slice.hpp"), ("slice composition in nested operator[]", AD + "variable_block.hpp")],
     ["Slice::adjust()", "operator[] overloads", "block/segment/row/col", "iterators"],
     [("Slice start/stop/step, slice lengths", "what a view covers", AD + "variable_block.hpp")])

prop("M03", "In-place matrix operations are safe when operands overlap",
     "An in-place operation or assignment whose right-hand side shares elements with its target (the same matrix, a view of it, an overlapping block, or one of its own elements as scalar) stores the result computed from the operands as they were before the operation. "
     "No other element of the matrix changes.",
     ["inputs", "programs"],
     "all in-place operators and assignments, all overlap patterns between target and operand",
     "No test uses overlapping operands.",
     [AD + "variable_matrix.hpp", AD + "variable_block.hpp"],
     [("right-hand side evaluated into a temporary", AD + "variable_matrix.hpp")],
     ["operator=, +=, -=, *=, /= on matrices and blocks"])

prop("M04", "Linear solve and matrix exponential on variables are correct",
     "Solving AX = B with variable matrices returns an expression X satisfying AX = B, and exponentiating a square variable matrix returns its matrix exponential, for every size and every well-conditioned value. "
     "The result still satisfies this after the entries' values are changed.",
     ["inputs", "histories"],
     "all sizes, operand kinds and well-conditioned values at construction, all later well-conditioned values",
     "Tests solve one system per size at the values present at construction.",
     [AD + "variable_matrix.hpp", "src/autodiff/variable_matrix.cpp"],
     [("closed-form inverses for n <= 4, Householder QR above", "src/autodiff/variable_matrix.cpp"), ("Pade/Taylor scaling and squaring", AD + "variable_matrix.hpp")],
     ["solve(A, B)", "exp(A)"])

prop("M05", "Constraints mean exactly the relation that was written",
     "A comparison between scalars, matrices, blocks and numbers yields one constraint per element pair (a scalar side applies to every element), in element order, whose residual is zero or nonnegative exactly when the written relation holds at the current values. "
     "A constraint converts to true exactly when all its elements hold, and joining constraint lists keeps all members in order. "
     "Two-sided bounds hold exactly when both sides do.",
     ["inputs", "programs"],
     "all operand kinds and shapes on both sides, all relations, all values on both sides of the boundary",
     "Tests check each operator with one operand pair per kind.",
     [AD + "variable.hpp"],
     [("make_constraints broadcasting", AD + "variable.hpp"), ("EqualityConstraints/InequalityConstraints conversions and concatenation", AD + "variable.hpp")],
     ["operator==, <, <=, >, >=, bounds()", "constraint lists", "bool conversion"])

prop("S01", "A reported success is a feasible first-order optimal point",
     "Whenever a solve reports success, the decision variables hold a point that satisfies every constraint as the user wrote it and the first-order optimality conditions (stationarity with some multipliers, nonnegative inequality multipliers, complementarity) of the user's unscaled problem, within the requested tolerance up to the documented multiplier-size scaling; where active gradients are dependent, feasibility alone is guaranteed. "
     "This holds for unconstrained, equality-constrained and inequality-constrained problems, whatever the starting point or scaling of the functions.",
     ["inputs", "programs"],
     "all problems (convex or not, badly scaled, degenerate, redundant constraints), starting points and tolerances on which the solver reports success",
     "Tests check the solution of about twenty fixed problems from one starting point each.",
     [OPT + "problem.hpp", SOL + "newton.hpp", SOL + "sqp.hpp", SOL + "interior_point.hpp", SU + "kkt_error.hpp", SU + "problem_scaling.hpp"],
     [("termination on unscaled KKT error", SU + "kkt_error.hpp"), ("scaling undone for the error", SU + "problem_scaling.hpp"), ("solution written back", OPT + "problem.hpp")],
     ["Problem::solve() status", "decision variable values after solve"])

prop("S02", "Well-posed convex problems are solved to the optimum",
     "For a strictly convex problem with a feasible interior, independent active gradients, moderate scaling and a finite starting point not far out, a solve with default options reports success and the variables hold its unique optimum. "
     "This holds whatever mix of linear, quadratic and smooth convex terms, equalities, inequalities and bounds makes it up, in whatever order they were declared and whatever form (matrix, scalar, symmetric, maximize) was used.",
     ["inputs", "programs"],
     "all well-conditioned strictly convex problems of small size built through the API, all moderate starting points",
     "Tests solve four quadratic programs.",
     [OPT + "problem.hpp", SOL + "newton.hpp", SOL + "sqp.hpp", SOL + "interior_point.hpp", SU + "regularized_ldlt.hpp", SU + "filter.hpp"],
     [("Newton/SQP/interior-point selection", OPT + "problem.hpp"), ("regularized LDLT, filter line search", SU + "regularized_ldlt.hpp")],
     ["Problem::solve() status", "decision variable values after solve"])

prop("S03", "Failure statuses are justified and infeasibility is never success",
     "A problem without a feasible point never yields success, and a problem with one is never reported globally infeasible. "
     "Too-few-degrees-of-freedom is reported only when there are more equality constraints than variables, a nonfinite initial guess exactly when the cost, a constraint or a derivative is not finite at the starting point, and a globally infeasible status only when bounds or constant constraints contradict each other. "
     "A problem with nothing to solve succeeds; it and one given up before its first iteration leave all values unchanged.",
     ["inputs", "programs"],
     "all infeasible and feasible problems, all starting points, all combinations of empty, constant and degenerate constraints",
     "Tests include one problem per status.",
     [OPT + "problem.hpp", SU + "bounds.hpp", SU + "is_locally_infeasible.hpp", SOL + "exit_status.hpp", SOL + "interior_point.hpp", SOL + "sqp.hpp", SU + "all_finite.hpp"],
     [("DOF check, finiteness check, local infeasibility check, bound conflict check", SOL + "interior_point.hpp")],
     ["Problem::solve() status"])

prop("S04", "Callbacks and stopping limits follow their protocol",
     "Iteration callbacks run once per iteration in registration order, persistent ones last and untouched by clearing, with an iteration number that increases by one each time (it repeats once when feasibility restoration starts); a callback returning true ends the solve at once with the callback-stop status and the current iterate as solution, in every phase of the solver. "
     "The solver never performs more iterations than a given positive maximum and, outside feasibility restoration, reports it when it is the reason; when time runs out, the iteration is finished and the solve ends with the timeout status (a failed restoration when in restoration). "
     "On every exit with an iterate the variables hold that iterate.",
     ["histories", "configurations", "inputs"],
     "all sets and orders of callbacks, stop at every possible iteration and phase (including feasibility restoration), all iteration limits",
     "Tests use one problem, stop at the first iteration and count calls once.",
     [OPT + "problem.hpp", SOL + "newton.hpp", SOL + "sqp.hpp", SOL + "interior_point.hpp", SU + "feasibility_restoration.hpp", SOL + "options.hpp"],
     [("callback loop per iteration", SOL + "interior_point.hpp"), ("limit checks at loop end", SOL + "sqp.hpp")],
     ["Problem::add_callback/add_persistent_callback/clear_callbacks", "IterationInfo", "Problem::solve() status"])

prop("S05", "Iteration data shown to callbacks is the truth about the iterate",
     "In every iteration the data passed to a callback agree with each other and with the user's functions at the reported point: the cost gradient, constraint Jacobians and Lagrangian Hessian are those of the user's functions up to one fixed positive scale factor per function; in feasibility restoration, those of its enlarged problem (distance to the starting point plus weighted violations, with two nonnegative variables per constraint) with the same factors. Restoration takes over the iterate it interrupts and hands back its last one, with a violation reduced by a tenth or more and multipliers estimated for it. "
     "Slacks and inequality multipliers are strictly positive. "
     "Dimensions match the problem's variables and constraints, in their declaration order.",
     ["inputs", "programs"],
     "all problems, all iterations of all three solvers",
     "Tests never inspect iteration data beyond the count.",
     [SOL + "iteration_info.hpp", OPT + "problem.hpp", SOL + "newton.hpp", SOL + "sqp.hpp", SOL + "interior_point.hpp", SU + "fraction_to_the_boundary_rule.hpp", SU + "feasibility_restoration.hpp"],
     [("derivative refresh after each accepted step", SOL + "interior_point.hpp"), ("fraction-to-the-boundary step limits", SU + "fraction_to_the_boundary_rule.hpp")],
     ["IterationInfo passed to callbacks"])

prop("S06", "Feasible interior-point mode keeps inequalities satisfied",
     "With the feasible mode enabled and a starting point that strictly satisfies every inequality constraint, every iterate shown to callbacks and the final point satisfy every inequality constraint, until feasibility restoration has to give that up; each later step from a feasible iterate leads to a feasible one again. "
     "The mode does not change what counts as a solution: a success is still feasible and optimal.",
     ["inputs", "configurations"],
     "all inequality-constrained problems and strictly feasible starts",
     "The mode is exercised by no more than one test.",
     [SOL + "interior_point.hpp", SOL + "options.hpp"],
     [("slack reset to the constraint value in feasible mode", SOL + "interior_point.hpp")],
     ["Options::feasible_ipm", "IterationInfo::x", "final variable values"])

prop("S07", "Solves are reproducible and options have no side effects",
     "Solving the same problem from the same starting values gives bit-identical results and iterates every time, regardless of earlier solves in the process or thread, and regardless of diagnostics, sparsity-pattern output and passive callbacks. "
     "Solving again after changing starting values or parameters gives the same result as a freshly built problem with those values. "
     "A solve changes no variable other than the problem's decision variables.",
     ["histories", "configurations", "inputs"],
     "all problems, all histories of earlier solves and parameter changes in the process, all neutral options",
     "Tests solve each problem once.",
     [OPT + "problem.hpp", UT + "print_diagnostics.hpp", UT + "spy.hpp", UT + "profiler.hpp", UT + "pool.hpp"],
     [("derivative graphs rebuilt per solve", OPT + "problem.hpp")],
     ["Problem::solve() status, iterates and final values"])

prop("S08", "Bound constraints are recognised and combined exactly",
     "Among inequality constraints exactly those that restrict a single variable affinely (and name no other) are treated as bounds; the bounds found for a variable are the tightest lower and upper limits they imply, and a conflict is reported exactly when a lower limit exceeds an upper one. "
     "Moving a point inside its bounds leaves each coordinate strictly within finite bounds with nonempty interior, keeps coordinates that were already well inside, and never touches unbounded ones. "
     "Recognising bounds changes no variable value.",
     ["inputs", "programs"],
     "all lists of affine and other inequalities in any form and sign, all variable values, all bounds",
     "Tests cover a dozen hand-written bound lists at zero.",
     [SU + "bounds.hpp", OPT + "problem.hpp"],
     [("get_bounds", SU + "bounds.hpp"), ("project_onto_bounds", SU + "bounds.hpp")],
     ["get_bounds()", "project_onto_bounds()", "solve status on conflicting bounds"])

prop("O01", "Optimal control transcriptions enforce the given dynamics",
     "For every transcription method, time-step mode and dynamics kind, a solved optimal control problem's state trajectory follows the user's dynamics from step to step under the method's integration rule with the reported time steps and inputs. "
     "Initial, final and per-step constraints, input and state limits, and time-step limits given by the user hold on the trajectory, each applied at exactly the steps it was declared for with the right time argument. "
     "Shapes of the state, input and time-step trajectories match the declared number of steps.",
     ["inputs", "configurations", "programs"],
     "all dynamics (linear, nonlinear, time-varying), transcription methods, timestep modes, step counts and constraint sets",
     "Tests run four fixed systems with time-invariant dynamics.",
     [OPT + "ocp.hpp", OPT + "ocp/transcription_method.hpp", OPT + "ocp/timestep_method.hpp", OPT + "ocp/dynamics_type.hpp"],
     [("constrain_direct_transcription / collocation / single shooting", OPT + "ocp.hpp"), ("RK4 integration", OPT + "ocp.hpp")],
     ["OCP::X/U/dt", "OCP constraints"])

prop("X01", "Multistart returns the best result of all starts",
     "The multistart driver calls the user's solve exactly once per initial guess with that guess, and returns one of the produced results unmodified. "
     "A successful result is returned whenever any start succeeds, and among equally ranked results one with the lowest cost. "
     "This holds for any number of starts, any completion order of the threads and any mix of statuses and costs.",
     ["schedules", "inputs"],
     "all lists of initial guesses, all combinations of statuses and costs, all thread completion orders",
     "One test with two starts that both succeed.",
     [OPT + "multistart.hpp", "python/src/sleipnir/optimization/__init__.py"],
     [("std::async per guess + min_element", OPT + "multistart.hpp")],
     ["multistart() result", "calls of the user function"])

prop("C01", "Regularized factorizations have the right inertia and solve exactly",
     "When the regularized symmetric factorization reports success, the matrix it factored, which is the given one plus the regularization it reports, has exactly as many positive and negative eigenvalues as there are variables and equality constraints, and its solve returns that system's solution as accurately as factoring without pivoting allows (the sparse variant may lose that accuracy in rare cases it had to regularize). "
     "A matrix that already has the right inertia, with pivots clear of zero, is not modified. "
     "Dense and sparse variants both do so across any sequence of matrices of the same sparsity pattern.",
     ["inputs", "histories"],
     "all symmetric matrices of the solver's structure (any inertia, singular, rank-deficient Jacobians), all sequences of factorizations by one object",
     "No test covers the factorization classes directly.",
     [SU + "regularized_ldlt.hpp", SU + "dense_regularized_ldlt.hpp", SU + "sparse_regularized_ldlt.hpp", SU + "inertia.hpp"],
     [("delta/gamma escalation until the inertia matches", SU + "sparse_regularized_ldlt.hpp"), ("Inertia from the LDLT diagonal", SU + "inertia.hpp")],
     ["compute(), info(), solve(), hessian_regularization(), constraint_jacobian_regularization()"],
     [("previous regularization", "carried between factorizations", SU + "sparse_regularized_ldlt.hpp")])

prop("C02", "The optimality error measures all violations in the user's units",
     "The reported optimality error is the defined norm of stationarity, equality residual, inequality-minus-slack residual and complementarity for the given multipliers and barrier parameter, for each norm variant. "
     "The unscaled variant equals the same error computed from the user's unscaled functions and multipliers. "
     "It is zero only at points satisfying all conditions and grows with any violated one.",
     ["inputs"],
     "all derivative and multiplier vectors, scalings and barrier parameters, problem shapes with and without each constraint kind",
     "No test evaluates the error functions.",
     [SU + "kkt_error.hpp", SU + "problem_scaling.hpp"],
     [("kkt_error / unscaled_kkt_error", SU + "kkt_error.hpp")],
     ["kkt_error(), unscaled_kkt_error()"])

prop("C03", "The line-search filter accepts only acceptable trial points",
     "A trial point is accepted only if it improves cost or constraint violation sufficiently against the current iterate, or makes sufficient cost progress when the switching condition holds, and is not dominated by any point stored in the filter. "
     "The filter never drops protection it has given except on reset, and rejects points with nonfinite cost or with more than the maximum violation.",
     ["histories", "inputs"],
     "all sequences of trial points, accepted entries and resets",
     "No test covers the filter.",
     [SU + "filter.hpp"],
     [("try_add / is_acceptable / augment", SU + "filter.hpp")],
     ["Filter::try_add(), Filter::reset()"],
     [("m_filter", "stored (cost, violation) pairs", SU + "filter.hpp")])

prop("C04", "Step lengths respect the fraction-to-the-boundary rule",
     "The step length computed for a positive vector and a step is in (0, 1], keeps every component at no less than the allowed fraction of its value, and is the largest such length. "
     "A step that decreases no component too far is taken in full.",
     ["inputs"],
     "all positive vectors and steps of all sizes (empty included), all fractions in (0, 1), extreme magnitudes",
     "The tests check a few vectors.",
     [SU + "fraction_to_the_boundary_rule.hpp"],
     [("fraction_to_the_boundary_rule", SU + "fraction_to_the_boundary_rule.hpp")],
     ["fraction_to_the_boundary_rule()"])

prop("C05", "Problem scaling and norm helpers compute what they define",
     "Each automatic scale factor is 1 when the largest gradient entry of its function is at most the threshold and otherwise brings that entry down to the threshold, is positive and finite, and belongs to its own function. "
     "Row-norm, finiteness and local-infeasibility tests give exactly the answer of their definition for every sparse matrix, including empty rows, explicit zeros and nonfinite entries.",
     ["inputs"],
     "all sparse vectors and matrices (shapes, sparsity, storage, nonfinite entries)",
     "No test covers scaling; helpers are tested on single matrices if at all.",
     [SU + "problem_scaling.hpp", SU + "sparse_inf_norms.hpp", SU + "all_finite.hpp", SU + "is_locally_infeasible.hpp"],
     [("ProblemScaling constructors", SU + "problem_scaling.hpp"), ("inf-norm loops", SU + "sparse_inf_norms.hpp")],
     ["ProblemScaling", "sparse inf norms", "all_finite()", "is_*_locally_infeasible()"])

prop("C06", "Multiplier estimates and sparse assembly are exact",
     "The multiplier estimate is the least-squares solution of the stationarity conditions it is defined by, with nonnegative slack weighting and multipliers clamped as documented. "
     "Assembling blocks of a sparse matrix from stacked matrices and diagonals places every stored entry exactly once at its own row and column, in column-major order.",
     ["inputs"],
     "all gradients, Jacobians of any sparsity and shape (with and without equality or inequality rows), slacks and barrier parameters; all stacks of sparse matrices and offsets",
     "Tests use one problem; assembly is untested.",
     [SU + "lagrange_multiplier_estimate.hpp", SU + "append_as_triplets.hpp"],
     [("least-squares KKT system", SU + "lagrange_multiplier_estimate.hpp"), ("column-wise interleaving", SU + "append_as_triplets.hpp")],
     ["lagrange_multiplier_estimate()", "append_as_triplets(), append_diagonal_as_triplets()"])

prop("R01", "No memory error or undefined behaviour in valid use",
     "No sequence of valid operations on variables, matrices, views, derivatives, constraints and problems reads or writes outside live memory, uses uninitialised or freed memory, or executes undefined behaviour. "
     "This includes empty matrices, moved-from and reassigned objects, objects destroyed in any order and errors thrown from user callbacks.",
     ["programs", "inputs", "fault_sequences"],
     "all valid API programs with objects created, moved, copied, aliased and destroyed in any order; exceptions out of user callbacks",
     "The tests are not run under sanitizers and build each object once in the normal order.",
     [AD + "expression.hpp", AD + "variable_matrix.hpp", AD + "variable_block.hpp", UT + "intrusive_shared_ptr.hpp", UT + "pool.hpp", UT + "function_ref.hpp", OPT + "problem.hpp"],
     [("intrusive reference counts", UT + "intrusive_shared_ptr.hpp"), ("non-recursive destruction", AD + "expression.hpp"), ("pool free lists", UT + "pool.hpp")],
     ["every public API call, under AddressSanitizer and UndefinedBehaviorSanitizer"], None,
     "pool blocks poisoned while free, so that ASan sees use after free inside the pool")

prop("R02", "Expression storage is conserved: no leak, no double use, any depth",
     "At any quiescent moment the pool's count of blocks in use equals the number of expression nodes still reachable from live objects, and returns to its starting value when all of them are destroyed. "
     "Blocks handed out at the same time never overlap and are large enough for what is stored in them, also when scalar types of different sizes are mixed in one thread. "
     "Evaluating, differentiating and destroying expression chains of any depth does not exhaust the stack.",
     ["histories", "programs"],
     "all histories of allocations and releases of any sizes, all histories of building, copying, differentiating and destroying expressions, all depths and fan-outs",
     "Tests allocate two blocks; reference leaks in derivative sweeps are invisible to them.",
     [UT + "pool.hpp", "src/util/pool.cpp", AD + "expression.hpp", AD + "expression_graph.hpp", UT + "intrusive_shared_ptr.hpp"],
     [("free list per block size", UT + "pool.hpp"), ("worklist destruction", AD + "expression.hpp"), ("adjoint_expr reset after symbolic sweeps", AD + "expression_graph.hpp")],
     ["PoolResource::allocate/deallocate/blocks_in_use", "global_pool_resource().blocks_in_use()"])

prop("R03", "Ownership helpers follow their contracts under every history",
     "A shared pointer's object is destroyed exactly once, when and only when its last owner releases it, under any sequence of copies, moves, self-assignments, swaps and conversions. "
     "A scope guard runs its action exactly once at scope exit unless released or moved from, also during exception unwinding. "
     "A function reference calls the referenced callable with the given arguments and returns its result, including after copying and rebinding.",
     ["histories", "programs"],
     "all sequences of operations on a set of pointers, guards and references, including exceptions",
     "Tests perform one operation at a time on fresh objects.",
     [UT + "intrusive_shared_ptr.hpp", UT + "scope_exit.hpp", UT + "function_ref.hpp"],
     [("inc_ref_count/dec_ref_count", UT + "intrusive_shared_ptr.hpp"), ("m_active flag", UT + "scope_exit.hpp")],
     ["constructor/destructor/call counts of probe objects"])

prop("R04", "Concurrent use on separate threads equals sequential use",
     "Building, evaluating, differentiating and solving problems on any number of threads at once, each thread using its own objects, gives every thread the result it would get alone. "
     "There is no data race between such threads, whatever their interleaving and whenever threads start and end.",
     ["schedules"],
     "all interleavings of independent workloads on several threads, threads starting and ending while others run, multistart included",
     "Only the multistart test uses threads, without a race detector.",
     ["src/util/pool.cpp", UT + "pool.hpp", AD + "expression.hpp", OPT + "multistart.hpp", OPT + "problem.hpp"],
     [("thread-local pool", "src/util/pool.cpp"), ("no mutable globals", AD + "expression.hpp")],
     ["results per thread", "ThreadSanitizer reports"])

prop("F01", "Sparsity files and status texts describe what happened",
     "The sparsity-pattern files written during a solve contain the documented header and, for every iteration, exactly the sign pattern of that iteration's Hessian and constraint Jacobians (in feasibility restoration, those of its enlarged problem) at the right positions. "
     "Formatting a status, expression type or similar value yields the text of that value and no other, and distinct values have distinct texts.",
     ["inputs", "programs"],
     "all sparse matrices and titles, all iteration counts; all enumeration values and format widths",
     "Tests decode one file of one problem.",
     [UT + "spy.hpp", SOL + "exit_status.hpp", AD + "expression_type.hpp", SU + "inertia.hpp", OPT + "problem.hpp"],
     [("Spy::add", UT + "spy.hpp"), ("std::formatter specialisations", SOL + "exit_status.hpp")],
     ["H.spy/A_e.spy/A_i.spy", "std::format output"])

prop("F02", "Diagnostic output reports what the solve did",
     "With diagnostics on, the printed text states what the solve did: the exit conditions and problem structure in force, the solver chosen, "
     "one row per iteration in order (its number, kind, error, cost, infeasibility, complementarity, barrier parameter, regularization, step norms and sizes, backtracks), one row per second-order correction tried, "
     "the constraints violated or in conflict when the problem is found infeasible, how often and how long each part of the solve ran, and the exit status returned. "
     "With diagnostics off, nothing is printed.",
     ["inputs", "histories", "configurations"],
     "all problems and options, whichever solver, restoration, corrections, rejected steps, limits and stops occur; all values shown in rows",
     "No test looks at the text.",
     [UT + "print_diagnostics.hpp", UT + "profiler.hpp", SOL + "interior_point.hpp", SOL + "sqp.hpp", SOL + "newton.hpp", OPT + "problem.hpp"],
     [("print_iteration_diagnostics", UT + "print_diagnostics.hpp"), ("print_too_few_dofs_error and lists of violated constraints", UT + "print_diagnostics.hpp"), ("calls with alpha, backtracks", SOL + "interior_point.hpp")],
     ["standard output of solves"])

prop("P01", "Python matrices and expressions behave like NumPy's",
     "In Python, indexing, slicing, assignment, iteration, arithmetic, comparison and math functions on variables, variable matrices and blocks, alone or mixed with floats, ints and NumPy arrays of any supported layout, give the elements and values NumPy gives for plain two-dimensional arrays, with these differences: a single index and iteration go through the elements in row order, len() is the number of rows, "
     "* between matrices is the matrix product, and integer indices next to slices keep both dimensions. A combination of operands that is not supported raises an exception. "
     "Derivative objects return matrices equal to the C++ results as SciPy sparse matrices. "
     "Invalid indices and shapes raise an exception rather than returning wrong data.",
     ["inputs", "programs"],
     "all index expressions, operand kinds, shapes, dtypes and memory layouts",
     "Nothing in the local baseline runs Python; upstream's Python tests mirror the C++ samples.",
     [PY + "autodiff/bind_variable.cpp", PY + "autodiff/bind_variable_matrix.cpp", PY + "autodiff/bind_variable_block.cpp", PY + "autodiff/bind_gradient.cpp", PY + "autodiff/bind_hessian.cpp", PY + "autodiff/bind_jacobian.cpp", PY + "try_cast.hpp"],
     [("__getitem__/__setitem__ slice handling", PY + "autodiff/bind_variable_matrix.cpp"), ("__array_ufunc__ dispatch", PY + "autodiff/bind_variable_matrix.cpp")],
     ["Python API results vs NumPy"])

prop("P02", "Python problem solving honours options, callbacks and errors",
     "In Python, solving applies every keyword option to the solve it is passed to and rejects unknown ones, reports the same status and solution as the C++ library, and runs callbacks with correct iteration data, stopping when one returns true. "
     "An exception raised in a callback or in user dynamics reaches the caller, after which the problem is still usable. "
     "The Python multistart returns the best result under the same ranking as the C++ one.",
     ["inputs", "configurations", "fault_sequences"],
     "all option combinations, callback sequences, exceptions at any iteration, problems and optimal control problems built in Python",
     "Nothing in the local baseline runs Python.",
     [PY + "optimization/bind_problem.cpp", PY + "optimization/bind_ocp.cpp", PY + "optimization/solver/bind_iteration_info.cpp", PY + "optimization/solver/bind_exit_status.cpp", "python/src/sleipnir/optimization/__init__.py"],
     [("kwargs copied into Options", PY + "optimization/bind_problem.cpp"), ("GIL and signal handling in callbacks", PY + "optimization/bind_problem.cpp")],
     ["Problem.solve(**kwargs)", "callbacks", "multistart()"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
