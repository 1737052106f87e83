#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe, hook_needed=hook)))

NOPIPE = ("No numerical solver is available in the tested build, so none of the existing tests runs a problem through "
          "linearisation, scheme and solver; the sources of that pipeline are only compiled. ")

prop("C01", "The problem handed to the solver is exactly the problem the user stated",
 "For a control problem made of linear(ised) tasks, the matrices, vectors and bounds received by the numerical solver describe exactly "
 "the stated constraints (priority 0) and the stated weighted least-squares objectives (other priorities, each task scaled by the square "
 "root of its weights and priority scaling), over exactly the variables those tasks use. This holds for every constraint type, right-hand-side "
 "form, solver layout convention and placement (bound or general row), every row of the solver data being owned by exactly one task row.",
 ["inputs", "configurations"],
 "all constraint types x rhs conventions x matrix shapes/properties x weights x priorities x solver layouts, alone and in all pairs/triples of a task alphabet",
 NOPIPE + "Unit tests check single assignments on a few hand-picked conventions; the number of convention combinations is far beyond them.",
 ["src/LinearizedControlProblem.cpp", "src/scheme/WeightedLeastSquares.cpp", "src/solver/LeastSquareSolver.cpp", "src/scheme/Assignment.cpp", "src/scheme/AssignmentTarget.cpp", "src/scheme/MatrixAssignment.cpp", "src/scheme/helpers.cpp", "src/constraint/LinearizedTaskConstraint.cpp"],
 [("dispatch of tasks to bounds/equalities/inequalities/objectives", "src/scheme/WeightedLeastSquares.cpp createComputationData_"),
  ("row allocation in the solver data", "src/solver/LeastSquareSolver.cpp startBuild/addXxx"),
  ("convention conversion", "src/scheme/Assignment.cpp")],
 ["data received by a solver plugged in through the solver factory interface"])

prop("C02", "Editing a problem between solves gives the same problem as building it anew",
 "After any history of adding and removing tasks, adding and removing variable substitutions, changing weights, changing data of tasks and solving, the next solve "
 "hands the solver the same mathematical problem (same constraints, same weighted objectives, same variables, same solution) as a freshly created "
 "problem containing the tasks, substitutions and requirements now in force. No trace of removed tasks, former weights or former sizes remains, and solving again without edit "
 "changes nothing.",
 ["histories"],
 "all sequences of edits and solves up to a depth over an alphabet of tasks (bounds, equalities, inequalities, objectives, shared/own variables), weights and substitutions",
 NOPIPE + "Event handling is only reachable through histories with at least one solve between edits, whose number grows exponentially.",
 ["src/ControlProblem.cpp", "src/LinearizedControlProblem.cpp", "src/scheme/WeightedLeastSquares.cpp", "src/solver/LeastSquareSolver.cpp", "include/tvm/solver/internal/SolverEvents.h", "include/tvm/scheme/internal/ProblemComputationData.h", "src/internal/VariableCountingVector.cpp", "src/internal/RangeCounting.cpp"],
 [("problem change events", "include/tvm/scheme/internal/ProblemDefinitionEvent.h"),
  ("incremental processing of events", "src/scheme/WeightedLeastSquares.cpp processProblem, src/solver/LeastSquareSolver.cpp process")],
 ["data received by the solver", "values of the variables after a solve"])

prop("C03", "Solving writes the optimum of the stated problem into the user's variables",
 "When the solver reports success, each problem variable (including substituted ones) holds its own part of the solution, which satisfies every priority-0 task and "
 "minimises the weighted sum of squared residuals of the others, with minimum norm when the scheme is asked to damp an otherwise under-determined problem. When the solver reports failure, "
 "solving returns false. Updating and solving separately is equivalent to doing both at once.",
 ["inputs", "configurations"],
 "all problems built from a task alphabet (up to 3 tasks on up to 3 variables), all solver layouts and damping options",
 NOPIPE + "The read-back of the solution and the damping logic are never executed by tests.",
 ["src/LinearizedControlProblem.cpp", "src/scheme/WeightedLeastSquares.cpp", "src/solver/LeastSquareSolver.cpp", "src/hint/Substitutions.cpp", "src/VariableVector.cpp"],
 [("read-back of the solution", "src/scheme/WeightedLeastSquares.cpp solve_/setSolution"), ("damping", "include/tvm/scheme/WeightedLeastSquares.h options"), ("substituted values", "src/hint/Substitutions.cpp updateVariableValues")],
 ["variable values after solve()", "return value of solve()"])

prop("C04", "Substituting variables never changes the solution of a problem",
 "Declaring variable substitutions on equality tasks of a problem (single or several constraints, full-rank or with a declared smaller rank, chained, on whole variables or on parts of variables) leaves the solution of the "
 "problem unchanged: same feasible set and same optimum for every original variable. The substituted variables do not appear in the data given to the solver, and all substituted equalities hold after solving. A combination the library does not handle (a task using only a part of a variable substituted as a whole, interdependent substitutions whose actual rank is not the one deduced from the declared ones) is refused by an exception, never answered wrongly.",
 ["inputs", "configurations"],
 "all substitutions sets up to 3 over an alphabet of equality tasks (diagonal, identity, scaled, dense, rank-deficient, time-varying data) combined with every other task of the alphabet",
 "The existing substitution tests check a handful of fixed matrices for the substitution unit and none goes through a problem, an assignment of several substitutions or a second update.",
 ["src/hint/Substitutions.cpp", "src/hint/SubstitutionUnit.cpp", "src/hint/Substitution.cpp", "src/hint/GenericCalculator.cpp", "src/hint/DiagonalCalculator.cpp", "src/hint/AutoCalculator.cpp", "src/scheme/Assignment.cpp", "src/LinearizedControlProblem.cpp"],
 [("substitution ordering and grouping", "src/hint/Substitutions.cpp finalize"), ("elimination", "src/hint/SubstitutionUnit.cpp"), ("matrix and vector substitution rules", "src/scheme/Assignment.cpp")],
 ["solver data and solution with and without substitutions"])

prop("C05", "The update plan runs every needed computation exactly once, dependencies first",
 "For any graph of nodes with declared outputs, updates and dependencies, requesting a set of outputs yields an execution that runs each update on which the requested outputs depend (and no other) exactly once per execution, each one after all the updates it depends on. "
 "Cyclic dependencies are reported by an exception instead of being executed in an arbitrary order, and requesting more inputs or clearing the request later gives the same plan as requesting from scratch.",
 ["inputs", "histories"],
 "all small node graphs (all dependency relations among up to 4 updates/outputs over up to 3-4 nodes, cyclic or not) and all request/clear histories on them",
 "Tests use a few fixed mock robots; ordering errors only show for specific shapes of dependency graphs.",
 ["src/graph/CallGraph.cpp", "src/graph/DependencyGraph.cpp", "src/graph/Inputs.cpp", "include/tvm/graph/abstract/Node.hpp", "include/tvm/graph/internal/Inputs.hpp"],
 [("plan construction", "src/graph/CallGraph.cpp update/build"), ("topological order", "src/graph/DependencyGraph.cpp order")],
 ["order of calls to the user's update functions during an execution"])

prop("C06", "Dependency ordering, grouping and reduction are right for every directed graph",
 "For every directed graph, however it was built by adding nodes, adding edges and removing nodes: the flat order lists each node exactly once with its dependencies before it, the grouped order gives one group per connected component ordered the same way, and both are refused when the graph has a cycle. "
 "The reduced graph has exactly one node per strongly connected component and exactly the edges between different components. Removing a node removes its edges and renumbers the nodes after it, and nothing else.",
 ["inputs", "histories"],
 "all directed graphs up to 4 nodes with self loops (5 nodes in the thorough tier), all removal sequences, all construction histories up to a depth",
 "Tests use a few graphs drawn by hand, none with a root plus a separate cycle or removal histories.",
 ["src/graph/DependencyGraph.cpp", "include/tvm/graph/internal/DependencyGraph.h"],
 [("DFS order, Tarjan SCC, removal", "src/graph/DependencyGraph.cpp")],
 ["return values and exceptions of the graph operations"])

prop("C07", "Outputs of a node are usable exactly when the node and its bases enable them",
 "For every declaration of outputs, updates, static and dynamic disabling, and dependencies across a hierarchy of node classes, an output is reported and accepted as an input exactly when it exists and is enabled; asking for an unknown or disabled one, or selecting outputs after the selection is locked, raises "
 "an exception. Adding and removing inputs leaves exactly the inputs still required, and data flows declared through direct or internal dependencies are all honoured by the execution plan.",
 ["histories", "configurations"],
 "all sequences of enable/disable/lock operations and of input additions/removals up to a depth, on nodes with a two-level hierarchy",
 "Tests check one enabled and one disabled output; combinations with hierarchy, dynamic selection and locking are not reached.",
 ["include/tvm/graph/abstract/OutputSelector.h", "include/tvm/graph/abstract/Outputs.h", "include/tvm/graph/abstract/Node.hpp", "src/graph/Inputs.cpp", "include/tvm/graph/internal/Inputs.hpp"],
 [("dynamic output selection", "include/tvm/graph/abstract/OutputSelector.h"), ("static output declarations", "include/tvm/graph/abstract/Outputs.h SET_OUTPUTS/DISABLE_OUTPUTS"), ("input bookkeeping", "include/tvm/graph/internal/Inputs.hpp")],
 ["isOutputEnabled and exceptions", "inputs listed by a node", "calls made by an execution plan"])

prop("C08", "Variables, derivatives and sub-variables share one consistent storage",
 "For any way of deriving (time derivatives and primitives) and slicing (sub-variables of sub-variables, of derivatives, of spaces) a variable, asking twice for the same derivative gives the same variable, going down then up comes back to the start, a sub-variable reads and writes exactly its slice of its super-variable at "
 "the same derivation order, and creating such a view never changes any value. Containment, intersection, sizes and spaces follow the index ranges, and views stay valid as long as someone holds a handle to any of them.",
 ["histories"],
 "all sequences up to a depth of derive/primitive/slice/write/release operations on variables of every space kind",
 "Tests follow a few fixed chains; interactions between creation order, values written earlier and handle release are not covered.",
 ["src/Variable.cpp", "include/tvm/Variable.h", "src/Space.cpp", "include/tvm/Space.h", "include/tvm/Range.h"],
 [("derivative and sub-variable creation", "src/Variable.cpp dot/subvariable/primitive"), ("ownership between a variable and its derivatives", "src/Variable.cpp")],
 ["values, names, sizes, predicates and identities of variables"])

prop("C09", "A variable vector maps its variables to contiguous, disjoint, complete ranges",
 "After any sequence of additions and removals, a vector of variables contains exactly the variables added and not removed, in order, without duplicates, its size is the sum of their sizes, each variable (and each sub-variable) is mapped to its own range, and values set or read "
 "globally agree with values set or read per variable. Whole-vector operations (copy, union, derivative, containment, index lookup, zeroing) agree with the same operation on a plain list of variables.",
 ["histories"],
 "all sequences of operations up to depth 4-5 over an alphabet of variables, sub-variables and vectors",
 "Tests check fixed sequences; stale mapping after a removal or duplicate/sub-variable mixtures require longer histories.",
 ["src/VariableVector.cpp", "include/tvm/VariableVector.h"],
 [("mapping computation", "src/VariableVector.cpp"), ("stamp-based caching of the mapping", "include/tvm/VariableVector.h")],
 ["mapping ranges, sizes, values, iteration"])

prop("C10", "Counted variable sets keep an index exactly while some user still needs it",
 "After any sequence of additions and removals of (sub-)variables or index ranges, the set contains exactly the indices added more often than removed, reported as sorted maximal disjoint ranges with increasing offsets, and the count is never negative; a variable flagged simple was really added as such. In split mode, the partition isolates every boundary between "
 "differently counted pieces, and iterating over variables according to it yields every piece once, in order; removing something that is not in the set is refused and changes nothing.",
 ["histories"],
 "all sequences of add/remove of all ranges within 0..5 up to depth 4-6, and of sub-variables of several variables",
 "Tests check a few hand-written sequences of the many overlapping patterns.",
 ["src/internal/RangeCounting.cpp", "include/tvm/internal/RangeCounting.h", "src/internal/VariableCountingVector.cpp", "include/tvm/internal/VariableCountingVector.h", "include/tvm/internal/VariableVectorPartition.h"],
 [("interval bookkeeping", "src/internal/RangeCounting.cpp"), ("cached variable vector", "src/internal/VariableCountingVector.cpp")],
 ["ranges, variables, max count, intersection predicates"])

prop("C11", "Declared and deduced matrix properties are always true of the matrix",
 "Whenever a matrix is described as zero, identity, minus identity, multiple of identity, diagonal, triangular, symmetric, (semi-/non-singular) definite, invertible or constant, through construction with any argument order or through sums, differences, products and scalar "
 "multiplications of described matrices, the description is true of the actual numerical matrix. Contradictory descriptions are refused, consistent ones are accepted, and valid combinations of described matrices never throw. A matrix or vector assigned anew, also in a linear function or constraint, carries the description it was last given with (none when none is given).",
 ["inputs"],
 "all combinations of properties with witness matrices (all 1x1/2x2 integer matrices with small entries, 3x3 structured ones) and all binary operations on them",
 "Tests check a few entries of the combination tables, which are large and hand-written.",
 ["src/internal/MatrixProperties.cpp", "include/tvm/internal/MatrixProperties.h", "include/tvm/internal/MatrixWithProperties.h", "src/function/BasicLinearFunction.cpp", "src/constraint/BasicLinearConstraint.cpp"],
 [("deduction tables and operators", "src/internal/MatrixProperties.cpp")],
 ["property predicates", "exceptions on construction"])

prop("C12", "Every task dynamics computes exactly its documented control law",
 "For every function value, velocity, normal acceleration, right-hand side, gain form (scalar, vector, matrix, derived from another gain) and composition (reference, feed-forward, clamping, one-step), the desired derivative computed by a task dynamics equals its documented law at every update, including after gains or inputs change. "
 "Clamping never changes the direction when it scales, never exceeds the bounds, and invalid gains are refused.",
 ["inputs", "configurations", "histories"],
 "all dynamics x gain forms x grids of error/velocity values x sequences of input and gain changes",
 "Tests check one or two numerical points per dynamics, with one gain form.",
 ["src/task_dynamics/Proportional.cpp", "src/task_dynamics/ProportionalDerivative.cpp", "src/task_dynamics/Constant.cpp", "src/task_dynamics/None.cpp", "src/task_dynamics/OneStepToZero.cpp", "src/task_dynamics/Reference.cpp", "include/tvm/task_dynamics/Clamped.h", "include/tvm/task_dynamics/FeedForward.h", "src/task_dynamics/TaskDynamicsImpl.cpp"],
 [("control laws", "src/task_dynamics/*.cpp updateValue"), ("composition", "include/tvm/task_dynamics/Clamped.h, FeedForward.h")],
 ["value of the task dynamics after an update"])

prop("C13", "The velocity damper enforces its safety distances and never jumps",
 "Along every trajectory of distances, the damper imposes no limit beyond the influence distance, an upper limit on approach speed that reaches exactly zero at the safety distance (and, for a fixed damping, forces retreat below it) within it, row by row, with automatic damping fixed when a row enters the influence zone from the value "
 "that makes the limit continuous with the current speed plus offset and released when it leaves. Its acceleration form equals the velocity form advanced by one time step, and invalid parameters are refused.",
 ["histories", "inputs"],
 "all sequences of distances/speeds from a grid up to depth 4-6, all row counts 1-2, fixed and automatic damping, velocity and acceleration forms",
 "Tests follow one fixed trajectory per mode; the hysteresis state depends on the whole history of each row.",
 ["src/task_dynamics/VelocityDamper.cpp", "include/tvm/task_dynamics/VelocityDamper.h"],
 [("damping law and hysteresis", "src/task_dynamics/VelocityDamper.cpp updateValueD/updateValueDD")],
 ["value of the task dynamics after each update"])

prop("C14", "A linear constraint means what was declared, whatever its form",
 "For every constraint type and right-hand-side convention, with or without a right-hand side, from matrices, from a linear function or from a task and its dynamics, the Jacobian blocks per variable, the value and the right-hand sides exposed by the constraint describe exactly the declared relation on exactly the declared "
 "variables. Setting matrices or vectors later, or moving the function and the dynamics, is reflected at the next update; absent right-hand sides are inaccessible and wrong sizes are refused.",
 ["inputs", "configurations", "histories"],
 "all constraint types x rhs conventions x variable/sub-variable sets x task dynamics x update sequences",
 "Tests check one constraint of each kind with fixed data.",
 ["src/constraint/BasicLinearConstraint.cpp", "src/constraint/LinearConstraint.cpp", "src/constraint/Constraint.cpp", "src/constraint/LinearizedTaskConstraint.cpp", "src/constraint/RHSVectors.cpp", "src/function/LinearFunction.cpp", "src/function/BasicLinearFunction.cpp", "src/function/IdentityFunction.cpp", "src/internal/FirstOrderProvider.cpp"],
 [("constraint data", "src/constraint/BasicLinearConstraint.cpp"), ("linearisation", "src/constraint/LinearizedTaskConstraint.cpp")],
 ["jacobian(), value(), l(), u(), e() of constraints after update"])

prop("C15", "An assignment copies a constraint into its target under every convention",
 "For every source constraint (type, right-hand-side convention), target layout (type, right-hand-side convention, row offset, bound or matrix rows), scalar and anisotropic weight, matrix or vector structure (zero, identity, minus identity, diagonal, full) and substitution, running an assignment writes exactly the converted, scaled and "
 "substituted data into the rows and columns of the target, and nothing elsewhere. Re-running after the source, weight, mapping or target location changed writes the current data at the current place.",
 ["inputs", "configurations", "histories"],
 "all source type x source rhs x target type x target rhs x weights x structure combinations with all re-targeting/update histories up to depth 3",
 "Tests go through several conventions with fixed numbers and single runs; bound targets, anisotropic weight updates and substitutions combine into hundreds of cases.",
 ["src/scheme/Assignment.cpp", "src/scheme/AssignmentTarget.cpp", "src/scheme/MatrixAssignment.cpp", "include/tvm/scheme/internal/CompiledAssignment.h", "include/tvm/scheme/internal/CompiledAssignmentWrapper.h", "include/tvm/scheme/internal/Assignment.hpp"],
 [("compiled copy operations", "include/tvm/scheme/internal/CompiledAssignment.h"), ("convention conversion", "src/scheme/Assignment.cpp")],
 ["content of the target matrices and vectors, including untouched guard cells"])

prop("C16", "Expressions written by the user denote exactly that function and relation",
 "Any affine expression over variables (sums, differences, scalings, matrix products, constants, sub-variables, repeated variables, nested parentheses) and any chained comparison of it (or of a function or variable) with scalars or vectors yields a function whose value, velocity and Jacobian, and a task whose type and bounds, are those of the expression as "
 "mathematics reads it. Comparisons with wrongly sized data are refused.",
 ["programs"],
 "all expression trees up to a depth over the operators offered, with all comparison operators and operand orders",
 "Tests compile a fixed list of expressions and check few values.",
 ["include/tvm/utils/AffineExpr.h", "include/tvm/utils/internal/AffineExprOperators.h", "include/tvm/utils/internal/AffineExprDetail.h", "include/tvm/utils/ProtoTask.h", "include/tvm/utils/internal/ProtoTaskDetails.h", "include/tvm/function/BasicLinearFunction.h", "src/function/BasicLinearFunction.cpp", "src/Task.cpp"],
 [("operator overloads", "include/tvm/utils/internal/AffineExprOperators.h"), ("expression evaluation", "include/tvm/function/BasicLinearFunction.h")],
 ["value, Jacobian and bounds of the resulting function and task"])

prop("C17", "Change notifications reach exactly the living registrations, whatever dies first",
 "For every order of registering callbacks, triggering changes, and destroying, moving or replacing tokens, callback owners, tasks and problems, each trigger calls each callback whose token is alive exactly once and calls no other, and no operation touches a destroyed object. A token whose counterpart is gone "
 "reports itself unpaired.",
 ["histories"],
 "all sequences of create/pair/move/destroy/trigger operations up to depth 5-6 on up to 3 tokens and 2 managers",
 "Tests check a few pairings; lifetime bugs need specific destruction orders.",
 ["include/tvm/internal/PairElementToken.h", "include/tvm/internal/CallbackManager.h", "include/tvm/requirements/abstract/SingleSolvingRequirement.h", "src/LinearizedControlProblem.cpp", "src/ControlProblem.cpp"],
 [("paired tokens", "include/tvm/internal/PairElementToken.h"), ("callback registry", "include/tvm/internal/CallbackManager.h")],
 ["calls received by callbacks", "isPaired", "memory errors under sanitizers"])

prop("C18", "A requirement takes effect the same way however and whenever it is set",
 "Priority, weight and anisotropic weight of a task have the same effect whether given at construction, assigned as an object or a value, or changed later through any of the offered setters: listeners are told of every change, scalar and anisotropic weights combine multiplicatively, and the next solve uses the new values. Invalid values "
 "(negative weights or priorities) are refused by every setter and leave the former value in force.",
 ["histories", "inputs"],
 "all sequences of requirement setters up to depth 3 with valid and invalid values, before and after building the problem",
 "Tests check constructors and two setters; none checks the effect on a built problem.",
 ["include/tvm/requirements/abstract/SingleSolvingRequirement.h", "include/tvm/requirements/SolvingRequirements.h", "include/tvm/requirements/Weight.h", "include/tvm/requirements/AnisotropicWeight.h", "include/tvm/requirements/PriorityLevel.h", "src/ControlProblem.cpp", "src/scheme/Assignment.cpp"],
 [("value setters with notification", "include/tvm/requirements/abstract/SingleSolvingRequirement.h"), ("weight change events", "src/ControlProblem.cpp notify, src/solver/LeastSquareSolver.cpp updateWeights")],
 ["listeners' calls", "objective rows received by the solver"])

prop("C19", "A refused operation on a problem leaves the problem as it was",
 "Whenever adding or removing a task or substitution, changing a requirement, or preparing a solve raises an exception, the problem still contains exactly the tasks and substitutions it contained before the refused operation, and correcting the cause makes the following solves give the same result as a problem that never saw the refused operation.",
 ["fault_sequences", "histories"],
 "all histories up to a depth with one refused operation inserted at every position",
 NOPIPE + "Error paths of the problem classes are not exercised.",
 ["src/ControlProblem.cpp", "src/LinearizedControlProblem.cpp", "src/scheme/WeightedLeastSquares.cpp", "src/hint/Substitutions.cpp", "src/hint/Substitution.cpp"],
 [("checks before modification", "src/LinearizedControlProblem.cpp, src/scheme/WeightedLeastSquares.cpp")],
 ["exceptions", "later solver data"])

prop("C20", "Each priority level of a hierarchical problem gets exactly its own tasks",
 "In the hierarchical scheme, the data received by the solver contain, level by level in increasing priority order, exactly the rows of the tasks of that level (scaled by their weights), and bounds only for tasks of the first level that can be bounds, for every assignment of tasks to levels including empty levels. The number of levels, their "
 "sizes and the variables always match the tasks, also after any change made to the problem between solves.",
 ["configurations", "inputs"],
 "all assignments of up to 4 tasks of the alphabet to up to 4 levels, under every layout of a reference solver",
 NOPIPE + "The hierarchical scheme is only compiled in the tested build.",
 ["src/scheme/HierarchicalLeastSquares.cpp", "src/solver/HierarchicalLeastSquareSolver.cpp", "src/scheme/helpers.cpp"],
 [("level dispatch", "src/scheme/HierarchicalLeastSquares.cpp createComputationData_"), ("row allocation per level", "src/solver/HierarchicalLeastSquareSolver.cpp")],
 ["data received by a solver plugged in through the hierarchical solver factory interface"])

prop("C21", "Function checking and direct evaluation agree with the function's mathematics",
 "Evaluating a function through the direct-call helper, with variables given in any order, all or one by one, by value or as one stacked vector, gives the same value, Jacobian, velocity and normal acceleration as setting the variables by hand and updating, and leaves no trace in other variables. The function checker accepts every function "
 "whose derivatives are right and rejects every function one of whose entries of Jacobian, velocity or normal acceleration is wrong by more than its (relative) tolerance at a configuration it tries.",
 ["inputs", "programs"],
 "all argument orders and call forms up to 3 variables, all single-entry corruptions of each derivative of linear, quadratic and bilinear functions",
 "Tests check one call form and one erroneous entry per derivative kind.",
 ["src/utils/UpdatelessFunction.cpp", "include/tvm/utils/UpdatelessFunction.h", "src/utils/checkFunction.cpp", "include/tvm/utils/checkFunction.h"],
 [("argument parsing", "src/utils/UpdatelessFunction.cpp"), ("finite difference checks", "src/utils/checkFunction.cpp")],
 ["returned values and verdicts"])

prop("C22", "Diagnostics report exactly the graph that is executed",
 "For every node graph, the recorded log and the probe list every output (with its present value, for those whose accessor is registered) on which the requested outputs depend and nothing else, each once; trees of dependencies follow the real dependencies and are cut exactly where the user's predicate says so. Destroyed nodes are never dereferenced and objects later "
 "created at the same address are not confused with them.",
 ["inputs", "histories"],
 "all small node graphs, all predicates over their outputs, and create/destroy histories",
 "The diagnostic tests are not run in the tested build.",
 ["src/graph/Log.cpp", "src/graph/Logger.cpp", "src/diagnostic/GraphProbe.cpp", "src/diagnostic/details.cpp", "include/tvm/diagnostic/GraphProbe.h"],
 [("log recording", "src/graph/Logger.cpp"), ("probe traversal", "src/diagnostic/GraphProbe.cpp")],
 ["returned lists and trees"])

prop("C23", "Accumulated problem changes reduce to their net effect",
 "For every sequence of added and removed constraints, bounds, objectives, variables and weight changes recorded between two solves, the changes eventually applied are the net effect: an item added then removed (or removed then added back) between two solves is left untouched, an item appears at most once, and nothing is lost; "
 "events sent to several problems are delivered once, in order, to each.",
 ["histories"],
 "all sequences up to depth 6 of add/remove events over 2 items per category, and queue/send/process interleavings over 2 receivers",
 "Tests of this part are not in the tested build and check single events.",
 ["include/tvm/solver/internal/SolverEvents.h", "include/tvm/scheme/internal/ProblemComputationData.h", "include/tvm/scheme/internal/ProblemDefinitionEvent.h"],
 [("cancellation of pairs", "include/tvm/solver/internal/SolverEvents.h")],
 ["accessors of the accumulated changes"])

prop("C24", "Each supported numerical solver receives and answers the same stated problem",
 "For each of the numerical back-ends the library knows how to drive, the arguments of the back-end's solve call describe the stated least-squares problem (cost, constraints, bounds, layout and sign conventions), the answer is mapped back to the variables, and options and edits between solves keep this true.",
 ["configurations", "histories"],
 "all task-alphabet problems and short edit histories through each back-end adapter compiled against stand-in back-ends that record their arguments and solve exactly",
 "None of the back-ends is available in the tested build: the adapters are not even compiled.",
 ["src/solver/QLDLeastSquareSolver.cpp", "src/solver/QuadprogLeastSquareSolver.cpp", "src/solver/LSSOLLeastSquareSolver.cpp", "src/solver/LexLSLeastSquareSolver.cpp", "src/solver/LexLSHierarchicalLeastSquareSolver.cpp"],
 [("layout and sign conventions of each back-end", "src/solver/*.cpp")],
 ["arguments of the back-end's solve call", "variable values"])

prop("C25", "Solving respects the user's Eigen allocation mode",
 "In builds where Eigen allocations are monitored (assertions and EIGEN_RUNTIME_NO_MALLOC), a resolution, the first one, a later one, after any edit, or one that is refused, leaves the allocation mode (utils::set_is_malloc_allowed) and the records made with override_is_malloc_allowed as the user set them; and it never hits a forbidden Eigen allocation: whatever is built is built with allocations explicitly allowed, and updating the functions, dynamics, substitutions and solver data of the problem does not allocate (the stand-in numerical solvers and the QR of large matrices by the Cholesky options excepted). Overrides and restorations nest as a stack.",
 ["histories", "configurations"],
 "all edit histories up to a depth, in each allocation mode set directly or by an override, each back-end and the hierarchical scheme; all functions, sizes and dynamics of an alphabet; all sequences of mode changes up to depth 6",
 "The tests set the mode around a resolution but need numerical solvers absent from the tested build, and never look at the mode afterwards.",
 ["include/tvm/scheme/abstract/ResolutionScheme.h", "include/tvm/utils/memoryChecks.h", "src/hint/Substitutions.cpp", "src/hint/SubstitutionUnit.cpp"],
 [("scoped override in the schemes", "include/tvm/scheme/abstract/ResolutionScheme.h"), ("stack of records", "src/utils/memoryChecks.cpp")],
 ["utils::is_malloc_allowed", "Eigen's allocation assertion"])

prop("C26", "Planes and clocks say what was last given, and are up to date when used",
 "After any sequence of settings, a geometry::Plane returns the normal, offset, point and derivatives last given to it, the offset being always the one of the point when the point was given, and nothing else being changed. When a plane is driven by an integrator (setIntegrator, either form), every update using outputs of the plane is executed after the integrator's updates for these outputs, which are executed exactly once and only when needed, and sees the plane at the present time of the Clock; a Clock counts exactly the advances made.",
 ["histories", "configurations"],
 "all sequences of 4 settings, all correspondences between the outputs of the integrator and of the plane, all subsets of outputs used by one or two readers or requested directly, 3 executions with or without time passing",
 "Planes and clocks are only used by the robot features, which the tested build does not contain.",
 ["include/tvm/geometry/Plane.h", "src/geometry/Plane.cpp", "include/tvm/Clock.h", "src/Clock.cpp"],
 [("offset computation", "src/geometry/Plane.cpp"), ("setIntegrator", "include/tvm/geometry/Plane.h")],
 ["plane accessors", "calls of the integrator"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
