NOTES = "All checks: python3 check.py <id> [--tier quick|thorough] [--replay FILE]. They compile /repo's current sources with AddressSanitizer (content-addressed object cache in /verif/build) and explore exhaustively. Genuine defects found: known_findings.txt."
LEVEL = {
 "C06": "All digraphs <= 4 nodes (thorough: 5), all removal sequences, all histories to depth 8 (9); order/grouping/reduction compared with closure-based definitions.",
 "C01": "All pairs/triples (thorough: every back-end) of a 24-task palette x requirements x back-ends: data handed to each real solver wrapper compared, in canonical form over scalar unknowns, with the problem written independently as matrices, at the first resolution, at the second one and after each weight changes.",
 "C02": "All edit/solve histories to depth 3-4 (thorough 4-5) over 11 tasks, weights, data, substitutions, damping, one or two schemes, 6 back-ends; each solve compared with the problem stated by the tasks now in force.",
 "C03": "All pairs/triples of the palette with priorities, damping, split or joint update, all failure patterns over 4 solves, all 3-4 step control sequences: values found in the variables compared with the exact optimum (active-set enumeration) of the stated problem.",
 "C08": "All sequences to depth 4-5 (thorough: one more) of derive/primitive/slice/duplicate/rename/write/release operations on a variable (Euclidean or manifold space) and its views: every view's values, names, sizes, predicates and identities compared with an index-set model after each history, under AddressSanitizer.",
 "C09": "All sequences to depth 4 (thorough 5) of operations on one vector over 8 variables and on two vectors over 5 variables: content, order, mapping (cached and direct), indices, values, derivative compared with a list of index ranges.",
 "C10": "All sequences to depth 4-6 (one more in thorough) of additions/removals of ranges within 0..2/0..4/0..6, of 6-7 overlapping (sub-)variables (Euclidean, manifold, derivative; split or not; with queries, clear and re-created variables), and all partitions of lists of up to 3 variables: compared with per-index counters.",
 "C11": "Every constructor call (all subsets, orders and values of the arguments), every operator on every pair of distinct descriptions, compared with all small matrices abiding the operands; all short histories of assignments/copies of matrices carrying properties; all short histories of matrices and constant terms given anew (with and without description) to linear functions and constraints.",
 "C12": "P and PD: every gain form (9 pairs, critically damped) with every sequence of up to 2 (3) gain/input changes incl. refused ones; 8 dynamics x 8 wrappers (clamp, feed-forward, nested) x bound forms x inputs; clamping grid; all small invalid parameters: values compared with the laws entry by entry.",
 "C13": "Every trajectory of 4 steps over 6 distances x 3 speeds (two rows: 4 x 2 each) x 3 configurations x order x automatic/fixed x sign x wrappers, compared with the documented law and with the stated guarantees (zero at ds, retreat, continuity at entry); all small invalid parameters.",
 "C14": "Every declaration (1-2 (3) terms over 5 overlapping (sub-)variables, types, conventions, constructors, size errors) and every short sequence of setter calls and variable moves; LinearizedTaskConstraint for 6 dynamics x types x forms x requested outputs: Jacobian by scalar columns, values, right-hand sides, accessibility compared with the declaration.",
 "C15": "Every source type/convention/8 structures x target type/convention x 5 weightings x 9 substitutions, then all short histories of data, weight, mapping, target and substitution changes; 1-2 (3) constraints intersected in bounds; every kind of compiled assignment with all histories of 3 (4) steps: rows interpreted in the target's convention compared with the eliminated, weighted source rows, sentinels elsewhere.",
 "C16": "740 expressions built from all leaf/operator/constant combinations of the stated grammar and 5760 relations (operands x comparison forms x right-hand sides x dynamics): Jacobian by scalar columns, constant, value, velocity, properties, type and bounds compared with the written meaning, under AddressSanitizer.",
 "C05": "Real CallGraph on real nodes: all 512 internal dependency relations of one node, 480k declarations on two nodes, all relations of three and four single-update nodes (2.8M, cyclic or not), with requests, further requests, clears and removals; the executed calls are compared with the dependency closure (exactly once, dependencies first, cycles refused).",
 "C17": "Real tokens, callback managers, event sources and problems: 2.0M operation sequences (creation, pairing, moves, destruction, registration, reentrant callbacks, shared tasks, destroyed problems) up to depth 5-6 under AddressSanitizer, every trigger compared with the list of living registrations.",
 "C18": "Every construction and setter sequence (depth 3) of each requirement type with valid and invalid values, all subsets given to a group, and every sequence of 2 changes of weight, anisotropic weight and priority of a built problem on every back-end: data received by the solver compared with the statement.",
 "C07": "30 real classes with all static declarations over three levels, every sequence of 3-5 enable/disable/lock/unlock on three selector hierarchies, 1.1M sequences of input additions/removals, 90k dependency declarations through a two-level node: acceptance, bookkeeping, ownership and executed plan compared with the declarations.",
 "C21": "Every call form (positional, by variable in any order with repetitions and omissions, concatenated; vectors and lists) of every output on functions of up to 3 variables, in sequences of calls, against closed-form mathematics and hand-driven evaluation, with all variables watched; every single argument defect refused; the checker run on right functions and on every single wrong entry of Jacobian, velocity and normal acceleration (3 amplitudes, 6 ways of giving configurations, errors present at one configuration only).",
 "C22": "All graphs of up to 3 nodes within a shape alphabet (3 classes, output/internal/input/direct dependencies) and all predicates over the values met: listings, sub-graphs and trees compared with the declared graph; all histories of 6 operations creating, dropping and requesting nodes with immediate reuse of poisoned memory slots; all add/remove histories of 4 operations on a control problem compared with the structures the call graph executes.",
 "C23": "All add/remove/weight sequences over 1-2 items per category with a presence model; batches of net changes handed to the four real solver wrappers and compared with a fresh build; queue/process interleavings over 2 shared tasks, 2 problems, 3 receivers replayed into a knowledge model.",
 "C20": "real scheme and LexLS hierarchical wrapper against a recording stand-in; every combination of a task with level and weight (single, pairs, triples, quadruples over chosen alphabets), and every sequence of edits between solves; the levels received are compared row by row with the stated ones",
 "C25": "every edit history of depth 2 from several problems, in the four ways of setting the allocation mode, each back-end and the hierarchical scheme, with substitutions and refused problems; every function x size x dynamics x type solved three times while Eigen allocations are forbidden; every sequence of 6 mode changes against a stack",
 "C24": "15 settings of the four back-end wrappers against recording stand-ins with the real calling conventions: every single task and pair of the palette, every short edit history with successes and failures, one scheme shared by two problems; data, options, status and answers compared with the stated problem",
 "C04": "real library code; every substitution alone, every pair and triple of a 21-entry alphabet (ranks, several constraints or variables, parts, interdependences, each calculator) with tasks of the palette, weighted and hierarchical schemes, exact stand-in back-ends, then data changes, and every short sequence of additions and removals; feasibility, all equalities and the optimal cost compared with the unsubstituted problem; the affine maps of the substitutions compared as sets, also for every chain of 2 or 3 substitutions of scalars, pairs and vectors with and without right-hand side",
 "C19": "stateless exploration of the real code: 16 kinds of refused operations (4 of them also in the hierarchical scheme) placed at every position of histories with up to 2 (thorough 3) other changes, every way of correcting the cause, one or two refused solves; tasks, constraints and substitutions compared around the refusal, solver data or optimum compared with the stated problem afterwards",
 "C26": "every sequence of 4 settings of a plane; every integrator/plane/reader wiring of two readers with 3 executions, against the documented quantities",
}
NA = {}
