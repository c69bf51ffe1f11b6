"""Writes /verif/properties.jsonl from the table below (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "A field is one function, whatever its layout and scale history",
 "A field represents one function: any sequence of layout changes, scale changes, reads, copies and writes through any layout or data-loading call leaves it representing the last data written, up to the documented truncation to its resolved modes. "
 "Moving between grid and coefficient layouts and changing grid scales never changes the resolved coefficients and never touches any other field. "
 "This holds for scalar, vector and tensor fields, real and complex, on every combination of bases including none.",
 ["histories", "configurations"], "all sequences of field operations up to a depth, over all basis families, dtypes, tensor ranks and scale menus",
 "Tests do one forward/backward round trip per basis at fixed scales; operation sequences (write, change scales, read, copy, reload) are not enumerated.",
 ["dedalus/core/field.py", "dedalus/core/distributor.py", "dedalus/core/domain.py"],
 [("layout towards/require/change_scales", "dedalus/core/field.py"), ("Transform increment/decrement", "dedalus/core/distributor.py")])

prop("C02", "Transforms evaluate and recover the basis functions exactly",
 "For every spectral basis, size, grid scale, dtype and transform library, transforming coefficients to the grid gives the values of the documented basis expansion on the basis grid, and transforming back recovers every valid mode the grid can resolve and zeroes invalid ones. "
 "Modes beyond the grid's resolution are truncated, never aliased into retained modes by the transform itself, and all transform libraries for a basis agree.",
 ["inputs", "configurations"], "every mode of every basis family at every small size, scale, axis position and library",
 "Tests compare libraries and check round trips of random data at a few sizes (mostly 8-16, even) and never compare with an independent evaluation of each basis function, nor cover odd sizes, size 1, strong truncation or every axis.",
 ["dedalus/core/transforms.py", "dedalus/core/basis.py", "dedalus/libraries/fftw/fftw_wrappers.pyx", "dedalus/libraries/dedalus_sphere", "dedalus/tools/jacobi.py", "dedalus/libraries/spin_recombination.pyx"],
 [("transform plans", "dedalus/core/transforms.py"), ("forward/backward_transform", "dedalus/core/basis.py")])

prop("C03", "The processes' local data tile the global data exactly",
 "For every domain, process mesh, grid scale and layout, the index ranges owned by the processes are disjoint and cover the global array, and each process's local shape, slices, elements, groups, grids, grid spacings and mode arrays describe exactly its own range. "
 "This includes processes that own nothing, and keeps indivisible coefficient groups on a single process.",
 ["configurations", "inputs"], "all small shapes, scales, layouts and meshes (including meshes larger than the data), for all ranks of each mesh",
 "The serial suite only ever sees one process, and the parallel suite one 4-process mesh with divisible sizes.",
 ["dedalus/core/distributor.py", "dedalus/core/basis.py"],
 [("Layout.chunks/local_elements/slices/global_shape", "dedalus/core/distributor.py"), ("elements_to_groups, chunk_shape, m_maps, ell_maps", "dedalus/core/basis.py")])

prop("C04", "Parallel transposes move every element to exactly its new owner",
 "Transposing distributed data between adjacent layouts, one field at a time or grouped, leaves every process holding exactly the slice of the same global array that the new layout assigns to it, for every shape, dtype, tensor rank, mesh and transpose library. "
 "Transposing back restores the original data bit for bit.",
 ["configurations", "inputs"], "all small global shapes (including empty local blocks), process counts 1-4, axes, dtypes, tensor ranks, group sizes and both libraries",
 "Transpose tests exist only through whole-field operations on one mesh with divisible sizes.",
 ["dedalus/core/transposes.pyx", "dedalus/core/distributor.py"],
 [("FFTWTranspose/AlltoallvTranspose/RowDistributor/ColDistributor", "dedalus/core/transposes.pyx"), ("Transpose.increment_group/decrement_group", "dedalus/core/distributor.py")])

prop("C05", "Results do not depend on the number of processes or the mesh",
 "Evaluating expressions, filling and gathering fields, building and stepping solvers and computing reductions give the same global result on every process count and mesh as on one process. "
 "Collective gathers and reductions return the same value on every process that is documented to receive it.",
 ["configurations", "programs"], "a fixed program list over all basis families x process counts 1-4 x all meshes, each compared with the serial result",
 "Only two parallel test files exist, run on 4 processes; one of them fails outright at the pinned commit.",
 ["dedalus/core/distributor.py", "dedalus/core/field.py", "dedalus/core/subsystems.py", "dedalus/core/solvers.py", "dedalus/core/evaluator.py"],
 [("layout chain", "dedalus/core/distributor.py"), ("gather/allgather, subsystem distribution", "dedalus/core/field.py, dedalus/core/subsystems.py")])

prop("C06", "Collective operations agree on every process under any schedule",
 "In any program whose processes make the same calls, all processes reach the same sequence of collective operations with matching arguments whatever the relative speed of the processes, so no schedule can deadlock or mismatch them. "
 "Decisions that depend on local quantities such as the clock or local data are agreed before they influence a collective operation, and files written by one process are complete before another process uses them.",
 ["schedules", "configurations"], "all interleavings of the processes' collective and file operations up to a preemption bound, for small parallel programs on 2-4 simulated processes, including all combinations of per-process clock readings",
 "Tests run each program once under whatever schedule MPI gives; clock skew and file-system races are never controlled.",
 ["dedalus/core/evaluator.py", "dedalus/core/distributor.py", "dedalus/core/solvers.py", "dedalus/tools/parallel.py", "dedalus/extras/flow_tools.py"],
 [("Sync, barriers around file creation", "dedalus/tools/parallel.py, dedalus/core/evaluator.py"), ("wall-time broadcast", "dedalus/core/evaluator.py, dedalus/core/solvers.py")])

prop("C07", "Analysis handlers fire exactly on their schedule",
 "Over any sequence of scheduled evaluations, a handler evaluates when and only when one of its requested cadences (iterations, simulation time, wall time) has come due since it last fired, or its custom schedule says so, each due point firing it once. "
 "Its tasks are then up to date with the fields at that call, group and explicit evaluation run exactly the requested handlers, and handlers do not disturb each other or the fields.",
 ["histories"], "all sequences of scheduler calls with iteration, time and wall-clock steps from a small menu, for all cadence combinations and several handlers at once",
 "Tests fire one handler at a fixed cadence; no history with skipped, repeated, irregular or simultaneous due points is enumerated.",
 ["dedalus/core/evaluator.py"],
 [("evaluate_scheduled/check_schedule/evaluate_group", "dedalus/core/evaluator.py")])

prop("C08", "Every scheduled write lands once, in order, with the right values and scales",
 "After any sequence of writes, the files of a file handler contain every write exactly once and in order, split into sets of at most the requested size, with the write number, simulation time, iteration, timestep and wall time of that write and each task's values in the requested layout and scales. "
 "The attached dimension scales match the stored data's axes, virtual and gathered files present the same global data, and no file belonging to a different set or handler is touched.",
 ["histories", "configurations"], "all write histories up to a depth over handler modes, set sizes, task layouts, scales, domains and file modes",
 "The output tests store one or two writes of a single field per configuration and the parallel ones fail at the pinned commit.",
 ["dedalus/core/evaluator.py", "dedalus/tools/post.py"],
 [("H5FileHandlerBase.setup_file/process/get_file", "dedalus/core/evaluator.py")])

prop("C09", "Output survives reopening, appending and crashes at any point",
 "Reopening an output directory in append mode continues set and write numbering after everything already there and never alters completed writes; overwrite mode removes only that handler's own previous output. "
 "If the program dies between any two file operations, every write completed earlier stays readable and intact, and a later append-mode run continues without damaging it.",
 ["crash_points", "histories"], "all points between file-system operations of every short history of create, write, set rollover, crash and reopen in either mode",
 "No test crashes a run, and only one appends to existing output.",
 ["dedalus/core/evaluator.py"],
 [("FileHandler init append/overwrite logic", "dedalus/core/evaluator.py"), ("open/close around each write", "dedalus/core/evaluator.py")])

prop("C10", "Loading a checkpoint restores exactly the stored state",
 "Loading any write of any output file restores every state variable's stored coefficients, the iteration count, simulation time and timestep of that write, and nothing else, for every layout, scale, dtype and set arrangement the data was stored in that resolves those coefficients; coefficient data of another shape is refused and leaves the field as it was. "
 "Continuing a run from a checkpoint with a self-starting scheme gives the same trajectory as the uninterrupted run.",
 ["histories", "configurations"], "all (writes, index, layout, scales, solver history before loading) combinations up to a bound",
 "Tests load nothing or a single final write into a fresh solver.",
 ["dedalus/core/solvers.py", "dedalus/core/field.py", "dedalus/core/evaluator.py"],
 [("load_state, load_from_hdf5", "dedalus/core/solvers.py, dedalus/core/field.py")])

prop("C11", "Evaluating an expression gives its pointwise meaning, in any layout",
 "Evaluating any expression of fields, numbers and operators yields the function that the expression denotes, whatever layouts and scales its operands are in beforehand and in whatever order sub-expressions are evaluated. "
 "Evaluation leaves every input field representing the same function, and repeated or shared sub-expressions do not alias each other's results.",
 ["programs", "histories"], "all expression trees up to a size over a small operator alphabet, times all operand layout and scale assignments, over Cartesian and curvilinear bases and tensor ranks",
 "Tests evaluate each operator once from one starting layout.",
 ["dedalus/core/arithmetic.py", "dedalus/core/operators.py", "dedalus/core/future.py", "dedalus/core/field.py"],
 [("Future.evaluate/attempt, check/enforce_conditions", "dedalus/core/future.py"), ("Add/Multiply/DotProduct/CrossProduct", "dedalus/core/arithmetic.py")])

prop("C12", "Cached and stored evaluations are never stale",
 "After any interleaving of field modifications, evaluations, scheduled or explicit handler evaluations and errors raised while evaluating, a later evaluation of an expression reflects the current field data, except for re-evaluation at the same explicit evaluation id. "
 "Fields returned earlier are never changed by later evaluations of expressions other than those containing the one they came from.",
 ["histories", "fault_sequences"], "all interleavings up to a depth of modify / evaluate / handler-evaluate / failing-evaluate operations on expressions sharing sub-expressions",
 "Tests evaluate each expression once and do not raise in the middle of an evaluation.",
 ["dedalus/core/future.py", "dedalus/core/evaluator.py"],
 [("last_id / last_out storage", "dedalus/core/future.py"), ("evaluator ids", "dedalus/core/evaluator.py")])

prop("C13", "Implicit matrices reproduce the operators they discretize",
 "For every linear expression, the matrices built for the implicit solve, applied to the coefficients of the variables, give the same coefficients as evaluating the expression directly, for every variable, every tensor component and every valid mode. "
 "This holds for sums, products by constants, compositions, boundary interpolation, integrals, lifts and conversions on every basis family.",
 ["programs", "inputs"], "all small linear expressions over all bases, dtypes and matrix couplings, each applied to every unit coefficient vector (hence to all inputs by linearity)",
 "Tests compare matrices with evaluation for single operators with one random field on selected bases.",
 ["dedalus/core/operators.py", "dedalus/core/arithmetic.py", "dedalus/core/basis.py", "dedalus/core/subsystems.py"],
 [("expression_matrices/subproblem_matrix", "dedalus/core/operators.py"), ("Subproblem.build_matrices", "dedalus/core/subsystems.py")])

prop("C14", "Non-constant-coefficient matrices equal multiplication",
 "The matrix of multiplication, dot product or cross product by a non-constant coefficient field equals the truncated exact product, for every mode of the coefficient and of the operand, every tensor component combination, either operand order, and every supported pair of bases. "
 "Combinations that are not supported are rejected instead of producing a wrong matrix.",
 ["inputs", "configurations"], "every (coefficient mode, operand mode, component) triple at small sizes over all basis pairs",
 "Tests use a few smooth coefficients with loose agreement; two of the NCC test files are not run at all.",
 ["dedalus/core/arithmetic.py", "dedalus/core/basis.py", "dedalus/tools/clenshaw.py", "dedalus/core/operators.py"],
 [("build_ncc_matrices, Gamma, clenshaw", "dedalus/core/arithmetic.py, dedalus/core/basis.py, dedalus/tools/clenshaw.py")])

prop("C15", "Symbolic manipulation preserves the meaning of expressions",
 "Splitting an expression by variables or operators gives parts that sum to it, with the dependent part containing and the independent part free of what was asked; replacing, expanding and reinitializing change only what they name and keep the value otherwise. "
 "Symbolic derivatives equal the true derivative of the evaluated expression, and the linearity and first-order checks accept an expression exactly when it has that property.",
 ["programs"], "all expression trees up to a size over the operator alphabet, for all variable choices",
 "Tests exercise these transforms only through a handful of complete problems.",
 ["dedalus/core/future.py", "dedalus/core/arithmetic.py", "dedalus/core/operators.py", "dedalus/core/field.py"],
 [("split/replace/sym_diff/frechet_differential/expand/require_linearity", "dedalus/core/*.py")])

prop("C16", "Problems accept exactly well-formed equations and discretize them faithfully",
 "Each problem class accepts an equation exactly when it has the documented form (linear left side, first-order in time or eigenvalue, conforming bases, tensor ranks and dtypes), and rejects the rest when added or built rather than solving something else. "
 "Accepted equations, given as text or as operator pairs, are represented so that the assembled matrices and right-hand side equal the stated equation, whatever order the equations and variables are listed in, with only equations whose condition holds applied to each mode group.",
 ["programs", "configurations"], "all small equation trees per problem class and all orders, conditions and text/tuple forms of small systems",
 "Tests add only well-formed equations in one order.",
 ["dedalus/core/problems.py", "dedalus/core/subsystems.py", "dedalus/tools/parsing.py"],
 [("add_equation, _check_equation_conditions, _build_matrix_expressions", "dedalus/core/problems.py")])

prop("C17", "Every timestepper follows its scheme for every timestep history",
 "For every time-integration scheme and every sequence of timesteps, each step produces exactly the update of that implicit-explicit scheme with its variable-step coefficients, including start-up steps, changed and repeated timesteps. "
 "Every scheme attains its order of accuracy for any timestep ratios, and no step depends on stale factorizations or stale history.",
 ["histories"], "all sequences of timesteps from a small menu up to a depth, for every scheme, on linear and nonlinear systems whose exact update is computed independently",
 "Tests integrate with one constant timestep and a loose tolerance.",
 ["dedalus/core/timesteppers.py", "dedalus/core/solvers.py"],
 [("MultistepIMEX.step/compute_coefficients, RungeKuttaIMEX.step", "dedalus/core/timesteppers.py")])

prop("C18", "Run-loop bookkeeping matches the steps actually taken",
 "After any sequence of steps, restarts and stop-criterion changes, the iteration count and simulation time equal the start values plus the steps taken, a run proceeds exactly while no stop criterion has been reached, and failed or rejected steps (such as non-finite timesteps) do not advance it. "
 "Symmetry enforcement happens at its documented cadence and only projects the state onto its valid modes.",
 ["histories"], "all short histories of step, bad step, criterion change, load and proceed operations over stop-criterion combinations",
 "Tests use a simple loop with one stop criterion.",
 ["dedalus/core/solvers.py"],
 [("InitialValueSolver.proceed/step/evolve/enforce_hermitian_symmetry", "dedalus/core/solvers.py")])

prop("C19", "Solutions do not depend on how the linear systems are arranged or solved",
 "The solution of a well-posed problem is the same for every matrix solver, matrix ordering option, expression storage option, equation and variable order, and matrix coupling choice. "
 "It satisfies every stated equation, boundary condition and gauge condition.",
 ["configurations"], "all combinations of solver options for a family of small problems over all basis families and problem classes",
 "Tests solve each problem with the default options and compare only with loose analytic tolerances.",
 ["dedalus/core/subsystems.py", "dedalus/core/solvers.py", "dedalus/libraries/matsolvers.py"],
 [("build_matrices permutations/preconditioners", "dedalus/core/subsystems.py"), ("matsolvers", "dedalus/libraries/matsolvers.py")])

prop("C20", "Subproblems partition the modes and move data losslessly",
 "For every domain and coupling, each valid coefficient of each variable and equation belongs to exactly one subproblem, gathering a subproblem's data and scattering it back restores it exactly, and invalid modes stay zero. "
 "The number of equations matches the number of unknowns for every group of a well-posed problem, and ill-posed ones are reported.",
 ["configurations", "inputs"], "every coefficient of every field over all basis families, dtypes, tensor ranks and matrix couplings at small sizes",
 "Tests never look at gather or scatter directly and solve only a few couplings.",
 ["dedalus/core/subsystems.py", "dedalus/core/basis.py"],
 [("Subsystem/Subproblem gather/scatter, valid_modes, group matching", "dedalus/core/subsystems.py")])

prop("C21", "Differential, integral and interpolation operators are exact",
 "Applied to any resolved function, gradient, divergence, curl, Laplacian, trace, transpose, skew, component extraction, derivatives, integrals, averages, interpolation and lifting give the analytic result exactly up to rounding, for every mode, tensor rank, position and basis family. "
 "Vector identities relating them hold for every field.",
 ["inputs", "configurations"], "every mode and tensor component at small sizes for all operators and bases, against analytic results and identities",
 "Tests check each operator on one or two smooth functions per basis.",
 ["dedalus/core/operators.py", "dedalus/core/basis.py", "dedalus/libraries/dedalus_sphere"],
 [("operator implementations", "dedalus/core/operators.py, dedalus/core/basis.py")])

prop("C22", "Array kernels agree with their mathematical definition",
 "Matrix application along an axis, sparse products and triangular solves, permutations, block assembly, index selection and interleaving produce the mathematically defined result for every shape, axis, dtype, sparsity pattern and in-place use, never writing outside their output. "
 "Unsupported arguments are rejected instead of returning a wrong answer.",
 ["inputs"], "all small shapes, axes, dtypes, sparsity patterns and aliasing choices",
 "The kernels have no direct tests; they run on the shapes other tests happen to use.",
 ["dedalus/tools/array.py", "dedalus/tools/linalg.pyx", "dedalus/tools/general.py"],
 [("apply_matrix/apply_sparse/solve_upper_sparse/...", "dedalus/tools/array.py"), ("apply_csr/solve_upper_csr", "dedalus/tools/linalg.pyx")])

prop("C23", "The adaptive timestep obeys its limits for every velocity history",
 "For every sequence of flow states, the adaptive timestep equals the safety factor over the largest grid-crossing frequency summed over all registered velocities and frequencies, limited by the given minimum, maximum, relative-change and threshold parameters, and is re-evaluated only at its cadence. "
 "The grid-crossing frequency is computed with the true grid spacing in every coordinate system, and zero or empty flows are handled.",
 ["histories", "configurations"], "all sequences of velocity amplitudes from a small menu over all parameter combinations and coordinate systems",
 "Tests compute a handful of single CFL values with one velocity and default limits.",
 ["dedalus/extras/flow_tools.py", "dedalus/core/operators.py", "dedalus/core/basis.py"],
 [("CFL.compute_timestep", "dedalus/extras/flow_tools.py"), ("AdvectiveCFL", "dedalus/core/operators.py, dedalus/core/basis.py")])

prop("C24", "Caches and dispatch return what an uncached call would",
 "A cached function, method, attribute or class returns for every call history what the uncached call would return, two calls share a result only if their effective arguments are equal, bounded caches stay within their bound, and instances never share each other's entries. "
 "Operator dispatch selects the one implementation whose conditions hold, or reports that none or several do.",
 ["histories", "inputs"], "all call histories up to a depth over colliding positional, keyword and default argument forms",
 "Caches have no direct tests.",
 ["dedalus/tools/cache.py", "dedalus/tools/dispatch.py"],
 [("CachedFunction/CachedMethod/CachedClass/CachedAttribute", "dedalus/tools/cache.py"), ("MultiClass", "dedalus/tools/dispatch.py")])

prop("C25", "Seeded random fields do not depend on the decomposition",
 "Filling a field randomly with a given seed, distribution and layout produces the same global data on every process count, mesh, chunking and slicing, different for different seeds, and with the requested shape and dtype. "
 "Low-pass filtering keeps exactly the requested modes.",
 ["configurations", "inputs"], "all slices and chunk sizes of small global arrays, all meshes and ranks, all layouts and distributions",
 "Tests only use random fields as input data on one process.",
 ["dedalus/tools/random_arrays.py", "dedalus/core/field.py"],
 [("ChunkedRandomArray", "dedalus/tools/random_arrays.py"), ("fill_random/low_pass_filter", "dedalus/core/field.py")])

prop("C26", "Equation text is parsed to the equation it states",
 "Every equation string is split at its single top-level equality sign, never inside brackets or comparison and keyword operators, and strings without exactly one such sign are rejected. "
 "Function-call definitions are split into exactly their head and arguments.",
 ["inputs"], "all strings up to a length over the alphabet of symbols, brackets, equality and comparison characters",
 "Only ordinary equations from the test problems are ever parsed.",
 ["dedalus/tools/parsing.py", "dedalus/core/problems.py"],
 [("split_equation/split_call/lambdify_functions", "dedalus/tools/parsing.py")])

prop("C27", "Eigenvalue and nonlinear solves return true solutions",
 "Every finite eigenpair returned by dense and sparse eigenvalue solves satisfies the stated generalized eigenvalue problem, loading a mode puts exactly that eigenvector in the state, left eigenvectors and their normalization are consistent, and sparse solves return the modes nearest the target. "
 "Each nonlinear boundary-value iteration performs the exact Newton update of the stated equations, whatever the order and history of solves on the same solver.",
 ["histories", "configurations"], "all solve histories up to a depth over groups, targets, options and problem families",
 "Tests compare a few leading eigenvalues with analytic values and iterate Newton to convergence once.",
 ["dedalus/core/solvers.py", "dedalus/core/problems.py", "dedalus/tools/array.py"],
 [("EigenvalueSolver.solve_dense/solve_sparse/set_state", "dedalus/core/solvers.py"), ("NonlinearBoundaryValueSolver.newton_iteration", "dedalus/core/solvers.py")])

prop("C28", "Global reductions and flow properties summarize the whole domain",
 "The minimum, maximum, mean and volume integral of any registered flow property equal those of the global data as of its latest evaluation, on every process and however the data is divided, including processes that hold nothing. "
 "Each property is reported under its own name only.",
 ["configurations", "histories"], "all divisions of small global arrays among 1-4 processes including empty parts, all properties and names, and evaluation histories",
 "Flow properties are not tested at all beyond CFL.",
 ["dedalus/extras/flow_tools.py", "dedalus/tools/parallel.py"],
 [("GlobalArrayReducer/GlobalFlowProperty", "dedalus/extras/flow_tools.py")])

prop("C29", "Post-processing visits and merges each stored write exactly once",
 "Dividing analysis sets or writes among any number of processes assigns every one to exactly one process in order, set discovery finds exactly the sets of the named output, and merging distributed or virtual files yields files with the same data, scales and metadata before any source is removed. "
 "Visiting writes calls the given function exactly once per stored write with the right indices.",
 ["inputs", "configurations", "crash_points"], "all small collections of sets and write counts, all process counts and ranks, and all failure points of a merge",
 "Post-processing tools have no tests.",
 ["dedalus/tools/post.py"],
 [("get_assigned_sets/get_assigned_writes/visit_writes/merge_*", "dedalus/tools/post.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
