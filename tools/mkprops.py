import json
S="src/qpSWIFT.c"; X="src/Auxilary.c"; L="src/ldl.c"
P=[]
def add(id,title,statement,over,q,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
add("P01","An optimal exit is a certificate",
"Whenever a solve returns the optimal exit code, the point it leaves behind is a solution to the tolerances then in force: the Euclidean norms of the stationarity residual Px+c+G'z+A'y, of the equality residual b-Ax and of the inequality residual h-Gx-s are each below the relative tolerance, every s and z entry is nonnegative, and s'z/m is below the absolute tolerance. This holds whatever problem was given (feasible or not, convex or not, badly scaled, with non-finite entries), through the sparse and both dense entry points, and after any sequence of solve calls and option changes on the same instance.",
["inputs","histories","configurations"],"all problem data, dimensions, option values and sequences of set-up, option change and solve calls",
"the unit tests call single kernels on fixed vectors and the demos solve one problem each; nothing recomputes the optimality conditions from the caller's data at a reported optimum",
[S,X],[("stopping test on all residual norms and complementarity","QP_SOLVE in src/qpSWIFT.c"),("residual computation","computeresiduals in src/Auxilary.c")],
["return value of QP_SOLVE","x, y, z, s of the instance after the solve"],[("exit flag","outcome of the last solve","stats->Flag")])
add("P02","Well-posed convex problems are solved",
"Every convex problem with moderately scaled data, at most as many (linearly independent, well-conditioned) equality constraints as variables, a strictly feasible point and an attained bounded set of optima (when P is singular: with all variables bounded and at most a few dozen of them) is reported optimal under the default settings using fewer than half of the default iteration limit, whichever entry point is used. The objective at the returned x then agrees with the true optimal value to within the error that the tolerances allow, and x itself agrees with the true minimiser when P is well conditioned and positive definite. (Isolated data for which a pivot cancels or the two step lengths make the method cycle are excepted: the failure must persist when the data are perturbed.)",
["inputs","configurations"],"all convex problems of the stated class (diagonal, sparse, dense, banded, low-rank, singular and zero P; with and without equalities; bounds, general, redundant, degenerate and all-zero inequality rows), dimensions up to a few hundred in the thorough tier",
"the demos solve one or two fixed problems; the tests never run a solve, so a regression that fails only for a particular size, structure or scaling goes unseen",
[S,X,L],[("predictor-corrector loop","QP_SOLVE in src/qpSWIFT.c"),("KKT assembly","formkktmatrix_full in src/Auxilary.c"),("starting point","kkt_initialize in src/Auxilary.c"),("factorisation","LDL_numeric in src/ldl.c")],
["exit code, iteration count, objective value and x after a solve"])
add("P03","Unsolvable problems end cleanly and are never called optimal",
"A problem that has no solution (clearly inconsistent inequality or equality constraints, an objective unbounded below on the feasible set, or NaN or infinite entries in its data) is never reported optimal. The solve call returns after at most the configured number of iterations with a documented non-optimal exit code, and the instance can be solved again and cleaned up normally.",
["inputs","histories"],"all infeasible, unbounded and non-finite problem data, every iteration limit",
"no test solves a problem without a solution",
[S,X],[("stopping test comparisons fail on NaN and on large residuals","QP_SOLVE in src/qpSWIFT.c"),("iteration limit","QP_SOLVE in src/qpSWIFT.c")],
["exit code and iteration count"])
add("P04","Iteration limit, tolerances and exit codes are honoured call by call",
"A solve call takes at most the configured number of iterations, adds exactly the iterations it took to the running iteration count, and returns the maximum-iterations code exactly when it used all of them without meeting the stopping test on the way; otherwise it stops at the first point that meets the tolerances in force. Calling solve again continues from where the last call stopped: splitting a run into any number of calls visits bit-for-bit the same points, and the last call's exit code describes the last call.",
["histories","configurations","inputs"],"all sequences of (change maxit / abstol / reltol, solve) on one instance and all ways to split a run",
"no test calls the solve routine, let alone twice on the same instance",
[S],[("iteration loop and flag assignment","QP_SOLVE in src/qpSWIFT.c"),("settings","settings struct in include/Auxilary.h")],
["return value, iteration count, iterates between calls"],[("iteration count","iterations since set-up","stats->IterationCount"),("sigma","centering parameter carried between iterations","options->sigma")])
add("P05","Sparse, row-major and column-major set-up describe the same problem",
"Given the same matrices, set-up from compressed columns, from row-major dense arrays and from column-major dense arrays yields instances that hold exactly the same P, G and A (every nonzero entry, including denormal and non-finite ones, at its own position, and nothing else) with the same dimensions, and solving them gives the same exit code and the same solution. Compressed columns may also contain explicit zeros, unsorted row indices within a column and repeated entries (which add up), and equality constraints are absent when the count is zero or when A or b is not supplied.",
["inputs","configurations"],"all matrices and shapes, every entry point and every way to leave out the equality constraints",
"the tests convert a handful of fixed dense matrices and never compare the entry points with each other",
[S,X],[("dense conversion","densetosparse and densetosparse_ROWMAJOR in src/Auxilary.c"),("set-up twins","QP_SETUP and QP_SETUP_dense in src/qpSWIFT.c")],
["matrices held by the instance","solutions of the three instances"])
add("P06","The elimination ordering never changes the answer",
"For every well-posed problem the exit code, and the solution to within the tolerances, do not depend on the elimination ordering: any permutation the caller supplies under which no structurally zero pivot arises (equality rows after the variables and, when P is singular, inequality rows first), the built-in fill-reducing ordering, and, for positive definite P, the identity ordering used when the built-in one fails (for example for lack of memory) all lead to the same solution. A supplied permutation is used as given, is not modified and stays the caller's property, and the ordering status reports which case occurred.",
["inputs","configurations","fault_sequences"],"all permutations of the KKT system, all problems of the well-posed class, allocation failures at any point inside the ordering",
"the tests never supply a permutation and never make the ordering fail",
[S,L,"src/amd_order.c"],[("permutation selection and fallback","QP_SETUP / QP_SETUP_dense in src/qpSWIFT.c"),("permuted factorisation and solves","LDL_symbolic, LDL_numeric, LDL_perm, LDL_permt in src/ldl.c")],
["exit code and solution under different orderings","ordering status AMD_RESULT"],[("AMD_RESULT","ordering outcome; -3 when the caller supplied one","stats->AMD_RESULT")])
add("P07","Memory-safe, leak-free and respectful of the caller's arrays",
"For every problem with consistent dimensions and every order of set-up, solve, repeated solve and clean-up, the library stays within the arrays the caller passed and within its own allocations, never uses released or uninitialised memory and has no undefined behaviour, also when the data are badly scaled, singular or non-finite. It never modifies the caller's arrays, and clean-up releases exactly what the library allocated, each block once, and nothing the caller owns.",
["inputs","histories","configurations","fault_sequences"],"all dimensions, sparsity patterns (also empty rows, columns and matrices), values, entry points, permutations, option values and call sequences; failures of the ordering's allocations",
"the tests run without sanitizers on a few fixed shapes and never call set-up and clean-up",
[S,X,L,"src/amd_order.c","src/amd_1.c","src/amd_2.c","src/amd_aat.c","src/amd_postorder.c","src/amd_preprocess.c"],[("array sizes in set-up","QP_SETUP / QP_SETUP_dense in src/qpSWIFT.c"),("workspace of the factorisation","ldlinitialsolve in src/Auxilary.c"),("release","QP_CLEANUP / QP_CLEANUP_dense in src/qpSWIFT.c")],
["sanitizer reports","allocation log","caller's arrays before and after"])
add("P08","Deterministic, reentrant and isolated instances",
"What a solve returns (exit code, iteration count, every bit of x, y, z, s, the objective and the residual norms) is a function of the problem data and the options alone: it does not depend on what was in freshly allocated memory, on other instances set up, solved or cleaned up before, between or after its own calls, or on other threads working on their own instances at the same time. Solving one instance never changes another one, also when both share input arrays.",
["histories","schedules","inputs"],"all interleavings of calls on several instances in one thread, concurrent use of distinct instances from several threads, and all prior heap contents",
"the tests never create two instances, never run threads and cannot control heap contents",
[S,X,"src/amd_global.c",L],[("all state lives in the instance","QP struct in include/Auxilary.h"),("no mutable globals","src/")],
["bitwise comparison of results across replays"])
add("P09","Reported figures describe the returned point",
"After every solve, however it ended and including repeated solves on one instance, the reported objective value equals x'Px/2 + c'x, the reported residual norms equal the norms of the stationarity, equality and inequality residuals, and the reported complementarity equals s'z/m, all evaluated at the returned x, y, z, s up to rounding. With no equality constraints the equality residual is reported as zero.",
["inputs","histories"],"all problems, all exit codes, all iteration limits, repeated solves",
"no test inspects the statistics of a solve",
[S,X],[("statistics at exit","QP_SOLVE in src/qpSWIFT.c"),("objective","obj_value in src/Auxilary.c"),("residuals","computeresiduals in src/Auxilary.c")],
["stats fields fval, n_rx, n_ry, n_rz, n_mu"])
add("P10","Verbosity only affects what is printed, and prints the truth",
"With verbosity zero the library writes nothing to standard output, and the verbosity setting never changes a result. With positive verbosity each solve call opens with one line that names the solver and prints one line per point it examined, carrying that point's running iteration number, objective value, residual norms and complementarity, one line per step with its primal and dual step sizes, and a closing message that matches the exit code and repeats the iteration count.",
["configurations","inputs","histories"],"all problems, exit codes, verbosity values and repeated solves",
"nothing captures or checks the printed output",
[S],[("PRINT calls","QP_SOLVE in src/qpSWIFT.c")],["standard output","results with and without verbosity"])
add("P11","Reported times follow the monotonic clock",
"The reported set-up time and solve time equal the monotonic-clock time that passed, in seconds, between the start and the end of the set-up call and of the latest solve call, for every pair of clock readings including ones that cross a second boundary; they are never negative and are unaffected by changes of the wall clock. Within one set-up and solve the factorisation time is at most the KKT solve time, which is at most the solve time, and both account for every iteration taken.",
["inputs","histories","schedules"],"all sequences of clock readings, all iteration counts and repeated solves",
"the tests cannot control the clock and never read the times",
["src/timer.c",S,X],[("tic and toc","src/timer.c"),("accumulation","kktsolve_1 in src/Auxilary.c and QP_SOLVE in src/qpSWIFT.c")],
["stats fields tsetup, tsolve, kkt_time, ldl_numeric under a scripted clock"])
add("P12","Equivalent formulations have the same optimum",
"Reordering variables or constraints, scaling a constraint by a positive factor, flipping the sign of a variable, translating the variables, scaling the objective by a positive factor, adding a redundant or duplicated inequality, substituting equality constraints by an invertible recombination of them, or appending an unused independent variable with its own bounds does not change whether a well-posed problem is solved, and the optimal value (and the minimiser, when it is unique) transforms accordingly to within the tolerances.",
["inputs"],"all well-posed problems and all compositions of these reformulations",
"the tests contain no pair of equivalent problems",
[S,X,L],[("whole solve path","QP_SETUP, QP_SOLVE")],["objective value and x of the original and reformulated problem"])
add("P13","The iteration is the documented predictor-corrector method",
"Starting from the solution of the regularised least-squares KKT system shifted to be strictly positive, each iteration of a solve is a Mehrotra predictor-corrector step with Nesterov-Todd scaling: affine direction, centring parameter from the cubed complementarity ratio of the affine step (never below the caller's lower bound, and the pure centring step once it is at that bound), combined direction, and separate primal and dual steps of 0.99 of the distance to the boundary but never more than one. The points visited agree to rounding-level accuracy with this method carried out in higher precision on the same data, for as long as the linear systems are well conditioned.",
["inputs","configurations"],"all well-conditioned problems, lower bounds on the centring parameter, every iteration of the run",
"the tests cover single vector kernels; no test checks the combination, so a wrong step that still converges is invisible",
[S,X],[("predictor-corrector loop","QP_SOLVE in src/qpSWIFT.c"),("starting point","kkt_initialize in src/Auxilary.c"),("step length","findsteplength in src/Auxilary.c")],
["x, y, z, s and step sizes after each iteration (one-iteration solve calls)"])
add("P14","Sparse kernels and KKT assembly agree with dense algebra",
"For every sparse matrix (any shape, empty rows and columns, unsorted or repeated entries) the sparse product, transposed product, transpose and dense conversions compute what dense algebra on the same matrix computes, the KKT matrix assembled from P, A and G is exactly [P A' G'; A 0 0; G 0 -I] as a matrix, its upper-triangular form (no equality rows) is the upper triangle of that, and each scaling update replaces exactly the m trailing diagonal entries by -s/z. The vector kernels (step length, complementarity ratio, scaling point, right-hand sides, inner product, sign check) satisfy their defining equations for every input length including zero and one.",
["inputs"],"all matrices, shapes and vectors, also zero-length ones",
"the tests call each kernel on a few fixed small inputs",
[X],[("kernels","src/Auxilary.c")],["outputs of the kernels"])
add("P15","The LDL' factorisation solves what it factors",
"For every symmetric quasi-definite matrix in compressed-column form (explicit zeros, repeated entries and any row order within a column allowed) and every symmetric permutation, the computed unit lower triangular L and diagonal D reproduce the permuted matrix to rounding accuracy, the symbolic analysis predicts the size of every column of L exactly, and permuted forward, diagonal and backward solution yields the solution of the linear system to rounding accuracy. The factorisation can be repeated with new numerical values on the same analysis, also by the variants that reuse the pattern of L and that update only the columns which change (the columns named for a change of trailing diagonal entries are those their elimination-tree paths reach); pivots with magnitude at or below the documented threshold are replaced by a small pivot of the same sign and all others are kept.",
["inputs","histories"],"all quasi-definite matrices and permutations, and sequences of refactorisations",
"no test calls the factorisation",
[L],[("symbolic analysis","LDL_symbolic in src/ldl.c"),("numerical factorisation with pivot replacement","LDL_numeric in src/ldl.c"),("triangular solves","LDL_lsolve, LDL_dsolve, LDL_ltsolve in src/ldl.c")],
["L, D, solution vectors"])
add("P16","The fill-reducing ordering is always a permutation with honest status",
"For every square sparsity pattern the ordering routine returns a permutation of the indices together with OK (or OK-BUT-JUMBLED exactly when some column is unsorted or has repeated entries), invalid patterns are rejected as invalid and a failed allocation as out of memory, without a crash, a leak or a modification of the input pattern, and memory is only taken from and given back to the installed memory functions. The reported statistics (dimension, entry count, symmetry, diagonal entries, off-diagonal entries of A+A', memory used, status) are those of the pattern, and the ordering depends only on the pattern and the documented meaning of the control settings (every nonzero aggressive setting, and every negative dense-row setting, is the same one).",
["inputs","configurations","fault_sequences"],"all patterns (also empty, dense, with dense rows, disconnected, unsymmetric, unsorted, duplicated, invalid), all control settings, allocation failure at every allocation",
"no test calls the ordering",
["src/amd_order.c","src/amd_1.c","src/amd_2.c","src/amd_aat.c","src/amd_valid.c","src/amd_preprocess.c","src/amd_postorder.c","src/amd_post_tree.c","src/amd_defaults.c"],[("driver and validation","src/amd_order.c, src/amd_valid.c"),("pattern of A+A'","src/amd_aat.c, src/amd_1.c"),("minimum degree and postorder","src/amd_2.c, src/amd_postorder.c")],
["return value, permutation and Info array of amd_l_order"])
add("P17","The fill-reducing ordering keeps factors sparse",
"On structured sparse systems the built-in ordering delivers low fill: no fill at all on patterns whose graph is a forest, on block-diagonal systems no more than the sum over the dense blocks, and on patterns with a known good ordering (arrow, banded, grid, KKT systems of control problems) a factor not much larger than that ordering gives. Rows are set aside as dense exactly when they have more neighbours than the control setting allows, and come last in the ordering. Its own predictions of the factor size and of the operation counts are upper bounds on what the symbolic analysis then finds, and consistent with one another.",
["inputs"],"all forests, chordal and block patterns and random structured patterns up to a few hundred nodes",
"no test measures the ordering or the fill",
["src/amd_2.c","src/amd_1.c","src/amd_order.c","src/amd_postorder.c",S],[("approximate minimum degree with aggressive absorption and mass elimination","src/amd_2.c"),("use in set-up","QP_SETUP in src/qpSWIFT.c")],
["number of entries of L from the symbolic analysis, Info array"])
add("P18","Validators accept exactly the valid inputs",
"The permutation check accepts a vector exactly when it is a permutation of 0..n-1 (or absent), the factorisation's matrix check accepts a pattern exactly when its column pointers start at zero, never decrease and all its row indices are in range, and the ordering's matrix check returns OK, OK-BUT-JUMBLED or INVALID by the same rules plus sortedness within columns. None of them reads beyond the arrays described by valid column pointers, nor modifies its inputs.",
["inputs"],"all vectors and patterns, valid, nearly valid and invalid, all sizes including zero and negative",
"no test calls the validators",
[L,"src/amd_valid.c"],[("LDL_valid_perm, LDL_valid_matrix","src/ldl.c"),("AMD_valid","src/amd_valid.c")],["return values"])
add("P19","The Python module returns what the C library computes",
"For every accepted call the Python function returns the same x, and at the higher output levels the same exit flag, iteration count, objective, y, z, s and times, as the C library run on the same data with the same options, for arrays of any floating type, byte order, memory order or stride, and equality constraints are used exactly when both A and b are given. Every option in the dictionary has the effect of the corresponding library option, absent ones mean the defaults, the result's keys are those documented for the output level, and the caller's arrays are left unchanged.",
["inputs","configurations"],"all problem data, array layouts, option dictionaries and output levels",
"the shipped Python scripts run one fixed problem and compare nothing",
["python/pyqpSWIFT.c",S],[("argument parsing and conversion","method_qpSWIFT and getptr in python/pyqpSWIFT.c")],["returned dictionary, captured output"])
add("P20","The Python module rejects bad arguments with an exception",
"Whatever objects are passed, the Python function either returns a result dictionary or raises a Python exception (TypeError for wrong types, wrong ranks, inconsistent or empty dimensions, and option values of the wrong type or outside their range); it never crashes the interpreter, never returns with an error pending and never reads outside the arrays. Option values exactly on the documented bounds are treated as documented, a bad OUTPUT value only warns, and after a rejected call the next valid call works.",
["inputs","histories","configurations"],"all argument tuples and keyword sets built from arrays of all ranks, shapes and types, non-arrays, and option dictionaries with arbitrary values",
"the shipped scripts pass valid arguments only",
["python/pyqpSWIFT.c"],[("argument checks","method_qpSWIFT in python/pyqpSWIFT.c")],["exception type or result; survival of the interpreter"])
add("P21","The Python module leaks nothing and is safe under threads",
"Repeated calls of the Python function, accepted or rejected, at every output level and with every array layout, leave the reference counts of all arguments and option values unchanged, keep no memory and hand out results that own their data. Several Python threads may solve at the same time, each its own problem or all the same shared arrays, and every one gets the result it would get alone; results stay as they are when the arguments are later overwritten or more calls are made.",
["histories","schedules","configurations"],"all call sequences mixing accepted and rejected calls, output levels and layouts; concurrent callers",
"the shipped scripts call the module once",
["python/pyqpSWIFT.c"],[("reference counting and GIL release","method_qpSWIFT in python/pyqpSWIFT.c")],["reference counts, process memory, results under threads"])
add("P22","The MATLAB gateway maps arguments, options and results faithfully",
"For every call with consistent sparse arguments the MATLAB gateway returns the x, and in its info structures the exit flag, iterations, objective, y, z and s, that the C library computes for the same data and the options given (field names in upper or lower case, one-based permutation), and the equality constraints are used exactly when the six-matrix form is called. Wrong argument counts, types, shapes, option values or permutations are answered with an error or the documented fallback and never with a crash or leak, and the caller's arrays are unchanged.",
["inputs","configurations"],"all argument lists, option structures and output counts",
"MATLAB is not available to the test suite, so nothing runs the gateway",
["matlab/qpSWIFT_mex.c",S],[("mexFunction","matlab/qpSWIFT_mex.c")],["outputs of mexFunction over a stand-in for the MATLAB API"])
add("P23","The Simulink blocks output the solution of their input problem",
"On every simulation step both Simulink blocks output the x, exit flag, iteration count and non-negative times of the quadratic program given by their current inputs (contiguous column-major signals, at least as many variables as the block outputs, with equality constraints in the extended block), independent of earlier steps, leave their inputs unchanged and release everything they allocate. The port dimensions they declare match the data they read and write.",
["inputs","histories"],"all problems of the configured block dimensions and all step sequences",
"Simulink is not available to the test suite, so nothing runs the blocks",
["simulink/qpSWIFT_sfunc.c","simulink/qpSWIFT_sfunc_e.c",S],[("mdlOutputs, mdlInitializeSizes","simulink/qpSWIFT_sfunc.c and qpSWIFT_sfunc_e.c")],["output ports over a stand-in for the SimStruct API"])
add("P24","Iterates stay strictly interior and residuals contract",
"At the starting point and at every point a solve visits, all entries of s and z are strictly positive (for any problem, as long as the starting point stays below 1e12 and the numbers finite and far from overflow and underflow); each primal and dual step size lies in (0, 1], never takes an entry of s or z below 1 percent of its value, and is shorter than one only when some entry reaches that 1 percent or nothing blocks. On well-posed problems every step of primal length a reduces the equality and inequality residuals by exactly the factor 1-a (up to rounding), and a step with equal primal and dual lengths does the same to the stationarity residual.",
["inputs","histories"],"all problems, every iteration",
"the tests check one step-length computation on fixed vectors",
[S,X],[("step length with the 0.99 factor","QP_SOLVE in src/qpSWIFT.c, findsteplength in src/Auxilary.c"),("update","updatevariables in src/Auxilary.c")],
["iterates and step sizes after each one-iteration solve call"])
add("P25","Printed settings and reports of the ordering are truthful",
"The control report of the ordering states the dense-row threshold and aggressive-absorption setting that the ordering will apply for that control array (the defaults when none is given), and the statistics report states the status, dimension, counts, symmetry, memory and cost figures of the Info array, each once with its own label, leaving out figures that are unknown. Neither report modifies its array, nothing is printed (and nothing fails) when no print function is installed, and the default settings are those documented.",
["inputs","configurations"],"all control and Info arrays, also absent ones and ones with unknown entries, and those of real ordering runs",
"no test prints a report",
["src/amd_control.c","src/amd_info.c","src/amd_defaults.c"],[("control report","src/amd_control.c"),("statistics report","src/amd_info.c"),("defaults","src/amd_defaults.c")],["text handed to the print function"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
