prop("P09", "Derived problems evaluate exactly",
 "Every problem Bonmin derives from the user's one for a sub-solver - the copy with its own bounds, the feasibility problem with distance objective, cutoff row and local-branching row, the reformulation with a linear objective, the quadratic model used for branching, the problem with added linear and quadratic cuts - has exactly the size, bounds, sparsity, values, gradients, Jacobian and Hessian (in the declared index style) of the mathematical problem it stands for. This holds after any sequence of changing bounds, starting points or parameters, adding or removing cuts and copying; a copy is independent of its source. No nonlinear row or variable is declared linear, the point is announced as unchanged only when it is, and results and starting points are translated to the original space.",
 ["inputs", "histories"], "All settings of each derived problem on 5 layouts x 8 objectives x 6 constraint sets x 8 presentations, and all change histories up to depth 4/5 (quick) or 5/6 (thorough).",
 ONE + "a wrong derivative or a stale structure only shows for particular settings, index styles or orders of changes.",
 [I+"BonTMINLP2TNLP.cpp", I+"BonTNLP2FPNLP.cpp", I+"BonTNLP2FPNLP.hpp", I+"BonBranchingTQP.cpp", A+"QuadCuts/BonTMINLP2Quad.cpp", A+"QuadCuts/BonTMINLPLinObj.cpp", A+"QuadCuts/BonQuadRow.cpp", A+"QuadCuts/BonTMatrix.cpp", A+"QuadCuts/BonQuadCut.cpp"],
 [("bounded copy", I+"BonTMINLP2TNLP.cpp"), ("feasibility problem", I+"BonTNLP2FPNLP.cpp"), ("cut management", A+"QuadCuts/BonTMINLP2Quad.cpp")],
 "explicit enumeration of all settings and all bounded change histories on the real classes against closed-form reference functions",
 "The reference functions are closed-form quadratic+exponential terms with analytic derivatives; comparison at 3 points per state. Histories deeper than the bound and more than 3 cuts alive at once in most orders are not covered.")

prop("P07", "Cuts and linear relaxations never exclude an admissible solution",
 "For every convex problem, every inequality Bonmin derives - outer approximations of constraints and objective, single-row approximations, Benders cuts, strengthened cuts, the initial linear relaxation, and whatever its cut generators add at a node - is satisfied by every admissible solution it is claimed for (all of them when the cut is global, those within the node's bounds and below the cutoff otherwise), with the objective column at the objective's value. Column bounds, integrality and the objective of the linear relaxation are those of the problem. A point violating a one-sided convex row is excluded by the approximation taken there, the objective approximation is tight where it is taken, a bound claimed for a node does not exceed the best admissible value in it, solutions handed over are admissible, and bounds of the nonlinear problem are restored.",
 ["inputs", "histories"], "All instances x cut settings x grid points x node boxes as stated, all admissible points of each instance.",
 ONE + "an invalid cut removes the optimum only on particular problems, points and bounds.",
 [I+"BonOsiTMINLPInterface.cpp", I+"BonCutStrengthener.cpp", A+"OaGenerators/BonOACutGenerator2.cpp", A+"OaGenerators/BonOaDecBase.cpp", A+"OaGenerators/BonOaFeasChecker.cpp", A+"OaGenerators/BonEcpCuts.cpp", A+"OaGenerators/BonOaNlpOptim.cpp", A+"BonSolverHelp.cpp"],
 [("outer approximation", I+"BonOsiTMINLPInterface.cpp"), ("generators", A+"OaGenerators/BonOaDecBase.cpp")],
 "exhaustive bounded enumeration of (instance, setting, point, node box) on the real cut code, each inequality checked against all admissible points",
 "Convex instances only (the code documents no guarantee otherwise). Locally strengthened cuts are judged within the box they were made for. Rows with two finite sides that are declared nonlinear are judged for validity only.")

prop("P04", "A run that is cut short claims only what it established",
 "Whatever stops a run - node, iteration, solution or time limit at any value and any moment, an interrupt at any moment, a cutoff, an allowable gap or a cutoff decrement - it ends by itself with a status, result and solution callback that agree with each other and are true: a returned point is admissible, has the reported objective value and respects the cutoff; optimality is claimed only up to the allowed gap; infeasibility is claimed only when no admissible point beats the cutoff; the reported bound is a valid lower bound; 'no solution known' comes without a point and 'feasible' with one. Where nothing but tolerances limits the run it completes.",
 ["crash_points", "inputs", "histories"], "All limit values, clock readings and evaluation indices of each execution up to the caps, on the listed instances and 6 algorithms.",
 ONE + "whether a stop is reported truthfully depends on the exact moment of stopping; tests let runs finish.",
 ["src/CbcBonmin/BonCbc.cpp", A+"OaGenerators/BonOaDecBase.cpp", A+"OaGenerators/BonOACutGenerator2.cpp", A+"OaGenerators/BonFpForMinlp.cpp", A+"BonSubMipSolver.cpp", I+"Ipopt/BonIpoptSolver.cpp", "src/CbcBonmin/BonCbcNlpStrategy.cpp"],
 [("status mapping", "src/CbcBonmin/BonCbc.cpp"), ("generators stop", A+"OaGenerators/BonOaDecBase.cpp")],
 "exhaustive enumeration of stopping points of real executions (virtual clock, raised signals, every limit value), each judged against exact enumeration of the problem",
 "Stopping points between two evaluations or clock readings are equivalent to the next one. Caps per execution in quick mode; SIGINT only after Bonmin installed its handler. LP-based algorithms run with most-fractional branching (the default one is a listed finding of P02).")

prop("P05", "A function that cannot be evaluated never leads to a wrong answer",
 "If a function of the problem reports that it cannot be evaluated - at any one call, from some call on, or always for one kind of function - the run either ends with an error (an exception, and the callback told so) or with an answer that is as true as without the failure: an admissible point with its real objective value, optimality and infeasibility claimed only when true (except that with the option to fathom failed nodes parts of the tree may be lost). The run never crashes or hangs.",
 ["crash_points", "inputs"], "Every evaluation index of each execution up to the caps x {once, from then on} x {stop, fathom}, and each kind of function failing always.",
 ONE + "a failing evaluation has to hit one particular call for its return value to be ignored.",
 ["src/CbcBonmin/BonCbc.cpp", I+"BonOsiTMINLPInterface.cpp", I+"BonTNLPSolver.cpp", I+"BonTMINLP2TNLP.cpp", "src/CbcBonmin/Heuristics/BonHeuristicDive.cpp", A+"OaGenerators/BonOaDecBase.cpp"],
 [("cut building", I+"BonOsiTMINLPInterface.cpp"), ("fixed problems", I+"BonTNLPSolver.cpp"), ("exception handling", "src/CbcBonmin/BonCbc.cpp")],
 "fault injection at every evaluation of real executions, each judged against exact enumeration of the problem",
 "Functions returning NaN together with success are outside the callback contract and not injected.")

prop("P08", "The NLP interface answers for the bounds in force",
 "Whatever sequence of bound changes, solves, copies, assignments, warm starts, hot starts, feasibility problems and cut requests the NLP interface has gone through, each of its answers - bounds, types, status, solution, objective value, row activities, multipliers, reduced costs, linear relaxation - is the one a new interface gives for the bounds now in force: exactly one status, a true minimum with the value and activities of the returned point and multipliers that satisfy the optimality conditions, or infeasibility only when there is no feasible point. Copies are independent of their source and remain valid when it is destroyed.",
 ["histories", "inputs"], "All histories of length 3 over 17 operations on 5 (quick) or 35 (thorough) instance x setting combinations.",
 ONE + "stale status, bounds or warm starts need a particular sequence of operations.",
 [I+"BonOsiTMINLPInterface.cpp", I+"BonTMINLP2TNLP.cpp", I+"Ipopt/BonIpoptSolver.cpp", I+"Ipopt/BonIpoptWarmStart.cpp", I+"Ipopt/BonIpoptInteriorWarmStarter.cpp", I+"BonTNLP2FPNLP.cpp"],
 [("interface", I+"BonOsiTMINLPInterface.cpp"), ("bounds and solution", I+"BonTMINLP2TNLP.cpp"), ("warm starts", I+"Ipopt/BonIpoptWarmStart.cpp")],
 "exhaustive enumeration of bounded operation histories on the real interface, each answer compared with a new interface, a grid of points and the optimality conditions",
 "Multipliers are judged at Ipopt's tolerance with slack; the reference minimum comes from a new interface confirmed by a grid.")

prop("P15", "A run depends on nothing but the problem and the options",
 "The sequence of evaluations and the answer of a run do not depend on what unused memory happens to contain, and the answer does not depend on what the process did before: after any sequence of completed, limited, interrupted or failed runs, with any algorithm, on the same or other problems, with new or reused solver and problem objects, a run gives the answer it gives in a process of its own.",
 ["histories", "inputs"], "All listed (setting, instance) pairs x byte patterns; all run sequences of length 3 as stated.",
 ONE + "left-over state and uninitialised values only show after particular sequences or memory contents.",
 ["src/CbcBonmin/BonCbc.cpp", "src/CbcBonmin/Heuristics", I+"BonOsiTMINLPInterface.cpp", A+"BonBabSetupBase.cpp", A+"Branching/BonChooseVariable.cpp"],
 [("interruption and reuse", "src/CbcBonmin/BonCbc.cpp"), ("heuristics", "src/CbcBonmin/Heuristics/BonHeuristicDiveVectorLength.cpp")],
 "exhaustive enumeration of bounded run sequences in one process and of memory fill patterns on the real code, compared with isolated runs",
 "Byte patterns are applied through the allocator, so stack contents are not varied. One problem per run kind.")

prop("P11", "Branching decisions are sound and honour the user's wishes",
 "Whatever nodes were visited before, a branching decision at a node never loses a solution: the node is declared infeasible, and a bound is tightened, only if nothing admissible better than the cutoff is discarded. The variable chosen is fractional and has the best priority among the fractional ones, the first branch goes in the user's preferred direction if one is given, the two branches together contain every admissible solution of the node, the bounds of the node are as before the decision, and a solution found while deciding is admissible with its true value. In a complete search every integer variable and every special ordered set has one branching object, with the priority, preferred direction and pseudo-costs the user gave for it.",
 ["histories", "inputs"], "All listed instances x 12 chooser settings x 5 annotation patterns x cutoffs x fixing modes x pairs of nodes; complete searches: 10 settings x 8 variable layouts x annotation patterns.",
 ONE + "a wrong decision needs particular bounds, a particular cutoff and pseudo-costs left by earlier nodes.",
 [A+"Branching/BonChooseVariable.cpp", A+"Branching/BonRandomChoice.cpp", A+"Branching/BonLpBranchingSolver.cpp", A+"Branching/BonQpBranchingSolver.cpp", I+"BonStrongBranchingSolver.cpp", A+"BonBabSetupBase.cpp", C+"BonCbc.cpp"],
 [("strong branching", A+"Branching/BonChooseVariable.cpp"), ("priorities and directions", A+"BonBabSetupBase.cpp")],
 "exhaustive enumeration of bounded decision histories on the real choosers, each decision judged by exact enumeration of the node",
 "Two decisions per history. Osi's own choosers are only run without annotations and without fixing (its own assertions fail there). Convex instances only.")

prop("P13", "Priorities, directions, pseudo-costs and special ordered sets never change the answer",
 "Branching priorities, preferred directions, pseudo-costs and type-1 special ordered sets that restate constraints of the problem, whatever their values and order, never change what is claimed with any algorithm that accepts them: status, optimal value and feasibility of the returned point are those of the problem. No such annotation makes the solver crash; what an algorithm cannot handle it refuses with an error.",
 ["inputs", "configurations"], "All combinations of annotation patterns x 11 algorithm settings x listed instances.",
 ONE + "no annotations at all.",
 [C+"BonCbc.cpp", A+"BonBabSetupBase.cpp", A+"Branching/BonChooseVariable.cpp", I+"BonTMINLP.cpp", I+"BonOsiTMINLPInterface.cpp"],
 [("branching objects", C+"BonCbc.cpp"), ("annotations of objects", A+"BonBabSetupBase.cpp")],
 "exhaustive bounded enumeration of annotations x problems on the real solver against a brute-force optimum",
 "Pseudo-costs only with Cbc's own branching rules (Bonmin refuses them otherwise); the feasibility pump refuses special ordered sets (counted as refused).")

prop("P10", "Copies are equal to their source and independent of it",
 "A copy, clone or assignment of special ordered set, branching and perturbation information, warm starts (also through differences), quadratic cuts and cut collections, sparse matrices, quadratic rows, branch-and-bound information, pseudo-costs and node comparisons reads exactly like its source at that moment, and whatever is done afterwards to one - changed, assigned, destroyed, even assigned to itself - neither alters nor invalidates the other, and nothing is freed twice or used after being freed. A second solver set-up obtained by copying, cloning (also onto another copy of the NLP interface) or initialising from an interface has the same parameters, cut generators, heuristics and branching objects and solves the problem to the same answer while its source exists, in any order of solving and dropping the two.",
 ["histories", "inputs"], "Values: all histories of length 4 (thorough 5) over two objects. Set-ups: 14 settings x 8 ways x 5 orders x listed instances.",
 ONE + "nothing is ever copied twice, assigned or destroyed early.",
 [I+"BonTMINLP.cpp", I+"BonTMINLP.hpp", I+"Ipopt/BonIpoptWarmStart.cpp", A+"QuadCuts/BonQuadCut.cpp", A+"QuadCuts/BonTMatrix.cpp", A+"QuadCuts/BonQuadRow.cpp", I+"BonAuxInfos.cpp", C+"BonBabInfos.cpp", A+"Branching/BonPseudoCosts.cpp", C+"BonDiver.hpp", A+"BonBabSetupBase.cpp", A+"BonBonminSetup.cpp"],
 [("problem information", I+"BonTMINLP.cpp"), ("quadratic cuts", A+"QuadCuts/BonQuadCut.cpp"), ("set-ups", A+"BonBabSetupBase.cpp")],
 "exhaustive enumeration of bounded copy/assign/change/destroy histories on the real classes against a reference list of changes, under AddressSanitizer",
 "Copies of the NLP interface are in P08, of node queues in P06, of derived problems in P09. Generators and heuristics of a copied set-up refer to the source's NLP interface, so the source must exist. Leaks are not judged.")

prop("P14", "Options take effect as set and nothing else changes",
 "A value the user gives to an option - with the bonmin. prefix or plain, from a string, a file or the option list, in any combination with other options, for any algorithm, for a set-up initialised from an interface or for a sub-solver with a prefix of its own - is the value the set-up reports and the search uses (limits, gaps, tolerances, log levels, strong branching and trust counts, node comparison, tree traversal, cut generators and their frequencies, heuristics), the prefixed value wins over the plain one, and no other parameter, generator or heuristic changes. Values outside the documented range, ill-typed values and unknown options are refused and leave the previous value.",
 ["configurations", "inputs"], "80 option values x 10 ways x 6 algorithms x 2 problems, all ordered pairs of values (thorough; quick: all for B-BB, half for the others), ends of the ranges of 39 numeric and values of 17 enumerated options.",
 ONE + "an option that is read under the wrong name, overwritten by another or not passed on to the search goes unnoticed: the answer is usually the same.",
 [A+"BonBabSetupBase.cpp", A+"BonBonminSetup.cpp", C+"BonCbc.cpp", I+"BonRegisteredOptions.cpp"],
 [("parameters", A+"BonBabSetupBase.cpp"), ("algorithms", A+"BonBonminSetup.cpp"), ("search", C+"BonCbc.cpp")],
 "exhaustive enumeration of option assignments (values x ways x algorithms, and pairs) on the real set-ups and searches against a model of the documented effect",
 "Options whose effect is only in the sub-solvers are judged by the other properties. A request contradicted by the algorithm itself (B-QG with its own NLP frequency, most-fractional with a strong branching count) is not judged. B-BB leaves the feasibility pump out on problems with general integers.")

prop("P12", "Files with bounds, names, starting points and failed subproblems say exactly what is read",
 "A bounds file (lines 'LO|UP index value') sets exactly the bounds it lists and nothing else; a names file gives each variable or row its name, in order, whatever the length and number of names, finds indices by name (-1 for an unknown name) and hands out copies; a starting-point file (number of primals, number of duals, values) gives exactly its values and is applied only when its sizes fit the problem (duals may be absent). White space and a missing last newline do not matter, and a reader used again forgets the previous file. A file that is missing, ill-formed or cut short at any byte is refused - an exception for bounds, false for the others - and leaves the problem as it was. What the record of a failed subproblem writes (bounds, starting point, with the given prefix, and the bounds in terms of names when these are known) reproduces that subproblem's bounds and starting point when read back.",
 ["inputs", "crash points"], "Bounds files of up to 3 (4) lines, names files of up to 4 (5) names, six starting points, all separators and endings, every truncation; 64 patterns of changed bounds x 4 values x 3 starting points x names x prefix.",
 ONE + "no file of these kinds is read or written at all.",
 [I+"BonBoundsReader.cpp", I+"BonBoundsReader.hpp", I+"BonColReader.cpp", I+"BonColReader.hpp", I+"BonStartPointReader.cpp", I+"BonStartPointReader.hpp", I+"BonTNLPSolver.cpp"],
 [("bounds", I+"BonBoundsReader.cpp"), ("names", I+"BonColReader.cpp"), ("starting points", I+"BonStartPointReader.cpp"), ("record of a failure", I+"BonTNLPSolver.cpp")],
 "exhaustive enumeration of bounded files and of all their truncations on the real readers against an independent parser, and write/read round trips",
 "Repeated names and infinite bounds are not judged. A file cut inside its last number is a well-formed file with another number.")
