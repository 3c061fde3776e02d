"""What each check runs: per property its evidence level, the rule of its enumeration and its harness parts."""
PROPS = {}
def P(pid, level, rule, parts, assumptions=()):
    PROPS[pid] = dict(level=level, rule=rule, parts=parts, assumptions=list(assumptions))
def solve(name, cfg, **kw):
    return dict(name=name, harness="h_solve", env=dict(VR_CONFIGS="@VERIF@/configs/%s" % cfg, CPU=12), **kw)
FAM = ("every configuration line of configs/%s x every instance of the family (layouts x objectives x constraint subsets up to "
       "the line's size, plus 40 deep instances), each solved in its own process; non-trivial: a distinct (status, value) outcome")
P("P01", "exploration", FAM % "P01.txt", [solve("bb", "P01.txt")])
P("P02", "exploration", FAM % "P02.txt", [solve("oa", "P02.txt")])
P("P03", "exploration", FAM % "P03.txt", [solve("opts", "P03.txt")])
P("P06", "model_checking", "every sequence (up to the depth) of take-and-branch with each child outcome, prune after a solution, mode "
  "change and copy, on each tree class x node order x limits; each history is replayed on a fresh real tree and drained; "
  "states: distinct reference states (multiset of open subproblems, cutoff, mode) per starting configuration",
  [dict(name="tree", harness="h_tree")], ["Cbc's own CbcTree and comparison classes behave as documented"])
P("P09", "model_checking", "every derived problem (bounded copy, feasibility problem under all 8 x 2 x 3 x 2 x 2 x 2 x 2 settings, linear-objective reformulation, "
  "quadratic branching model, problem with linear and quadratic cuts) of every listed problem and presentation; for the bounded copy and the problem "
  "with cuts every history of changes up to the depth, each rebuilt from scratch; all functions and derivatives compared at 3 points "
  "with several orders of evaluation", [dict(name="adapt", harness="h_adapt")])
P("P07", "model_checking", "every instance x cut setting: outer approximations (with/without objective, with/without separation point, threshold), linear relaxations, "
  "single-row approximations at every point of a 3-per-variable grid in every listed node box, Benders cuts at every integer assignment, and every cut generator of each "
  "LP-based algorithm in every node box (free / fixed / halved per discrete variable) with and without a cutoff; each inequality is evaluated at every admissible point "
  "(all integer assignments x 7 points of the exact continuous interval)", [dict(name="cuts", harness="h_cuts")], ["Cgl's own generators are valid for the MILP they are given"])
P("P04", "model_checking", "every listed instance x algorithm x way of being cut short: node_limit, iteration_limit and solution_limit at every value from 0 until it no longer matters (capped), the "
  "processor clock passing the limit at every one of its readings (capped; readings by Ipopt's statistics are equivalent and skipped), SIGINT at every evaluation of a problem function (capped), cutoffs on "
  "both sides of the optimum, allowable gaps and cutoff decrements; each execution in its own process; states: distinct (status, value) outcomes",
  [dict(name="limits", harness="h_stop", env=dict(VR_MODE="limits"))], ["expiry of the clock is only observable through getrusage"])
P("P05", "model_checking", "every listed instance x algorithm x failure behaviour: the k-th call of any problem function fails, for every k (capped), all calls from the k-th on fail, "
  "or all calls of one kind fail; each execution in its own process; states: distinct (status, value or error) outcomes",
  [dict(name="faults", harness="h_stop", env=dict(VR_MODE="faults"))])
P("P08", "model_checking", "every sequence of 3 of 17 operations (bound changes on two discrete variables, restore, solve, resolve, copy and drop either side, assign, save/set warm start, hot-start cycle, "
  "feasibility problem, outer approximation, set point, linear relaxation) on each listed (instance, interface setting), replayed on a new real interface; after each operation all observations are judged for the "
  "bounds in force; states: distinct (bounds, solved, warm start) per combination", [dict(name="nlp", harness="h_nlp")], ["Ipopt solves the small convex subproblems to its tolerance"])
P("P15", "model_checking", "memory: every (algorithm setting, instance) of the list is run with fresh memory holding each of 3 (thorough: 4) byte patterns; the complete evaluation trace and answer must coincide. "
  "histories: all sequences of 3 run kinds out of 12 (quick: of those starting with a complete run only the ones returning to it) in one process, each answer judged and compared with that of a process of its own",
  [dict(name="repeat", harness="h_repeat")])
P("P11", "model_checking", "every listed instance x chooser setting x annotation (priorities, directions) x cutoff x fixing mode x pair of nodes visited one after the other, on the real interface and chooser; each decision is "
  "judged by exact enumeration of the node and of the part it discards; search: 10 settings x 8 variable layouts x priorities x directions x pseudo-costs x special ordered sets, after the run every branching object of the search is "
  "compared with what the user said; states: distinct (decision, decision) outcomes",
  [dict(name="choose", harness="h_choose"), dict(name="search", harness="h_honour")], ["Ipopt solves the small convex subproblems to its tolerance", "Osi's branching objects behave as documented"])
P("P13", "exploration", "every listed instance x algorithm setting x {5 priority patterns} x {4 direction patterns} x {3 pseudo-cost patterns}, and every problem with special ordered sets x 7 ways of declaring them x priorities x directions; each solved in its "
  "own process; non-trivial: a distinct (status, value) outcome", [dict(name="annot", harness="h_annot")])
P("P10", "model_checking", "values: for each of 11 value classes, every history of up to 4 (thorough: 5) operations - copy, clone, assign either way and to itself, warm-start difference, destroy, make, each change - on two real objects under "
  "AddressSanitizer; after every operation every live object is read completely and compared with a new object given the same changes. setups: every algorithm setting x instance x way of obtaining a second set-up x order of solving and "
  "dropping; states: distinct (changes of A, changes of B) per class", [dict(name="values", harness="h_copy", variant="asan"), dict(name="setups", harness="h_setup")],
  ["Coin's container and cut classes copy as documented"])

P("P14", "model_checking", "assignments: every option value of the table (limits, gaps, tolerances, strong branching, node comparison, tree, cut generators, heuristics) x 10 ways of setting it x 6 algorithms x problem, every ordered pair of values "
  "of different options x algorithm (quick: every second pair for the cut-based algorithms), then the search run with it; ranges: both ends of the documented range of 39 numeric options, just inside and outside, ill-typed values, 17 enumerations, unknown "
  "names; model: the set-up observed without the option, changed as documented by the assignment; every set-up is read completely (all parameters, cut generators with frequency, heuristics) and compared with the model", [dict(name="options", harness="h_opts")],
  ["Ipopt's option list stores what it accepts; options read from text are not overridden by later text (Ipopt's rule), values set through the option list are"])
P("P12", "model_checking", "files: every bounds file of up to 3 (thorough: 4) lines from 6, every names file of up to 4 (5) distinct names from 5, six starting-point files, each with 3-4 separators and endings, and every truncation of "
  "each (a writer stopped at any byte), wrong indices, keywords and counts, missing files; readers used once, repeatedly and after another file, under AddressSanitizer; records: all 64 patterns of changed bounds x values x "
  "starting points x names x prefix written by the real error record and read back into a new interface; oracle: an independent parser and the original subproblem", [dict(name="files", harness="h_files", variant="asan")],
  ["the file system returns the bytes that were written"])
