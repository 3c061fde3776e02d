#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single table below (run by hand, outputs are committed)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS
T = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    T.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note))
ONE = "The only test solves one 4-variable problem and looks at the exit status; "
I, A, C = "src/Interfaces/", "src/Algorithms/", "src/CbcBonmin/"

prop("P01", "NLP branch-and-bound returns the true optimum or proves infeasibility",
 "For every convex mixed-integer problem with an admissible solution, nonlinear branch-and-bound run without limits ends with an optimal status, an integral point that satisfies every bound and constraint within tolerance, an objective value that is the problem's objective at that point, and no admissible point is better. When no admissible point exists it ends with a proven-infeasible status and no solution. The user's solution callback is given exactly that outcome once, whatever index style, entry order or sparsity the problem description uses.",
 ["inputs"], "All problems of an enumerated family (5 variable layouts x 8 objectives x subsets of 12 constraints, plus 32 deeper instances), under several presentations of the same problem.",
 ONE + "optimality and infeasibility claims quantify over all problems and all leaves of the tree.",
 [C+"BonCbc.cpp", A+"BonBonminSetup.cpp", I+"BonOsiTMINLPInterface.cpp", A+"Branching/BonChooseVariable.cpp", I+"BonTMINLP2TNLP.cpp"],
 [("branch-and-bound driver", C+"BonCbc.cpp"), ("node relaxation status", I+"BonOsiTMINLPInterface.cpp"), ("node strategy", C+"BonCbcNlpStrategy.cpp")],
 "exhaustive bounded enumeration of problems, each executed on the real solver and compared with a brute-force optimum",
 "Every instance of the stated family is solved by the real code and compared with an independent enumeration of all integer assignments (continuous part by convex line search). Trusts Ipopt/Cbc/Clp and the reference; instances whose optimum moves under a 2e-5 perturbation are counted and skipped.")
prop("P02", "Outer-approximation based algorithms reach the same true optimum",
 "For every convex problem, the outer-approximation decomposition, the LP/NLP-based branch-and-cut, the hybrid, the extended-cutting-plane algorithm and the feasibility-pump based algorithm each end with the true optimal value and an admissible point attaining it, or with proven infeasibility when there is none. The answer does not depend on which of them is chosen, on how cuts are generated, kept, strengthened or how often the nonlinear problem is solved, nor on the index style of the problem description.",
 ["inputs", "configurations"], "All instances of the enumerated family under every listed algorithm and cut-generation setting.",
 ONE + "one algorithm only; a single invalid cut or wrongly fathomed node only shows on particular problems.",
 [A+"OaGenerators/BonOACutGenerator2.cpp", A+"OaGenerators/BonOaDecBase.cpp", A+"OaGenerators/BonOaFeasChecker.cpp", A+"OaGenerators/BonEcpCuts.cpp", A+"OaGenerators/BonFpForMinlp.cpp", A+"OaGenerators/BonOaNlpOptim.cpp", I+"BonOsiTMINLPInterface.cpp"],
 [("decomposition loop", A+"OaGenerators/BonOaDecBase.cpp"), ("outer approximation cuts", I+"BonOsiTMINLPInterface.cpp"), ("feasibility check of LP-integral points", A+"OaGenerators/BonOaFeasChecker.cpp")],
 "exhaustive bounded enumeration of problems x algorithms on the real solver against a brute-force optimum",
 "As P01 for the cut-based algorithms, with variable selections for which the underlying Cbc is sound; Cbc's own strong/reliability branching loses solutions on these problems (recorded finding).")
prop("P03", "Search-steering options never change the answer",
 "Options that only steer the search - branching variable selection, strong-branching effort, pseudo-cost trust, node order, diving and tree strategy, warm-start mode, number of re-solves, primal heuristics - never change what is claimed: with any of their values the reported status, optimal value and feasibility of the returned point are those of the problem itself. No such setting makes the solver abort or throw on a solvable or infeasible problem.",
 ["inputs", "configurations"], "Every listed option value with every instance of the enumerated family (reduced family in quick, all single-constraint instances in thorough).",
 ONE + "all options at default.",
 [A+"Branching/BonChooseVariable.cpp", C+"BonDiver.cpp", C+"BonCbc.cpp", A+"BonBabSetupBase.cpp", C+"Heuristics/BonHeuristicDive.cpp", C+"Heuristics/BonHeuristicFPump.cpp", A+"Branching/BonLpBranchingSolver.cpp", A+"Branching/BonQpBranchingSolver.cpp"],
 [("strong branching", A+"Branching/BonChooseVariable.cpp"), ("tree strategies", C+"BonDiver.cpp"), ("primal heuristics", C+"Heuristics/BonHeuristicDive.cpp")],
 "exhaustive bounded enumeration of option values x problems on the real solver against a brute-force optimum",
 "Each option value is varied alone (not all combinations) over the enumerated instances; same reference and tolerances as P01.")
prop("P06", "Every search tree strategy keeps exactly the open subproblems",
 "Whatever tree search strategy, node order, dive-depth or backtrack limit is chosen, and after any sequence of taking a node, branching, finding a solution, pruning, switching diving mode or copying the tree: every open subproblem better than the cutoff is handed out exactly once, none is lost or duplicated. The tree says it is empty only when no subproblem is left, its size counts what is open, and the bound it reports is never above that of a subproblem still open.",
 ["histories", "configurations"], "All operation sequences up to depth 7 (quick) / 8 (thorough) on every diving tree class, node order and limit setting.",
 ONE + "with the default tree; losing a node needs a particular order of dives, solutions and prunes.",
 [C+"BonDiver.cpp", C+"BonDiver.hpp"],
 [("plain diving", C+"BonDiver.cpp"), ("probed diving", C+"BonDiver.cpp"), ("depth-first diving with modes", C+"BonDiver.cpp")],
 "explicit enumeration of all operation sequences on the real tree classes against a multiset reference model",
 "All histories up to the depth are executed on the real classes (with stand-in node data) and drained in up to three ways; deeper histories are not covered.")
NA = []
def main():
    ready = [t for t in T if t["id"] in PROPS]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as o:
        for t in ready:
            o.write(json.dumps(dict(id=t["id"], title=t["title"], statement=t["statement"],
                quantifier=dict(over=t["over"], text=t["qtext"]), why_tests_cant=t["why"],
                anchors=dict(files=t["files"], mechanism=[dict(name=a, where=b) for a, b in t["mech"]]))) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/build.py h_solve >/dev/null", checks=[], not_applicable=NA,
             notes="No hooks were needed: harnesses compile /repo's library sources unchanged (tools/build.py).")
    for t in ready:
        m["checks"].append(dict(property=t["id"], quick_cmd="python3 check.py %s quick" % t["id"],
            thorough_cmd="python3 check.py %s thorough" % t["id"], technique=t["technique"],
            level=PROPS[t["id"]]["level"], level_note=t["note"]))
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    exec(open(os.path.join(VERIF, "tools/meta_more.py")).read()) if os.path.exists(os.path.join(VERIF, "tools/meta_more.py")) else None
    main()
