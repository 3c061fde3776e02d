#!/usr/bin/env python3
"""Writes P02.txt: cut-based algorithms on the full single-constraint family; cut options on the reduced family (quick) / full (thorough)."""
MF = "variable_selection most-fractional"
out = ["# generated by gen_p02.py: tier(A both, Q quick only, T thorough only) K options (K=-1: reduced family)"]
for a in ["B-OA", "B-QG;" + MF, "B-Hyb;" + MF, "B-Ecp;" + MF, "B-iFP"]:
    out += ["A 1 algorithm " + a, "A 1 algorithm " + a + ";@fortran", "T 2 algorithm " + a]
out += ["A 1 algorithm B-QG;variable_selection osi-strong", "A 1 algorithm B-Hyb;variable_selection osi-strong", "A 1 algorithm B-Ecp;variable_selection osi-simple"]
O = {"B-QG;" + MF: ["oa_cuts_scope local", "add_only_violated_oa yes", "feas_check_discard_policy keep-all", "feas_check_discard_policy treated-as-normal",
       "feas_check_cut_types Benders", "cut_strengthening_type sglobal", "cut_strengthening_type sglobal;@fortran", "cut_strengthening_type uglobal-slocal", "disjunctive_cut_type most-fractional;cut_strengthening_type sglobal",
       "generate_benders_after_so_many_oa 1", "nlp_solve_frequency 1", "num_cut_passes 5;num_cut_passes_at_root 5", "tiny_element 1e-12;very_tiny_element 1e-20", "oa_rhs_relax 0", "warm_start none", "@rev;@dense"],
     "B-Hyb;" + MF: ["oa_cuts_scope local", "add_only_violated_oa yes", "feas_check_discard_policy keep-all", "nlp_solve_frequency 1", "nlp_solve_frequency 0", "nlp_solve_max_depth 1;nlp_solves_per_depth 1",
       "filmint_ecp_cuts 1", "filmint_ecp_cuts 0", "Gomory_cuts 5", "cover_cuts 5", "mir_cuts 5", "2mir_cuts 5", "flow_cover_cuts 5", "clique_cuts 5", "oa_decomposition yes", "feas_check_cut_types Benders",
       "cut_strengthening_type sglobal;disjunctive_cut_type most-fractional", "tree_search_strategy dive", "tree_search_strategy dfs-dive", "@rev;@dense"],
     "B-Ecp;" + MF: ["ecp_abs_tol 1e-6;ecp_rel_tol 0", "ecp_max_rounds 1", "ecp_probability_factor 10", "filmint_ecp_cuts 1", "@rev;@dense"],
     "B-OA": ["milp_strategy find_good_sol", "milp_strategy solve_to_optimality", "oa_cuts_scope local", "add_only_violated_oa yes", "cut_strengthening_type sglobal", "generate_benders_after_so_many_oa 1", "@rev;@dense"],
     "B-iFP": ["fp_pass_infeasible yes", "fp_pass_infeasible no", "milp_strategy find_good_sol", "@rev;@dense"]}
for a, l in O.items():
    for o in l: out += ["Q -1 algorithm %s;%s" % (a, o), "T 1 algorithm %s;%s" % (a, o)]
# presentations: everything declared nonlinear, variables translated (bounds away from zero, rows and objective with constants)
for a in ["B-OA", "B-QG;" + MF, "B-Hyb;" + MF, "B-Ecp;" + MF, "B-iFP"]:
    for o in ["@allnl", "@shift=3", "@shift=-4;@allnl;@fortran"]: out += ["Q -1 algorithm %s;%s" % (a, o), "T 1 algorithm %s;%s" % (a, o)]
# integer tolerance
for a in ["B-OA", "B-QG;" + MF, "B-Hyb;" + MF, "B-Ecp;" + MF, "B-iFP"]:
    for o in ["integer_tolerance 1e-4", "integer_tolerance 1e-3"]: out += ["Q -1 algorithm %s;%s" % (a, o), "T 1 algorithm %s;%s" % (a, o)]
# recorded findings (known-findings.txt), one representative each
out += ["A 1 algorithm B-Hyb;%s;cut_strengthening_type sglobal-slocal;@only=bic/obj0/con4" % MF,
        "A 1 algorithm B-Hyb;%s;lift_and_project_cuts 5;@only=bbc/obj0/con" % MF,
        "A 1 algorithm B-Hyb;%s;reduce_and_split_cuts 5;@only=bbc/obj0/con" % MF]
for a in ["B-QG", "B-Hyb", "B-Ecp"]:
    out.append("A 1 algorithm %s;@only=cii/obj2/con" % a)
    out.append("A 1 algorithm %s;variable_selection reliability-branching;@only=cii/obj2/con" % a)
open(__file__.replace("gen_p02.py", "P02.txt"), "w").write("\n".join(out) + "\n")
