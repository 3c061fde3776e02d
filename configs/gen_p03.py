# writes configs/P03.txt: one line per steering option value (run by hand; the output is committed)
B="algorithm B-BB;"; base=[]; sub=[]
def v(o,*vals):
    for x in vals: base.append(B+o+" "+x)
v("variable_selection","strong-branching","reliability-branching","qp-strong-branching","lp-strong-branching","nlp-strong-branching","osi-simple","osi-strong","random")
for t in ("top-node","dive","probed-dive","dfs-dive","dfs-dive-dynamic"):
    base.append(B+"variable_selection most-fractional;tree_search_strategy "+t)
for t in ("probed-dive","dfs-dive"): base.append(B+"tree_search_strategy "+t)
for n in ("best-bound","depth-first","breadth-first","dynamic","best-guess"):
    base.append(B+"variable_selection most-fractional;node_comparison "+n)
base += [B+x for x in (
 "variable_selection most-fractional;tree_search_strategy dfs-dive;max_dive_depth 1",
 "variable_selection most-fractional;tree_search_strategy dfs-dive;max_backtracks_in_dive 0",
 "variable_selection most-fractional;tree_search_strategy dive;stop_diving_on_cutoff yes",
 "variable_selection most-fractional;tree_search_strategy dfs-dive;node_comparison best-bound",
 "number_look_ahead 2","setup_pseudo_frac 1","setup_pseudo_frac 0","number_before_trust 0","number_before_trust 2",
 "number_before_trust_list 1","min_number_strong_branch 2","number_strong_branch 0","number_strong_branch 1",
 "candidate_sort_criterion best-ps-cost","candidate_sort_criterion worst-ps-cost","candidate_sort_criterion most-fractional","candidate_sort_criterion least-fractional",
 "trust_strong_branching_for_pseudo_cost no","maxmin_crit_no_sol 0","maxmin_crit_no_sol 1","maxmin_crit_have_sol 1",
 "variable_selection most-fractional;warm_start none","variable_selection most-fractional;warm_start optimum",
 "variable_selection most-fractional;warm_start interior_point","variable_selection most-fractional;warm_start fake_basis",
 "variable_selection most-fractional;num_resolve_at_root 2","variable_selection most-fractional;num_resolve_at_node 2",
 "variable_selection most-fractional;num_resolve_at_infeasibles 2",
 "variable_selection most-fractional;nlp_failure_behavior fathom","variable_selection most-fractional;enable_dynamic_nlp yes",
 "variable_selection most-fractional;num_retry_unsolved_random_point 2","variable_selection most-fractional;max_consecutive_infeasible 2",
 "variable_selection most-fractional;random_generator_seed 7;num_resolve_at_node 1",
 "variable_selection most-fractional;integer_tolerance 1e-8","variable_selection most-fractional;allowable_gap 0",
 "variable_selection most-fractional;cutoff_decr 0","variable_selection most-fractional;sos_constraints disable",
 "variable_selection most-fractional;heuristic_dive_fractional yes","variable_selection most-fractional;heuristic_dive_vectorLength yes",
 "variable_selection most-fractional;heuristic_dive_MIP_fractional yes","variable_selection most-fractional;heuristic_dive_MIP_vectorLength yes",
 "variable_selection most-fractional;heuristic_feasibility_pump yes","variable_selection most-fractional;heuristic_feasibility_pump yes;feasibility_pump_objective_norm 2",
 "variable_selection most-fractional;MILP_rounding_heuristic yes")]
PB="bonmin.algorithm B-BB;bonmin.variable_selection most-fractional;"; PH="bonmin.algorithm B-Hyb;bonmin.variable_selection most-fractional;"
for h in ("heuristic_RINS","pump_for_minlp","fix_and_solve_heuristic","dummy_pump_heuristic"):
    sub.append(PB+"bonmin.%s yes;@sub"%h)
for h in ("heuristic_RINS","pump_for_minlp","fix_and_solve_heuristic"): sub.append(PH+"bonmin.%s yes;@sub"%h)
H="algorithm B-Hyb;variable_selection most-fractional;"; Q="algorithm B-QG;variable_selection most-fractional;"
for h in ("heuristic_dive_fractional","heuristic_dive_vectorLength","heuristic_dive_MIP_fractional","heuristic_dive_MIP_vectorLength","heuristic_feasibility_pump"):
    sub.append(H+h+" yes")
sub.append(Q+"heuristic_dive_fractional yes")
print("# generated by gen_p03.py: tier K options (K=-1: reduced family)")
for l in base+sub: print("Q -1 "+l); print("T 1 "+l)
# recorded findings (known-findings.txt), one representative each
for l in ("algorithm B-BB;heuristic_local_branching yes;@sub;@only=bbc/obj0/con0", H+"heuristic_local_branching yes;@sub;@only=bbc/obj5/con",
          "algorithm B-BB;variable_selection lp-strong-branching;ecp_max_rounds_strong 2;@only=bbc/obj3/con",
          "algorithm B-Ecp;variable_selection most-fractional;heuristic_dive_fractional yes;@only=bbc/obj6/con0"): print("A 1 "+l)
