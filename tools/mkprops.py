"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, X = "src/core/", "src/explorers/"
P = []
def p(i, title, stmt, over, text, why, files, mech, observe=None):
    P.append(dict(id=i, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["reduced_prob, sol and stats of the presolver object after run_presolver / postsolve"])))
EX = "The tests run each reduction on a few dozen fixed problems; the claim ranges over all problems, all combinations of settings and all interleavings of the reductions."
p("C01", "Optimal value is preserved", "If the original problem has an optimum, presolve does not declare it infeasible or unbounded, and the optimum of the reduced problem plus the reported offset equals the optimum of the original problem, up to the documented feasibility tolerance.",
  ["inputs", "configurations"], "every linear program with finite coefficients and every combination of settings", EX, [C + "CoreTransformation.c", C + "Presolver.c", C + "Problem.c", X + "DtonsEq.c", X + "StonCols.c"],
  [("fix_obj", C + "CoreTransformation.c"), ("modify_obj", X + "DtonsEq.c"), ("run_presolver", C + "Presolver.c"), ("problem_clean", C + "Problem.c")])
p("C02", "Recovered point is feasible with the same objective", "Recovering any point of the reduced problem gives finite values for all original variables whose original cost equals the reduced cost of the point plus the offset; if the point is feasible for the reduced problem the recovered point is feasible for the original problem up to tolerance.",
  ["inputs", "configurations"], "every problem, every settings combination, and every point (not only optima) of the reduced problem", "The tests recover a handful of optimal points of fixed problems.", [C + "Postsolver.c"],
  [("postsolver_run and the retrieve_* functions", C + "Postsolver.c"), ("save_retrieval_*", C + "Postsolver.c")])
p("C03", "Recovered multipliers certify optimality", "If the solution given for the reduced problem is primal-dual optimal, the recovered row multipliers and reduced costs satisfy the optimality conditions of the original problem: stationarity, correct signs, and complementarity at the recovered point, up to tolerance.",
  ["inputs", "configurations"], "every solvable problem, every settings combination and every optimal primal-dual pair of the reduced problem", EX, [C + "Postsolver.c", X + "StonCols.c", X + "Primal_propagation.c"],
  [("retrieve_bound_change, retrieve_lhs_change, retrieve_rhs_change, retrieve_eq_to_ineq, retrieve_added_rows", C + "Postsolver.c")])
p("C04", "Recovered reduced costs always match the multipliers", "For any row multipliers of the reduced problem, optimal or not, with matching reduced costs, the recovered reduced costs equal the original cost minus the transposed original matrix times the recovered multipliers.",
  ["inputs", "configurations"], "every problem, settings combination and arbitrary multipliers", "The tests only recover exact optimal multipliers, where many terms vanish.", [C + "Postsolver.c"],
  [("retrieve_fix_col, retrieve_sub_col, retrieve_added_row(s), retrieve_bound_change, retrieve_parallel_col", C + "Postsolver.c")])
p("C05", "Infeasibility verdicts are right", "Presolve declares infeasible only problems without feasible points, and a problem without feasible points never becomes a reduced problem with feasible points (beyond tolerance).",
  ["inputs", "configurations"], "every problem and settings combination", "The tests contain a few infeasible examples; a wrong verdict needs specific sides, signs and infinities.", [C + "CoreTransformation.c", X + "SimpleReductions.c", X + "Parallel_rows.c", X + "Primal_propagation.c"],
  [("update_lb / update_ub", C + "CoreTransformation.c"), ("check_activities, remove_empty_rows, remove_ston_rows", X + "SimpleReductions.c"), ("process_single_bin", X + "Parallel_rows.c")])
p("C06", "Unboundedness verdicts are right", "Presolve answers unbounded-or-infeasible only for problems without an optimum, and a problem whose objective is unbounded is not turned into one with an optimum or without feasible points, nor the other way round.",
  ["inputs", "configurations"], "every problem and settings combination", "A handful of tests reach this verdict.", [X + "Simple_dual_fix.c", X + "Parallel_cols.c", X + "SimpleReductions.c", C + "Locks.c"],
  [("simple_dual_fix", X + "Simple_dual_fix.c"), ("process_single_bin", X + "Parallel_cols.c"), ("remove_empty_cols", X + "SimpleReductions.c")])
p("C07", "The reduced problem is well formed", "The reduced problem is no larger than the original, its row pointers start at zero, never decrease and end at the number of nonzeros, column indices increase within each row and stay in range, stored coefficients are finite and nonzero, no row or column is empty, and every pair of sides and bounds is an interval with the infinities on the proper side.",
  ["inputs", "configurations"], "every problem and settings combination for which a reduced problem is returned", EX, [C + "Problem.c", C + "Presolver.c", C + "utils.c", C + "Matrix.c"],
  [("problem_clean", C + "Problem.c"), ("remove_extra_space", C + "Matrix.c"), ("populate_presolved_problem", C + "Presolver.c"), ("shrink_*", C + "utils.c")])
p("C08", "Caller data and other instances are left alone", "Construction and presolve never modify the caller's arrays and do not need them afterwards; separate instances do not influence each other, and the same problem with the same settings gives bit-identical results.",
  ["inputs", "histories"], "every problem, settings combination and sequential interleaving of operations on several instances", "No test compares runs, overwrites the inputs or interleaves instances.", [C + "Presolver.c", C + "Matrix.c"],
  [("new_presolver deep copies", C + "Presolver.c"), ("matrix_new", C + "Matrix.c")])
p("C09", "Recovery is repeatable and has no side effects", "Recovery may be called any number of times with different points: each result depends only on the arguments of that call, the arguments and the reduced problem stay unchanged.",
  ["inputs", "histories"], "every problem and every sequence of recovery calls", "The tests recover once per problem.", [C + "Postsolver.c", C + "Presolver.c"], [("postsolver_run, copy_reduced_sol_to_orginal", C + "Postsolver.c"), ("postsolve", C + "Presolver.c")])
p("C10", "Settings do what they say", "The default settings enable every reduction, the all-on and all-off functions set every switch, and a reduction that is switched off is not applied; with every switch off, a problem without trivially removable rows, columns or fixed variables is returned unchanged.",
  ["inputs", "configurations"], "every combination of switches and every problem", "The tests use a few fixed combinations.", [C + "Presolver.c"], [("default_settings, set_settings_true, set_settings_false", C + "Presolver.c"), ("run_fast_explorers, run_medium_explorers", C + "Presolver.c")])
p("C11", "Status and statistics describe the outcome", "The returned status says reduced exactly when the dimensions or the number of nonzeros changed, original and reduced dimensions in the statistics are those of the two problems, and the nonzeros credited to the individual reductions add up to the difference.",
  ["inputs", "configurations"], "every problem and settings combination", "The statistics are printed, not tested.", [C + "Presolver.c"], [("final_status, update_complexity, run_presolver", C + "Presolver.c")])
p("C12", "Limits on time and fill-in never affect correctness", "Whatever the time limit (including zero) and the fill-in limit, the reduced problem is well formed and equivalent to the original, and recovery works.",
  ["inputs", "configurations"], "every problem and every value of the two limits", "No test sets a limit that bites.", [C + "Presolver.c", X + "DtonsEq.c", C + "Matrix.c"], [("time check in run_presolver", C + "Presolver.c"), ("shift_row with max_shift", C + "Matrix.c")])
def red(i, name, what, files, mech):
    p(i, f"{name}: equivalent problem, exact recovery", what, ["inputs", "configurations"], "every problem the reduction applies to, alone and combined with the others",
      "The tests cover a few sign and infinity patterns of this reduction; correctness depends on all of them and on what ran before.", files, mech)
red("C13", "Trivial reductions", "Removing empty rows, single-variable rows, empty columns and fixed variables preserves feasibility, optimal value and infeasible or unbounded verdicts, and recovery restores values and multipliers, for every sign, side and infinity pattern.", [X + "SimpleReductions.c"], [("remove_ston_rows, remove_empty_rows, remove_empty_cols, remove_variables_with_close_bounds, delete_fixed_cols_from_problem", X + "SimpleReductions.c")])
red("C14", "Bound propagation", "Bounds derived from rows are implied by the problem (up to the documented safety margin), rows removed as redundant are implied by the bounds, and recovery moves multipliers of derived bounds to the rows they came from.", [X + "Primal_propagation.c", C + "Activity.c", X + "SimpleReductions.c"], [("propagate_primal, bound_tightening_*", X + "Primal_propagation.c"), ("check_activities", X + "SimpleReductions.c")])
red("C15", "Two-variable equalities", "Substituting a variable through a two-variable equation rewrites rows, costs, bounds and offset so that the problem stays equivalent, and recovery restores the variable, its reduced cost and the row's multiplier.", [X + "DtonsEq.c", C + "Matrix.c"], [("remove_dton_eq_rows", X + "DtonsEq.c"), ("insert_or_update_coeff, shift_row", C + "Matrix.c")])
red("C16", "Column singletons", "Removing a variable that occurs in one row, by substitution or by fixing it, preserves the optimal value and the set of optimal solutions of the other variables, and recovery restores value and multipliers.", [X + "StonCols.c"], [("remove_ston_cols", X + "StonCols.c")])
red("C17", "Dual fixing", "A variable is moved to a bound, or declared responsible for unboundedness, only when no row and no cost opposes moving it there; recovery gives a finite value that satisfies all the rows dropped with it.", [X + "Simple_dual_fix.c", C + "Locks.c"], [("simple_dual_fix", X + "Simple_dual_fix.c"), ("update_locks_*", C + "Locks.c"), ("retrieve_fix_col_inf", C + "Postsolver.c")])
red("C18", "Parallel rows", "Rows that are multiples of each other are replaced by one row whose sides are the intersection of the scaled sides, contradictions are reported as infeasible, and recovery assigns the multiplier to the row whose side is active.", [X + "Parallel_rows.c"], [("find_parallel_rows, process_single_bin", X + "Parallel_rows.c"), ("retrieve_lhs_change, retrieve_rhs_change", C + "Postsolver.c")])
red("C19", "Parallel columns", "Columns that are multiples of each other are merged or one is fixed only when the costs allow it; the merged bounds describe exactly the reachable combined values, and recovery splits the value within both variables' bounds.", [X + "Parallel_cols.c"], [("process_single_bin", X + "Parallel_cols.c"), ("retrieve_parallel_col", C + "Postsolver.c")])
IN = "No test compares the redundant data structures after arbitrary sequences of reductions."
p("C20", "Row-wise and column-wise matrix copies agree", "After every reduction step the row-wise and column-wise copies of the matrix contain the same entries in increasing index order with correct lengths and counts, without overlap or stale entries.",
  ["inputs", "histories"], "every problem and every sequence of reduction steps", IN, [C + "Matrix.c", C + "CoreTransformation.c", X + "DtonsEq.c"], [("transpose, insert_or_update_coeff, remove_coeff, shift_row", C + "Matrix.c"), ("delete_inactive_*_from_A_and_AT", C + "CoreTransformation.c")], ["internal state between reductions (monitor linked in)"])
p("C21", "Row activity bounds stay valid", "After every reduction step the stored minimum and maximum of each row's activity enclose the values the row can take under the current bounds, and the stored counts of unbounded contributions are exact.",
  ["inputs", "histories"], "every problem and every sequence of bound changes, fixings, substitutions and merges", IN, [C + "Activity.c", C + "CoreTransformation.c"], [("update_activities_*, Activity_init, recompute_n_infs", C + "Activity.c")], ["internal state between reductions (monitor linked in)"])
p("C22", "Counts of opposing rows stay exact", "After every reduction step, for every variable the stored numbers of rows that could be violated by increasing and by decreasing it are exact.",
  ["inputs", "histories"], "every problem and every sequence of reduction steps", IN, [C + "Locks.c", X + "DtonsEq.c"], [("new_locks, update_locks_*", C + "Locks.c")], ["internal state between reductions (monitor linked in)"])
p("C23", "The recovery log is decoded as it was encoded", "Every recorded reduction is read back with exactly the row, column, coefficients, sides and tags with which it was recorded, in reverse order, however long the log grows and whatever precedes or follows it.",
  ["inputs", "histories"], "every sequence of recorded reductions with arbitrary lengths and values", "Layout errors only show for particular record lengths and neighbours.", [C + "Postsolver.c"], [("save_retrieval_* and postsolver_run", C + "Postsolver.c")])
p("C24", "Compaction keeps data attached to its row or column", "When removed rows and columns are squeezed out, every surviving row and column keeps its coefficients, sides, bounds, cost and name mapping, in the original order, and recovery maps indices back exactly.",
  ["inputs", "histories"], "every pattern of removed rows and columns and every array length", "The tests check a few patterns on small arrays.", [C + "utils.c", C + "Problem.c", C + "Constraints.c"], [("shrink_*", C + "utils.c"), ("problem_clean, constraints_clean", C + "Problem.c")])
p("C25", "Growable lists keep their contents", "Appending to the internal lists preserves all earlier elements and their order, adds exactly the new ones, and never writes outside the allocation, for any initial capacity and any number of appended elements.",
  ["inputs", "histories"], "every sequence of appends, including appends of whole arrays larger than twice the capacity", "The tests append a few dozen elements.", ["include/data_structures/Vec_macros.h"], [("append, append_array, clear_no_resize", "include/data_structures/Vec_macros.h")])
p("C26", "No out-of-bounds access", "Construction, presolve, recovery and release never read or write outside allocated memory, use released memory or free twice, for any valid problem and settings.",
  ["inputs", "configurations", "histories"], "every valid problem, settings combination and order of API calls", "The tests run without memory checking on fixed problems.", [C + "Matrix.c", C + "Presolver.c", C + "Postsolver.c", "include/data_structures/Vec_macros.h"], [("index arithmetic of row storage, lists and logs", C + "Matrix.c")])
p("C27", "Making room in a row leaves other rows intact", "When a row's storage is moved or a coefficient is inserted, changed or removed, the row contains exactly the expected entries in increasing order and every other row's entries are unchanged, whatever the available slack and the shift limit.",
  ["inputs", "histories"], "every matrix layout, row, number of missing slots and shift limit", "The tests move a few rows of small matrices.", [C + "Matrix.c"], [("shift_row, insert_or_update_coeff, remove_coeff", C + "Matrix.c")], ["internal state between reductions (monitor linked in)"])
NA = [("N01", "Safe concurrent use of several instances from different threads", "The library sorts with process-wide scratch pointers; contracts over one call cannot quantify over thread schedules and no installed deductive verifier for C has a concurrency model, so this family cannot decide it."),
      ("N02", "Presolve terminates and its cost stays bounded by the announced limits", "Termination of the outer reduction loop depends on floating-point progress thresholds; a decreases clause would have to be proved over IEEE arithmetic, which the verifier treats as real arithmetic."),
      ("N03", "Allocation failure is reported and nothing leaks", "Every allocation would need a fault-injection history; contracts here assume successful allocation, and the clean-up paths of the code do not establish the documented result, so nothing is claimed.")]
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
        for i, t, r in NA:
            f.write(json.dumps(dict(id=i, title=t[:80], statement=t + ".", quantifier=dict(over=["schedules"] if i == "N01" else ["inputs"], text="all executions"), why_tests_cant="A test samples single executions.", anchors=dict(files=[C + "Presolver.c"], mechanism=[dict(name="run_presolver, new_presolver", where=C + "Presolver.c")]))) + "\n")
    sys.path.insert(0, os.path.join(HERE, "lib"))
    note = "Contracts on the functions named in the evidence file, parsed from the current sources and discharged function by function by z3/cvc5 for all inputs (real arithmetic, mathematical integers with range obligations where stated); what surrounds them is only exercised by the bounded stand-in (compiled library on generated problems against an oracle), which is labelled bounded and not counted as proved."
    M = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[dict(property=q["id"], quick_cmd=f"python3 check.py {q['id']} --tier quick", thorough_cmd=f"python3 check.py {q['id']} --tier thorough",
        technique="contract-based deductive verification of the real functions (own VC generator over clang's AST, z3/cvc5), with a bounded stand-in for the uncontracted rest", level="proof", level_note=note) for q in P],
        not_applicable=[dict(property=i, reason=r) for i, t, r in NA])
    json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
