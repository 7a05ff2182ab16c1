"""What each property's bounded stand-in runs, and which functions carry its contracts."""
import oracle as O
ALLF = dict(base=4, mid=2, dton=2, fill=1, pcols=2, prows=2, ston=2, dualfix=2, prop=2, triv=2, degenerate=1, big=.05)
GEN = ["default", "default", "random", "random", "mostly"]
H = O.hookf
B = {}   # id -> dict(families, settings, oracles, n)
def b(pid, families, settings, oracles, n, **kw): B[pid] = dict(tag=pid, families=families, settings=settings, oracles=oracles, n=n, **kw)
b("C01", ALLF, GEN, [O.o_objective], 12000)
b("C02", ALLF, GEN, [O.o_primal], 12000)
b("C03", ALLF, GEN, [O.o_dual], 9000)
b("C04", ALLF, GEN, [O.o_stationarity], 25000)
b("C05", dict(ALLF, prop=4, triv=4, prows=4), GEN, [O.o_infeasible], 14000)
b("C06", dict(ALLF, dualfix=6, pcols=4), GEN, [O.o_unbounded], 14000)
b("C07", dict(ALLF, fill=3, huge=.05), GEN + ["limits"], [O.o_wellformed], 25000)
b("C08", dict(ALLF, big=.1), GEN, [O.o_inputs], 9000)
b("C09", dict(ALLF, big=.1), GEN, [O.o_repeat], 9000)
b("C10", ALLF, ["random"], [O.o_settings, O.o_stats], 15000)
b("C11", dict(ALLF, huge=.05), GEN + ["none"], [O.o_stats], 20000)
b("C12", ALLF, ["limits"], [O.o_limits], 9000)
EQ = [O.o_equiv]
b("C13", dict(triv=8, degenerate=2, base=1, mid=1), ["none", "none", "random", "default"], EQ, 9000)
b("C14", dict(prop=8, base=2, mid=1), ["only:primal_propagation", "only:primal_propagation+finite_bound_tightening", "with:primal_propagation", "only:primal_propagation+finite_bound_tightening+relax_bounds"], EQ, 9000)
b("C15", dict(dton=8, fill=3, mid=1), ["only:dton_eq", "only:dton_eq+ston_cols", "with:dton_eq", "limits"], EQ, 9000)
b("C16", dict(ston=8, base=2, mid=1), ["only:ston_cols", "only:ston_cols+dton_eq", "with:ston_cols"], EQ, 9000)
b("C17", dict(dualfix=8, base=2, degenerate=1), ["only:dual_fix", "with:dual_fix"], EQ, 9000)
b("C18", dict(prows=8, base=2, mid=1), ["only:parallel_rows", "with:parallel_rows"], EQ, 9000)
b("C19", dict(pcols=8, base=1, mid=1), ["only:parallel_cols", "with:parallel_cols"], EQ, 9000)
b("C20", dict(ALLF, fill=4, dton=4, tiny=1), GEN + ["limits"], [H(1)], 25000, fallback=[O.o_wellformed, O.o_objective, O.o_stationarity])
b("C21", dict(ALLF, prop=4), GEN, [H(2)], 25000, fallback=[O.o_objective, O.o_infeasible])
b("C22", dict(ALLF, dualfix=4), GEN, [H(4)], 25000, fallback=[O.o_objective, O.o_unbounded])
b("C23", dict(ALLF, big=.2), GEN, [O.o_primal, O.o_stationarity], 9000)
b("C24", dict(ALLF, mid=4, huge=.05), GEN, [O.o_wellformed, O.o_primal, O.o_stationarity], 9000)
b("C25", dict(ALLF, big=.6, huge=.3), ["default", "none", "random"], [O.o_wellformed, O.o_primal, O.o_stationarity], 5000)
b("C26", dict(ALLF, huge=.03, tiny=.5), GEN + ["limits"], [O.o_memory], 5000)
b("C27", dict(fill=8, dton=4, mid=1), ["only:dton_eq", "limits", "with:dton_eq"], [H(1)], 20000, fallback=[O.o_wellformed, O.o_objective, O.o_stationarity])
B["C26"]["asan"] = True
LEVEL = {}
TRUSTED = ["clang 18 front end (AST of the production configuration)", "lib/prove (symbolic execution, obligation generator)", "z3", "cvc5", "the contracts in specs/"]
