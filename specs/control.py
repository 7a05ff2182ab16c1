"""The driver (C05, C06, C07, C10, C11, C12, C02-C04): which reductions run, what becomes of verdicts, when the driver stops, what is reported."""
from spec import *
import z3
from core import *
INFEAS_, UNB_ = INFEAS, UNB
V = lambda s: Or(s == INFEAS, s == UNB)          # verdicts
# work that is left: rows with one entry, empty rows, empty columns
PEND = ("singleton rows", "empty rows", "empty columns")
def pend(c, name, r):
    o = {p: c.gget(p) for p in PEND}; T_ = z3.BoolVal(True)
    n = {"remove_ston_rows": (r != UNCH, Or(r != UNCH, o[PEND[1]]), Or(r != UNCH, o[PEND[2]])), "remove_empty_rows": (o[PEND[0]], False, o[PEND[2]]), "remove_empty_cols": (o[PEND[0]], o[PEND[1]], False), "check_activities": (T_, o[PEND[1]], T_), "remove_parallel_rows": (o[PEND[0]], o[PEND[1]], o[PEND[2]])}.get(name, (T_,) * 3)
    for p, x in zip(PEND, n): c.gset(p, x if z3.is_expr(x) else z3.BoolVal(x))
def none_left(c): return And(*[Not(c.gget(p)) for p in PEND])
# ------------------------------------------------------------------ phases as the driver sees them: verdicts are noted in ghost cells, everything else may change
def phase(file, name, statuses):
    @contract(file, name, [], key=name + "/phase", assumed=f"{name} returns one of {statuses} and does not change the pointer structure of the problem")
    def _(c):
        c.wild(c.args[0]); i0, u0 = c.gget("infeasible"), c.gget("unbounded")
        yield
        c.gset("dirty", z3.BoolVal(True)); r = rc(c); pend(c, name, r); c.ensures("status", Or(*[r == s for s in statuses])); c.gset("infeasible", Or(i0, r == INFEAS)); c.gset("unbounded", Or(u0, r == UNB))
PH = {"remove_variables_with_close_bounds": ("SimpleReductions.c", (0, 2)), "remove_empty_cols": ("SimpleReductions.c", (0, 6)), "simple_dual_fix": ("Simple_dual_fix.c", (0, 6)), "remove_ston_rows": ("SimpleReductions.c", (0, 1, 2)), "remove_empty_rows": ("SimpleReductions.c", (0, 2)),
      "remove_ston_cols": ("StonCols.c", (0, 6)), "remove_dton_eq_rows": ("DtonsEq.c", (0, 2)), "check_activities": ("SimpleReductions.c", (0, 2)), "propagate_primal": ("Primal_propagation.c", (0, 2)), "remove_parallel_rows": ("Parallel_rows.c", (0, 2)), "remove_parallel_cols": ("Parallel_cols.c", (0, 6))}
for n_, (f_, s_) in PH.items(): phase(f_, n_, s_)
OP = {n: n + "/phase" for n in PH}
def verdicts(c, ok=(0, 2, 6)):
    """the status returned carries exactly the verdicts of the phases run"""
    i0, u0 = c.gget("infeasible"), c.gget("unbounded")
    def post():
        r = rc(c)
        if c.mode == "call": c.gset("infeasible", c.eng.fresh("gi", B)); c.gset("unbounded", c.eng.fresh("gu", B)); c.gset("dirty", z3.BoolVal(True)); [c.gset(p, c.eng.fresh("pending", B)) for p in PEND]
        i1, u1 = c.gget("infeasible"), c.gget("unbounded")
        c.ensures("no row with one entry, no empty row and no empty column is left", Implies(r == UNCH, none_left(c)))
        c.ensures("only verdicts or unchanged", Or(*[r == s for s in ok])); c.ensures("a verdict of a phase is returned", Implies(Or(And(i1, Not(i0)), And(u1, Not(u0))), r != UNCH))
        c.ensures("infeasible only when a phase said so", Implies(r == INFEAS, i1)); c.ensures("unbounded or infeasible only when a phase said so", Implies(r == UNB, u1))
        c.ensures("verdicts stay noted", And(Implies(i0, i1), Implies(u0, u1))); c.ensures("no phase follows a verdict", Implies(r == UNCH, And(i1 == i0, u1 == u0)))
    return post
@contract("Presolver.c", "run_trivial_explorers", ["C05", "C06", "C10", "C13"], opaque=OP, key="run_trivial_explorers/control")
def _(c):
    prob, stgs = c.args; c.wild(prob); on = c.get(stgs, "dual_fix"); i0, u0 = c.gget("infeasible"), c.gget("unbounded"); post = verdicts(c)
    c.before("simple_dual_fix", lambda c2, a: [("dual fixing only when enabled", tobool(on))])
    c.loop(0, lambda L: [("verdicts before this call stay", And(c.at(L).gget("infeasible") == i0, c.at(L).gget("unbounded") == u0))])
    yield
    post()
TR = dict(OP, run_trivial_explorers="run_trivial_explorers/control")
@contract("Presolver.c", "run_fast_explorers", ["C05", "C06", "C10", "C15", "C16"], opaque=TR, key="run_fast_explorers/control")
def _(c):
    prob, stgs = c.args; c.wild(prob); s = lambda f: tobool(c.get(stgs, f)); i0, u0 = c.gget("infeasible"), c.gget("unbounded"); c.requires(none_left(c), "nothing left from before"); post = verdicts(c); sc, de, ms = s("ston_cols"), s("dton_eq"), c.get(stgs, "max_shift")
    c.before("remove_ston_cols", lambda c2, a: [("column singletons only when enabled", sc)])
    c.before("remove_dton_eq_rows", lambda c2, a: [("two-variable equalities only when enabled, with the fill-in limit", And(de, a[1] == ms))])
    yield
    post()

NNZ = lambda c, prob: c.get(c.get(c.get(prob, "constraints"), "A"), "nnz")
CRED = ("nnz_removed_primal_propagation", "nnz_removed_parallel_rows", "nnz_removed_parallel_cols")
def total(c, stats, fs): return sum((c.get(stats, f) for f in fs[1:]), c.get(stats, fs[0]))
@contract("Presolver.c", "run_medium_explorers", ["C05", "C06", "C10", "C11", "C14", "C18", "C19"], opaque=TR, key="run_medium_explorers/control")
def _(c):
    prob, stgs, stats = c.args; c.wild(prob); s = lambda f: tobool(c.get(stgs, f)); i0, u0 = c.gget("infeasible"), c.gget("unbounded"); c.requires(none_left(c), "nothing left from before"); post = verdicts(c); pp, pr, pc_, fb = s("primal_propagation"), s("parallel_rows"), s("parallel_cols"), s("finite_bound_tightening"); n0, t0 = NNZ(c, prob), total(c, stats, CRED)
    for f in CRED: c.modifies(stats, f)
    for f in ("primal_propagation", "parallel_rows", "parallel_cols"): c.modifies(stats, "time_" + f)
    c.before("propagate_primal", lambda c2, a: [("bound propagation only when enabled, with the chosen tightening", And(pp, tobool(a[1]) == fb))])
    c.before("check_activities", lambda c2, a: [("redundant sides only when enabled", pp)])
    c.before("remove_parallel_rows", lambda c2, a: [("parallel rows only when enabled", pr)]); c.before("remove_parallel_cols", lambda c2, a: [("parallel columns only when enabled", pc_)])
    yield
    post(); c.ensures("removed nonzeros are credited", Implies(rc(c) == UNCH, total(c, stats, CRED) - t0 == n0 - NNZ(c, prob)))
@contract("Presolver.c", "update_complexity", ["C12", "C10"])
def _(c):
    cur, before, after = c.args; c.requires(Or(to_int(cur) == 0, to_int(cur) == 1), "a complexity class")
    yield
    c.ensures("medium after a fast phase that removed little, otherwise fast", to_int(c.result) == If(And(to_int(cur) == 0, z3.ToReal(after) >= z3.RealVal("0.95") * z3.ToReal(before)), 1, 0))
@contract("Presolver.c", "update_termination", ["C12", "C05", "C06"])
def _(c):
    after, before, cx, status, tmax, timer = c.args
    yield
    r = tobool(c.result)
    if c.mode == "call": up = c.eng.fresh("timeup", B)
    else:
        k = c.eng.clock[-1] if c.eng.clock else {}; g = lambda f: z3.ToReal(k.get((f,), c.eng.fresh("never_read", I)) - timer["start"][f]); up = g("tv_sec") + g("tv_nsec") / 1000000000 >= tmax
    c.gset("timeup", up); c.gset("unchecked", z3.BoolVal(False))
    c.ensures("stops after a verdict, after a cycle that removed little, and when the time is up", r == Or(to_bv(status, 8) & z3.BitVecVal(6, 8) != 0, And(to_int(cx) == 1, z3.ToReal(after) >= z3.RealVal("0.95") * z3.ToReal(before)), up))
@contract("Presolver.c", "final_status", ["C11", "C10"])
def _(c):
    st, = c.args; g = lambda f: c.get(st, f)
    yield
    c.ensures("reduced exactly when the size changed", rc(c) == If(And(*[g(f + "_original") == g(f + "_reduced") for f in ("n_cols", "n_rows", "nnz")]), UNCH, RED))
SWITCH = ("ston_cols", "dton_eq", "parallel_rows", "parallel_cols", "primal_propagation", "dual_fix", "finite_bound_tightening", "relax_bounds", "verbose")
def setter(name, on):
    @contract("Presolver.c", name, ["C10"])
    def _(c):
        st, = c.args
        for f in SWITCH: c.modifies(st, f)
        yield
        for f in SWITCH: c.ensures(f"{f} is {'on' if on else 'off'}", tobool(c.get(st, f)) == on)
setter("set_settings_true", True); setter("set_settings_false", False)
@contract("Presolver.c", "default_settings", ["C10", "C26"], safe=True)
def _(c):
    yield
    for f in SWITCH: c.ensures(f"{f} is on", tobool(c.get(c.result, f)))
    c.ensures("limits", And(c.get(c.result, "max_shift") == 10, c.get(c.result, "max_time") == 60))
@contract("Presolver.c", "init_stats", ["C11", "C26"], safe=True)
def _(c):
    m, n, nnz = c.args
    yield
    g = lambda f: c.get(c.result, f); c.ensures("original dimensions", And(g("n_rows_original") == m, g("n_cols_original") == n, g("nnz_original") == nnz))
    for f in ("n_rows_reduced", "n_cols_reduced", "nnz_reduced", "nnz_removed_trivial", "nnz_removed_fast", *CRED): c.ensures(f"{f} starts at zero", g(f) == 0)
@contract("Presolver.c", "populate_presolved_problem", ["C07", "C11", "C01", "C12", "C24"], bmc=(2,))
def _(c):
    ps, = c.args; rp, prob = c.get(ps, "reduced_prob"), c.get(ps, "prob"); cons, obj = c.get(prob, "constraints"), c.get(prob, "obj"); D = Cons(c, cons); A = c.get(cons, "A"); n, m = c.get(A, "n"), c.get(A, "m"); st = c.arr(c.get(A, "p")).start
    c.requires(And(n >= 0, m >= 0, n < 2**31, m < 2**31 - 1), "dimensions"); q = c.ghost("index")
    for f in ("m", "n", "nnz", "obj_offset"): c.modifies(rp, f)
    for f in ("Ax", "Ai", "rhs", "lhs", "c", "lbs", "ubs", "Ap"): c.modifies_ptr(rp, f)
    c.loop(0, lambda L: [("bounds so far", Implies(And(0 <= q, q < L["i"]), And(c.at(L).arr(c.at(L).get(rp, "lbs"))[q] == D.lb[q], c.at(L).arr(c.at(L).get(rp, "ubs"))[q] == D.ub[q])))])
    c.loop(1, lambda L: [("row pointers so far", Implies(And(0 <= q, q < L["i"]), c.at(L).arr(c.at(L).get(rp, "Ap"))[q] == st[q]))])
    yield
    if c.mode == "call": return
    g = lambda f: c.get(rp, f); same_ = lambda f, p: c.eng.binop("==", g(f), p, None, c.st)
    c.ensures("dimensions", And(g("m") == m, g("n") == n, g("nnz") == c.get(A, "nnz"))); c.ensures("offset", g("obj_offset") == c.get(obj, "offset"))
    c.ensures("coefficients, sides and costs", And(same_("Ax", c.get(A, "x")), same_("Ai", c.get(A, "i")), same_("lhs", D.plhs), same_("rhs", D.prhs), same_("c", c.get(obj, "c"))))
    c.ensures("bounds", Implies(And(0 <= q, q < n), And(c.arr(g("lbs"))[q] == D.lb[q], c.arr(g("ubs"))[q] == D.ub[q]))); c.ensures("row pointers", Implies(And(0 <= q, q <= m), c.arr(g("Ap"))[q] == st[q]))
    c.ensures("room for them", And(c.rlen(g("lbs")) == n, c.rlen(g("ubs")) == n, c.rlen(g("Ap")) == m + 1))
@contract("Primal_propagation.c", "remove_redundant_bounds", [], key="remove_redundant_bounds/phase", assumed="remove_redundant_bounds leaves the number of nonzeros alone")
def _(c):
    cons, = c.args; c.wild(cons); n0 = c.get(c.get(cons, "A"), "nnz")
    yield
    c.ensures("nonzeros", c.get(c.get(cons, "A"), "nnz") == n0)
@contract("Problem.c", "problem_clean", [], key="problem_clean/phase", assumed="problem_clean leaves the number of nonzeros alone (remove_extra_space is under contract)")
def _(c):
    prob, al = c.args; c.wild(prob); n0 = NNZ(c, prob)
    yield
    c.gset("dirty", And(c.gget("dirty"), Not(tobool(al)))); c.ensures("nonzeros", NNZ(c, prob) == n0)
CREDITS = ("nnz_removed_trivial", "nnz_removed_fast") + CRED
def local(c2, name): return sym.Loop(c2.eng, c2.st, c2.st, set()).var(name)
@contract("Presolver.c", "populate_presolved_problem", [], key="populate_presolved_problem/phase", assumed="")
def _(c):
    ps, = c.args; rp = c.get(ps, "reduced_prob")
    for f in ("m", "n", "nnz", "obj_offset"): c.modifies(rp, f)
    for f in ("Ax", "Ai", "rhs", "lhs", "c", "lbs", "ubs", "Ap"): c.modifies_ptr(rp, f)
    yield
    c.gset("reported", z3.BoolVal(True))
@contract("Presolver.c", "run_presolver", ["C05", "C06", "C10", "C11", "C12"], opaque=dict(TR, run_fast_explorers="run_fast_explorers/control", run_medium_explorers="run_medium_explorers/control", update_termination="update_termination", update_complexity="update_complexity", final_status="final_status", remove_redundant_bounds="remove_redundant_bounds/phase", problem_clean="problem_clean/phase", populate_presolved_problem="populate_presolved_problem/phase"), bmc=(2,))
def _(c):
    ps, = c.args; prob, st, stgs, rp = c.get(ps, "prob"), c.get(ps, "stats"), c.get(ps, "stgs"), c.get(ps, "reduced_prob"); c.wild(prob); A = c.get(c.get(prob, "constraints"), "A"); n0, t0 = c.get(A, "nnz"), total(c, st, CREDITS)
    for f in CREDITS + ("n_rows_reduced", "n_cols_reduced", "nnz_reduced", "time_fast_reductions", "time_medium_reductions", "time_primal_propagation", "time_parallel_rows", "time_parallel_cols", "time_presolve"): c.modifies(st, f)
    for f in ("m", "n", "nnz", "obj_offset"): c.modifies(rp, f)
    for f in ("Ax", "Ai", "rhs", "lhs", "c", "lbs", "ubs", "Ap"): c.modifies_ptr(rp, f)
    for g in ("infeasible", "unbounded", "timeup", "unchecked", "reported"): c.requires(Not(c.gget(g)), "nothing has happened yet")
    c.requires(c.gget("dirty")); tmax = c.get(stgs, "max_time"); rb = tobool(c.get(stgs, "relax_bounds")); i0 = [c.get(st, f + "_original") for f in ("n_rows", "n_cols", "nnz")]
    goes = lambda c2, a: [("nothing runs after the time is up", And(Not(c2.gget("timeup")), Not(tobool(local(c2, "terminate"))))), ("the time is checked after every phase", Not(c2.gget("unchecked"))), ("nothing runs after a verdict", And(Not(c2.gget("infeasible")), Not(c2.gget("unbounded"))))]
    for f in ("run_fast_explorers", "run_medium_explorers"): c.before(f, lambda c2, a: goes(c2, a))
    c.before("run_trivial_explorers", goes)
    c.before("update_termination", lambda c2, a: [("the time limit is the chosen one", a[4] == tmax), ("time counts from the start of the run", And(*[a[5]["start"][f] == c.eng.clock[0][(f,)] for f in ("tv_sec", "tv_nsec")])), ("status of the phase", V(to_int(a[3])) == Or(c2.gget("infeasible"), c2.gget("unbounded")))])
    c.before("remove_redundant_bounds", lambda c2, a: [("bounds are relaxed only when enabled", rb)])
    c.before("populate_presolved_problem", lambda c2, a: [("the problem is cleaned of removed rows and columns before it is reported", Not(c2.gget("dirty"))), ("no verdict", And(Not(c2.gget("infeasible")), Not(c2.gget("unbounded")))), ("no row with one entry, no empty row and no empty column is left", none_left(c2))])
    c.before("problem_clean", lambda c2, a: [("no verdict", And(Not(c2.gget("infeasible")), Not(c2.gget("unbounded"))))])
    def inv(L):
        k = c.at(L); return [("verdicts stop the run", And(V(to_int(L["status"])) == Or(k.gget("infeasible"), k.gget("unbounded")), Or(V(to_int(L["status"])), to_int(L["status"]) == UNCH), Implies(V(to_int(L["status"])), tobool(L["terminate"])), Implies(to_int(L["status"]) == UNB, k.gget("unbounded")), Implies(to_int(L["status"]) == INFEAS, k.gget("infeasible")))),
            ("credits", Implies(to_int(L["status"]) == UNCH, total(k, st, CREDITS) - t0 == n0 - k.get(A, "nnz"))), ("time", And(Implies(k.gget("timeup"), tobool(L["terminate"])), Not(k.gget("unchecked")), Not(k.gget("reported")))), ("complexity class", Or(to_int(L["curr_complexity"]) == 0, to_int(L["curr_complexity"]) == 1)), ("to be cleaned", k.gget("dirty")), ("nothing is left when the run ends", Or(Not(tobool(L["terminate"])), V(to_int(L["status"])), none_left(k))), ("original size", And(*[k.get(st, f + "_original") == x for f, x in zip(("n_rows", "n_cols", "nnz"), i0)]))]
    c.loop(0, inv)
    yield
    r = rc(c); v = Or(c.gget("infeasible"), c.gget("unbounded")); g = lambda f: c.get(st, f)
    c.ensures("a verdict is returned exactly when a phase gave one", And(V(r) == v, Implies(r == INFEAS, c.gget("infeasible")), Implies(r == UNB, c.gget("unbounded"))))
    c.ensures("otherwise reduced exactly when the size changed", Implies(Not(v), r == If(And(*[x == g(f + "_reduced") for f, x in zip(("n_rows", "n_cols", "nnz"), i0)]), UNCH, RED)))
    c.ensures("reported sizes are those of the reduced problem", Implies(Not(v), And(g("n_rows_reduced") == c.get(A, "m"), g("n_cols_reduced") == c.get(A, "n"), g("nnz_reduced") == c.get(A, "nnz"))))
    c.ensures("the nonzeros credited add up", Implies(Not(v), total(c, st, CREDITS) - t0 == n0 - g("nnz_reduced"))); c.ensures("the reduced problem is reported", Implies(Not(v), c.gget("reported")))
