"""Driver: every run parses the current sources, regenerates all obligations of the contracts a property depends on, and discharges them."""
import sys, os, time, json, re, subprocess, tempfile, multiprocessing as mp, importlib, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import z3, sym, spec, cast
HERE = os.path.dirname(os.path.abspath(__file__))
def load_specs():
    d = os.path.join(HERE, "..", "specs"); sys.path.insert(0, d)
    for f in sorted(glob.glob(os.path.join(d, "*.py"))): importlib.import_module(os.path.splitext(os.path.basename(f))[0])
def skolem(eng, g, sk):
    """outermost universal quantifiers of a goal replaced by constants"""
    if z3.is_quantifier(g) and g.is_forall():
        cs = [eng.fresh("sk", g.var_sort(i)) for i in range(g.num_vars())]; sk += [c for c in cs if z3.is_int(c)]
        return skolem(eng, z3.substitute_vars(g.body(), *reversed(cs)), sk)
    if z3.is_implies(g): return z3.Implies(g.arg(0), skolem(eng, g.arg(1), sk))
    if z3.is_and(g): return z3.And([skolem(eng, x, sk) for x in g.children()])
    return g
def has_sum(eng, e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in eng.by_name and x.num_args() == 2: return True
        st += x.children() if z3.is_app(x) else [x.body()] if z3.is_quantifier(x) else []
    return False
def inst(eng, f, cands, out, g=None):
    if z3.is_implies(f): return inst(eng, f.arg(1), cands, out, f.arg(0) if g is None else z3.And(g, f.arg(0)))
    if z3.is_and(f):
        for x in f.children(): inst(eng, x, cands, out, g)
        return
    if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == z3.IntSort() and has_sum(eng, f):
        for c in cands:
            b = z3.substitute_vars(f.body(), c); out.append(b if g is None else z3.Implies(g, b))
def conj(g):
    if z3.is_and(g): return [y for x in g.children() for y in conj(x)]
    if z3.is_implies(g): return [z3.Implies(g.arg(0), y) for y in conj(g.arg(1))]
    return [g]
def queries(eng, o):
    sk = []; goal = skolem(eng, o.goal, sk)
    return [query(eng, o, g, sk) for g in conj(goal)]
def query(eng, o, goal, sk):
    n, pc = o.hyps; hy = eng.facts[:n] + list(pc); ex = []
    if eng.symbols:
        for f in hy: inst(eng, f, sk + eng.insts, ex)
    fs = list(eng.base) + hy + ex; ng = z3.Not(goal)
    return fs + (eng.lemmas_for(fs + [ng], sk) if eng.symbols else []) + [ng]
def z3_check(fs, ms, mbqi=False, seed=0):
    so = z3.Solver(); so.set("timeout", ms); so.set("smt.mbqi", mbqi)
    if seed: so.set("smt.random_seed", seed)
    so.add(fs); r = so.check(); return r, so
def cvc5_check(fs, ms):
    so = z3.Solver(); so.add(fs); t = "(set-logic ALL)\n" + so.to_smt2().replace("(set-info :status unknown)", "").replace("int_to_bv", "int2bv").replace("ubv_to_int", "bv2nat")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(t)
    try:
        p = subprocess.run(["cvc5", f"--tlimit={ms}", f.name], capture_output=True, text=True, timeout=ms / 1000 + 5); return p.stdout.strip().split("\n")[0]
    except Exception: return "error"
    finally: os.unlink(f.name)
def discharge(eng, o, ms=8000, qs=None):
    """-> (verdict, back end, seconds)"""
    t0 = time.time(); by = "z3"
    for fs in qs or queries(eng, o):
        v, b = solve(fs, ms)
        if v != "proved": return v, b, time.time() - t0
        if b != "z3": by = b
    return "proved", by, time.time() - t0
def solve(fs, ms):
    r, so = z3_check(fs, min(ms, 1500))
    if r == z3.unsat: return "proved", "z3"
    if r == z3.sat: return "refuted", "z3"
    if ms <= 2000: return "unknown", "z3"
    gs = abstract(fs); ab = gs or fs; r2, r3, r4, r8 = (relevant(ab, *x) for x in ((2, 2), (4, 2), (4, 3), (8, 3)))
    tries = lambda *q: any(g is not None and z3_check(g, min(ms, t), seed=sd)[0] == z3.unsat for g, sd, t in q)
    if tries((r3, 0, 3000), (gs, 0, 2500), (r4, 0, 3000), (r8, 0, 5000), (r2, 0, 2500), (r3, 7, 3000), (r8, 7, 6000)): return "proved", "z3"
    if z3_check(fs, min(ms, 3000))[0] == z3.unsat: return "proved", "z3"
    c = cvc5_check(fs, ms)
    if c == "unsat": return "proved", "cvc5"
    if split(ab, time.time() + ms / 1000): return "proved", "z3"
    r, so = z3_check(fs, ms, seed=7)
    if r == z3.unsat or tries((r8, 7, 6000), (r2, 13, 6000), (r3, 13, 6000), (ab if gs else None, 13, 6000), (r8, 13, 8000)): return "proved", "z3"
    return "unknown", so.reason_unknown() + "; cvc5: " + c
def names(f):
    out, seen, st = set(), set(), [f]
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): st.append(e.body())
        elif z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(e.decl().name())
            st += e.children()
    return out
def relevant(fs, tol=4, depth=3):
    """the query without the hypotheses whose rarest names are far from the goal (the last formula); None if that is most of them"""
    S = [names(f) for f in fs]; cnt = {}
    for s in S:
        for x in s: cnt[x] = cnt.get(x, 0) + 1
    cur = set(S[-1]); inc = {len(fs) - 1}
    for _ in range(depth):
        add = {i for i, s in enumerate(S) if s and i not in inc and any(x in cur and cnt[x] <= tol * min(cnt[y] for y in s) for x in s)}
        for i in add: inc.add(i); cur = cur | S[i]
    return [fs[i] for i in sorted(inc)] if len(inc) < 0.8 * len(fs) else None
UF = {k: z3.Function(n, z3.RealSort(), z3.RealSort(), z3.RealSort()) for k, n in ((z3.Z3_OP_MUL, "mul?"), (z3.Z3_OP_DIV, "div?"))}
def abstract(fs):
    """the query with products and quotients of unknowns as uninterpreted functions (unsatisfiable only if the query is); None if there are none"""
    memo = {}; hit = [0]; nv = [0]
    def go(e):
        k = e.get_id()
        if k in memo: return memo[k][0]
        if z3.is_quantifier(e):
            nv[0] += 1; cs = [z3.Const(f"q?{nv[0]}.{i}", e.var_sort(i)) for i in range(e.num_vars())]; rc = list(reversed(cs)); b0 = z3.substitute_vars(e.body(), *rc); b = go(b0)
            if z3.eq(b, b0): r = e
            else:
                ps = [z3.MultiPattern(*[go(z3.substitute_vars(t, *rc)) for t in e.pattern(i).children()]) for i in range(e.num_patterns())]
                r = (z3.ForAll if e.is_forall() else z3.Exists)(cs, b, **({"patterns": ps} if ps else {}))
        elif not z3.is_app(e) or e.num_args() == 0: r = e
        else:
            ch = [go(c) for c in e.children()]; op = e.decl().kind(); r = None
            if op == z3.Z3_OP_MUL and z3.is_real(e):
                nc = [c for c in ch if not z3.is_rational_value(c)]
                if len(nc) > 1:
                    hit[0] += 1; r = nc[0]
                    for c in nc[1:]: r = UF[op](r, c)
                    for c in ch:
                        if z3.is_rational_value(c): r = c * r
            elif op == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]): hit[0] += 1; r = UF[op](*ch)
            if r is None: r = e if all(z3.eq(x, y) for x, y in zip(ch, e.children())) else e.decl()(*ch)
        memo[k] = (r, e); return r
    gs = [go(f) for f in fs]; return gs if hit[0] else None
def atoms(g): return [a for c in g.children() for a in atoms(c)] if z3.is_and(g) or z3.is_or(g) or z3.is_not(g) or z3.is_implies(g) else [g] if not z3.is_true(g) and not z3.is_false(g) else []
def ite_conditions(fs):
    """conditions that choose between array or integer values, the ones in the negated goal (last) first"""
    n = {}; seen = set()
    def walk(e, w):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): return walk(e.body(), w)
        if not z3.is_app(e): return
        if e.decl().kind() == z3.Z3_OP_ITE and (z3.is_array(e) or z3.is_int(e)) and not spec.has_var(e.arg(0)):
            for a in atoms(e.arg(0)): k = a.get_id(); n[k] = (n.get(k, (0,))[0] + w, a)
        for c in e.children(): walk(c, w)
    for f in reversed(fs): walk(f, 100 if f is fs[-1] else 1)
    return [c for _, c in sorted(n.values(), key=lambda x: -x[0])]
def split(fs, until, depth=3):
    """the same query by cases on a condition where paths were joined"""
    cs = ite_conditions(fs)[:1]
    if not cs or depth == 0 or time.time() > until: return False
    for v in (True, False):
        gs = [g for g in (z3.simplify(z3.substitute(f, (cs[0], z3.BoolVal(v)))) for f in fs) if not z3.is_true(g)] + [cs[0] if v else z3.Not(cs[0])]
        if any(z3.is_false(g) for g in gs): continue
        if time.time() > until: return False
        if z3_check(gs, 1500)[0] != z3.unsat and not split(gs[:-1] + gs[-1:], until, depth - 1): return False
    return True
def one(key, bmc=True, ms=8000, thorough=False):
    key, _, shard = key.partition("@"); key, _, case = key.partition("#"); con = spec.REG[key]; t0 = time.time(); out = dict(function=con.name, key=key, file=con.file, obls=[], error=None, solver_s=0.0, backends={}, bmc=None, used=[], inlined=[])
    try:
        eng, c = spec.verify(con, case=int(case) if case else None); out["gen_s"] = time.time() - t0
        out["used"] = sorted(eng.used_contracts); out["inlined"] = sorted(eng.inlined)
        if shard: eng.obls = eng.obls[int(shard)::con.o["shards"]]
        miss = 0; late = lambda: time.time() - t0 > (900 if thorough else 150); left = []; res = {}
        for n, o in enumerate(eng.obls):          # a quick pass, then the hard ones; after several failures the rest is only looked at briefly: the verdict on the function is settled
            t1 = time.time(); qs = queries(eng, o)
            if not late() and all(z3_check(fs, min(ms, 1500))[0] == z3.unsat for fs in qs): res[n] = ("proved", "z3", time.time() - t1)
            else: left.append((n, qs, time.time() - t1))
        for n, qs, s in left:
            if miss >= 10 or late(): v, b, s1 = "unknown", "not attempted", 0.0
            else: v, b, s1 = discharge(eng, eng.obls[n], ms if miss < 3 else 1000, qs)
            miss += v != "proved"; res[n] = (v, b, s + s1)
        for n, o in enumerate(eng.obls):
            v, b, s = res[n]; out["solver_s"] += s; out["obls"].append(dict(name=o.name, kind=o.kind, verdict=v, by=b, s=round(s, 3)))
            if v == "proved": out["backends"][b] = out["backends"].get(b, 0) + 1
        # vacuity: the precondition and the end of the function must not be contradictory
        if c.out is not None and shard in ("", "0"):
            r, _ = z3_check(list(eng.base) + eng.facts[:c.end[0]] + c.end[1], 1500); out["vacuous"] = r == z3.unsat
    except spec.Unsupported as e: out["error"] = f"outside the verifier's reach: {e}"
    except Exception as e:
        import traceback; out["error"] = f"{type(e).__name__}: {e}"; out["trace"] = traceback.format_exc()[-1500:]
    bad = [o for o in out["obls"] if o["verdict"] != "proved"]
    if bmc and (bad or out["error"] or out.get("vacuous")): out["bmc"] = search(key, thorough, {o["name"] for o in bad})
    out["s"] = time.time() - t0; return out
def search(key, thorough=False, suspects=(), budget=None):
    """bounded search for a counterexample of any obligation: loops unrolled, callees inlined; the obligations that were not discharged first"""
    con = spec.REG[key]; res = dict(found=None, error=None, checked=0); t0 = time.time(); budget = budget or (900 if thorough else 200); sus = {re.sub(r" \[\d+\]$", "", n) for n in suspects}
    try:
        for K in con.o.get("bmc", (2, 3)):
            eng, c = spec.verify(con, "bmc", K)
            if eng.bounded_hit: res["error"] = "uses a function without bounded semantics"; return res
            if c.out is not None and z3_check(list(eng.base) + eng.facts[:c.end[0]] + c.end[1], 6000, mbqi=True)[0] == z3.unsat: res["vacuous"] = res.get("vacuous", ()) + (K,); continue
            for o in sorted(eng.obls, key=lambda o: o.name not in sus):
                if o.kind not in ("post", "frame", "null", "bounds", "div") or o.kind == "frame" and "' changed" in o.name: continue          # storage allocated on the way
                if time.time() - t0 > budget: res["error"] = "search stopped by its time limit"; return res
                n, pc = o.hyps; r, so = z3_check(list(eng.base) + eng.facts[:n] + list(pc) + [z3.Not(o.goal)], 20000 if thorough else 6000, mbqi=True); res["checked"] += 1
                if r == z3.sat:
                    m = so.model(); res["found"] = dict(obligation=o.name, kind=o.kind, bound=K, model={str(d): str(m[d])[:200] for d in m.decls()}); return res
    except spec.Unsupported as e: res["error"] = str(e)
    except Exception as e: res["error"] = f"{type(e).__name__}: {e}"
    return res
def search_all(k): return search(k, budget=3000)
def lemma_schemas():
    """the sum and count lemmas, by induction on the upper end (hi >= lo; S defined by S(lo,lo)=0, S(lo,h+1)=S(lo,h)+f(h))"""
    out = []; lo, h, p, w, i = z3.Ints("lo h p w i")
    for srt, nm in ((z3.RealSort(), "sum"), (z3.IntSort(), "count")):
        f, g = z3.Function("f", z3.IntSort(), srt), z3.Function("g", z3.IntSort(), srt); S, U, S1, U1 = (z3.Const(x, srt) for x in ("S", "U", "S1", "U1"))
        step = [h >= lo, S1 == S + f(h), U1 == U + g(h)]
        def pr(name, hyp, goal): r, _ = z3_check(hyp + [z3.Not(goal)], 5000); out.append((f"{nm} lemma: {name}", r == z3.unsat))
        eqr = lambda hi, ex=None: z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi, *([i != p] if ex else [])), f(i) == g(i)))
        pr("equal summands, base", [S == 0, U == 0], S == U)
        pr("equal summands, step", step + [z3.Implies(eqr(h), S == U), eqr(h + 1)], S1 == U1)
        inr = lambda hi: z3.And(lo <= p, p < hi)
        pt = lambda hi, a, b: z3.Implies(z3.And(inr(hi), eqr(hi, True)), a - f(p) == b - g(p))
        pr("one summand changed, base", [S == 0, U == 0, h == lo], pt(h, S, U))
        pr("one summand changed, step", step + [pt(h, S, U), z3.Implies(eqr(h), S == U)], pt(h + 1, S1, U1))
        nz = lambda hi, a: z3.Or(a == 0, z3.Exists([w], z3.And(lo <= w, w < hi, f(w) != 0)))
        pr("nonzero needs a nonzero summand, step", step + [nz(h, S)], nz(h + 1, S1))
        rm = lambda hi, Sf, Sf1, Sg: z3.Implies(z3.And(lo <= p, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), g(i) == f(i + z3.If(i >= p, 1, 0))))), Sg == z3.If(hi <= p, Sf, Sf1 - f(p))); S2 = z3.Const("S2", srt)
        pr("one entry taken out, base", [S == 0, S1 == S + f(lo), U == 0], rm(lo, S, S1, U)); pr("one entry taken out, step", step + [S2 == S1 + f(h + 1), rm(h, S, S1, U)], rm(h + 1, S1, S2, U1))
        if nm == "count":
            z01 = z3.ForAll([i], z3.Or(f(i) == 0, f(i) == 1)); rng = lambda a, hi: z3.And(a >= 0, a <= hi - lo)
            pr("range, step", step + [z01, rng(S, h)], rng(S1, h + 1))
            pr("longer ranges, step", [h >= p, p >= lo, S1 == S + f(h), z01, U <= S, S <= U + h - p], z3.And(U <= S1, S1 <= U + (h + 1) - p))
            up = lambda hi, a: z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), f(i) <= a))
            pr("dominates each summand, step", step + [z01, S >= 0, up(h, S)], up(h + 1, S1))
            two = lambda hi, a: z3.Implies(inr(hi), z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi, i != p), f(i) + f(p) <= a)))
            pr("dominates pairs, step", step + [z01, S >= 0, up(h, S), two(h, S)], two(h + 1, S1))
            ex = lambda hi, a: z3.Or(a == 0, z3.Exists([w], z3.And(lo <= w, w < hi, f(w) == 1)))
            pr("nonzero has a witness, step", step + [z01, ex(h, S)], ex(h + 1, S1))
    return out
def _work(a): 
    try: return one(*a)
    except Exception as e: return dict(function=a[0], key=a[0], file="", obls=[], error=repr(e), solver_s=0.0, backends={}, bmc=None, used=[], inlined=[], s=0)
def run_keys(keys, thorough=False, bmc=True):
    if not keys: return []
    o_ = lambda k: spec.REG[k].o; parts = [(k, x) for k in keys for x in ([f"{k}#{i}" for i in range(o_(k)["cases"])] if o_(k).get("cases") else [f"{k}@{i}" for i in range(o_(k)["shards"])] if o_(k).get("shards") else [k])]
    with mp.get_context("fork").Pool(min(8, len(parts)), maxtasksperchild=4) as p:
        rs = p.map(_work, [(x, bmc and x == k, 20000 if thorough else 8000, thorough) for k, x in parts], chunksize=1)
        out = {}
        for (k, x), r in zip(parts, rs):
            if k not in out: out[k] = r
            else:
                o = out[k]; o["obls"] += r["obls"]; o["solver_s"] += r["solver_s"]; o["error"] = o["error"] or r["error"]; o["used"] = sorted({*o["used"], *r["used"]}); o["inlined"] = sorted({*o["inlined"], *r["inlined"]}); o["s"] = max(o["s"], r["s"]); o["vacuous"] = o.get("vacuous") and (r.get("vacuous") or bool(o_(k).get("shards")))
                for b, n in r["backends"].items(): o["backends"][b] = o["backends"].get(b, 0) + n
        if bmc:          # a function verified by cases is searched once, as a whole
            todo = [k for k in out if (o_(k).get("cases") or o_(k).get("shards")) and (out[k]["error"] or out[k].get("vacuous") or any(o["verdict"] != "proved" for o in out[k]["obls"]))]
            for k, b in zip(todo, p.starmap(search, [(k, thorough, {o["name"] for o in out[k]["obls"] if o["verdict"] != "proved"}) for k in todo])): out[k]["bmc"] = b
    return list(out.values())
def run(pid, seed=1, thorough=False):
    load_specs(); keys = [k for k, c in spec.REG.items() if pid in c.props and c.o.get("assumed") is None]
    for c in {spec.REG[k].file for k in keys}: cast.load(c)
    rs = run_keys(keys, thorough)
    d = dict(obligations=0, discharged=0, functions=[], failed=[], undecided=[], solver_s=0.0, assumptions=list(sym.ASSUMED), backends={}, vacuity=dict(contradictory=[]))
    d["assumptions"] += sorted({spec.REG[x].o["assumed"] for k in keys for x in spec.REG[k].o.get("opaque", {}).values() if spec.REG[x].o.get("assumed")})
    ls = lemma_schemas() if keys else []
    d["obligations"] += len(ls); d["discharged"] += sum(ok for _, ok in ls)
    for r in rs:
        n = len(r["obls"]); ok = sum(o["verdict"] == "proved" for o in r["obls"])
        d["obligations"] += n; d["discharged"] += ok; d["solver_s"] += r["solver_s"]
        for k, v in r["backends"].items(): d["backends"][k] = d["backends"].get(k, 0) + v
        d["functions"].append(dict(function=r["function"], file=r["file"], obligations=n, discharged=ok, callee_contracts=r["used"], inlined=r["inlined"], error=r["error"]))
        if r.get("vacuous"): d["vacuity"]["contradictory"].append(r["key"])
        bad = [o for o in r["obls"] if o["verdict"] != "proved"]; b = r["bmc"]
        if b and b["found"]:
            d["failed"].append(dict(name=b["found"]["obligation"], function=r["function"], reason=f"{len(bad)} obligations not discharged ({'; '.join(o['name'] for o in bad[:4]) or r['error']}); counterexample with loops unrolled {b['found']['bound']} times", model=b["found"]["model"], definite=True))
        else:
            for o in bad: d["undecided"].append(dict(function=r["function"], obligation=o["name"], reason=o["by"])); d["failed"].append(dict(name=o["name"], function=r["function"], reason=o["by"]))
            if r["error"]: d["undecided"].append(dict(function=r["function"], reason=r["error"]))
    return d
def replay(d):
    load_specs(); k = [k for k, c in spec.REG.items() if c.name == d["function"]][0]
    r = one(k); bad = [o for o in r["obls"] if o["verdict"] != "proved"]
    print(json.dumps(dict(function=r["function"], undischarged=bad, counterexample=r["bmc"]), indent=1)); return 1 if r["bmc"] and r["bmc"]["found"] else 0
if __name__ == "__main__":
    load_specs(); bm = "--bmc" in sys.argv; a = [x for x in sys.argv[1:] if not x.startswith("--")]
    keys = [k for k, c in spec.REG.items() if c.o.get("assumed") is None and (not a or k in a or c.file in a or any(p in a for p in c.props))]
    t0 = time.time()
    if bm:
        with mp.get_context("fork").Pool(min(8, len(keys)), maxtasksperchild=4) as p:
            for k, r in zip(keys, p.imap(search_all, keys, 1)): print(k, r["checked"], r["error"] or "", f"VACUOUS {r['vacuous']}" if r.get("vacuous") else "", "FOUND " + json.dumps(r["found"], indent=0)[:3000] if r["found"] else "")
    else:
        for r in run_keys(keys, bmc="--nobmc" not in sys.argv):
            bad = [o for o in r["obls"] if o["verdict"] != "proved"]
            print(f"{r['key']:40s} {len(r['obls'])-len(bad)}/{len(r['obls'])} {r.get('s',0):.1f}s gen {r.get('gen_s',0):.1f} {'VACUOUS' if r.get('vacuous') else ''} {r['error'] or ''}")
            if r.get("trace"): print(r["trace"])
            for o in r["obls"]:
                if o["verdict"] == "proved" and o["s"] > 2: print("      slow", o["name"], o["by"], o["s"])
            for o in bad: print("     ", o["verdict"], o["name"], o["by"], o["s"])
            if r["bmc"]: print("      bmc:", json.dumps(r["bmc"])[:1500])
    print("total", round(time.time() - t0, 1))
