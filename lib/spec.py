"""Contracts: the specification language and what is done with a contract (verify a body against it, apply it at a call, search for a counterexample)."""
import z3, cast, sym
from sym import to_int, I, R, B, INF, TRUE, FALSE, P, Ptr, NULL, State, Engine, Loop, Unsupported, simp, to_bv, to_int
REG = {}
class Contract:
    def __init__(s, file, name, gen, props, **o):
        s.file, s.name, s.gen, s.props = file, name, gen, props; s.o = o; s.callable = o.get("callable", True); s.key = o.get("key", name)
    def apply(s, eng, args, st, rt):
        tu0 = eng.tu; w = cast.load(s.file) if s.name not in eng.tu.fns else eng.tu; eng.tu = w
        if s.name not in w.fns: eng.tu = tu0; raise Unsupported(f"{s.name} is not defined in {s.file}")
        try:
            args = [eng.conv(a, eng.ty(p)) if eng.ty(p).k in ("int", "bv", "bool", "dbl") else a for p, a in zip(eng.params(w.fns[s.name]), args)]
            c = Ctx(eng, st, args, "call", s); g = s.gen(c); next(g)
            c.havoc(); fn = w.fns[s.name]; c.result = c.fresh_of(eng.ret_type(fn), "ret_" + s.name)
            try: next(g)
            except StopIteration: pass
        finally: eng.tu = tu0
        return c.result
def contract(file, name, props, **o):
    def d(gen): c = Contract(file, name, gen, props, **o); REG[c.key] = c; return gen
    return d
And = lambda *a: z3.And([x for x in (a[0] if len(a) == 1 and isinstance(a[0], list) else a)])
Or = lambda *a: z3.Or([x for x in (a[0] if len(a) == 1 and isinstance(a[0], list) else a)])
Not, Implies, If = z3.Not, z3.Implies, z3.If
UP = z3.IntVal(10 ** 40)          # open upper end of an announced range
def below(i, h): return TRUE if z3.eq(h, UP) else i < h
def upto(o, hi): return UP if z3.is_expr(hi) and z3.eq(hi, UP) else simp(o + hi)
def has(tag, mask): return to_bv(tag, 8) & z3.BitVecVal(mask, 8) != 0
def fin(x): return z3.And(x < INF, x > -INF)
def absr(x): return z3.If(x < 0, -x, x)
class Arr:
    """an array in memory as it was when captured"""
    def __init__(s, c, ptr, path, st): s.c, s.ptr, s.path, s.st = c, ptr, path, st; s.cache = {}
    def __getattr__(s, f):
        if f.startswith("_"): raise AttributeError(f)
        return Arr(s.c, s.ptr, s.path + (f,), s.st)
    def parts(s):
        if "p" not in s.cache: s.cache["p"] = [(g, s.c.eng.marr(s.st, (r.id, p + s.path)), o) for g, r, o, p in s.ptr.alts if r is not None]
        return s.cache["p"]
    def __getitem__(s, i):
        ps = s.parts(); v = z3.Select(ps[-1][1], simp(ps[-1][2] + i))
        for g, a, o in ps[:-1]: v = z3.If(g, z3.Select(a, simp(o + i)), v)
        return v
    def raw(s):
        if len(s.parts()) != 1: raise Unsupported("array behind several pointers")
        return s.parts()[0][1:]
    @property
    def off(s): return s.parts()[0][2]
class Ctx:
    def __init__(s, eng, st, args, mode, con):
        s.eng, s.st, s.args, s.mode, s.con = eng, st, args, mode, con; s.mods = []; s.pmods = []; s.loops = {}; s.result = None; s.hints = []; s.prepared = False; s.old = None; s.ghosts_ = {}; s.wilds = []; s.n = 0; s.pre = []; s.case_no = None
    @property
    def bmc(s): return s.eng.mode == "bmc"
    # ----- reading
    def get(s, ptr, *path, st=None):
        """scalar, struct or pointer stored at *ptr"""
        e = s.eng; d, sf = e.dry, e.safe; e.dry += 1; e.safe = False
        try: return e.load(st or s.st, ptr, path)
        finally: e.dry, e.safe = d, sf
    def arr(s, ptr, *path, st=None): return Arr(s, ptr, path, (st or s.st).copy())
    def at(s, L):
        """the same context at another program point (loop head)"""
        c = Ctx(s.eng, L.st, s.args, s.mode, s.con); c.hints = s.hints; return c
    def glob(s, name):
        for i, g in s.eng.tu.glob.items():
            if g["name"] == name: return s.eng.lread(s.eng.lval({"kind": "DeclRefExpr", "referencedDecl": {"id": i, "kind": "VarDecl", "name": name}, "type": g["type"]}, s.st), s.st)
    def len(s, ptr):
        _, r, o, _ = ptr.one()
        return r.length - o if r.length is not None else z3.IntVal(1 << 40)
    def rlen(s, ptr):
        a = [x for x in ptr.alts if x[1] is not None]; v = a[-1][1].length
        for g, r, _, _ in a[:-1]: v = z3.If(g, r.length, v)
        return v
    # ----- writing the contract
    def requires(s, f, name=None):
        s.n += 1
        if s.mode == "call": s.eng.oblige(s.st, f, f"{s.con.name}: precondition {name or s.n}", "pre")
        else: s.eng.assume(s.st, f); s.pre.append(f)
    def cases(s, *fs):
        """the body is verified once per case (the number of cases is given with the contract); the first time it is also shown that there is no other case"""
        if s.mode == "call" or s.case_no is None: return
        if s.case_no == 0: s.eng.oblige(s.st, Or(*fs), f"{s.con.name}: the cases cover everything", "post")
        s.eng.assume(s.st, simp(fs[s.case_no]))
    def valid(s, ptr, n):
        """ptr points to at least n elements"""
        if s.mode == "call" and not s.eng.safe: return
        _, r, o, _ = ptr.one()
        if r.length is None: return
        s.requires(z3.And(o >= 0, o + n <= r.length), f"room for the elements of {r.name}")
    def ensures(s, name, f):
        if s.mode == "call": s.eng.assume(s.st, f)
        else: s.eng.oblige(s.st, f, f"{s.con.name}: {name}", "post")
    def any(s, *names): return [s.eng.fresh("any_" + n, I) for n in names] if len(names) > 1 else s.eng.fresh("any_" + names[0], I)
    def ensures_any(s, name, ks, f, pat=None):
        """f for every value of the constants ks (proved for arbitrary ones, used by callers for all)"""
        if s.mode == "call": s.eng.assume(s.st, z3.ForAll(ks, f, **({"patterns": [pat]} if pat is not None else {})))
        else: s.ensures(name, f)
    def modifies(s, ptr, *path, lo=0, hi=1, when=None): s.mods.append((ptr, path, lo, hi, when))
    def wild(s, ptr):
        """everything reachable from ptr may change (its pointer structure stays)"""
        s.wilds.append(ptr)
        for _, r, _, _ in ptr.alts:
            if r is not None: s.eng.wild.add(r.name)
    def modifies_ptr(s, ptr, *path): s.pmods.append((ptr, path))
    def loop(s, k, fn, **o): s.loops[k if isinstance(k, tuple) else (s.con.name, k)] = dict(fn=fn, i=k, **o)
    def unroll(s, k, n): s.loops[k if isinstance(k, tuple) else (s.con.name, k)] = dict(unroll=n, i=k, fn=None)
    def alias(s, ptr, field, target):
        """the pointer field points to target"""
        if s.mode == "call":
            p = s.get(ptr, field)
            s.eng.oblige(s.st, s.eng.binop("==", p, target, None, s.st), f"{s.con.name}: precondition alias {field}", "pre"); return
        _, r, o, pth = ptr.one(); s.st.ptrs[(r.id, pth + (field,) if isinstance(field, str) else pth + field, s.eng.lit(o))] = target
    def ghost(s, name, sort=I):
        if s.mode == "call":
            h = s.eng.ghost_hints.get(s.con.key)
            if h is None: raise Unsupported(f"no ghost value for {s.con.name}")
            L = Loop(s.eng, s.st, s.st, set())
            v = h(L, s.args)
            return v[name] if isinstance(v, dict) else v
        return s.eng.fresh("ghost_" + name, sort)
    def ghost_fn(s, name, *sorts): s.eng.fresh_n += 1; return z3.Function(f"{name}!{s.eng.fresh_n}", *sorts)
    def at_call(s, callee, fn): s.eng.ghost_hints[callee] = fn
    def inst(s, *ts): s.eng.insts += [to_int(t) for t in ts]
    def grow(s, ptr, cap):
        """call mode: the storage of a growable list now holds at least cap elements"""
        _, r, o, _ = ptr.one(); n = s.eng.fresh("len_" + r.name, I)
        if r.length is not None: s.eng.base.append(n >= r.length)
        r.length = n; s.eng.assume(s.st, n >= cap)
    def before(s, callee, fn):
        """formulas that hold at every call of callee, before it"""
        if s.mode != "verify": return
        def h(st, args):
            d = Ctx(s.eng, st, s.args, "verify", s.con)
            for n, f in fn(d, args): s.eng.oblige(st, f, f"{s.con.name}: {n}", "post")
        s.eng.call_hooks[callee] = h
    def gcell(s, name):
        k = ("ghost", name)
        if k not in s.eng.lazy: s.eng.lazy[k] = sym.P(s.eng.region("ghost." + name, cast.T('int' if name.startswith("#") else 'bool'), z3.IntVal(1), "ghost"))
        return s.eng.lazy[k]
    def gget(s, name): return s.get(s.gcell(name))
    def gset(s, name, v):
        _, r, o, _ = s.gcell(name).one(); s.eng.marr(s.st, (r.id, ())); s.st.mem[(r.id, ())] = z3.Store(s.st.mem[(r.id, ())], 0, v)
    def monotone(s):
        """counts over longer ranges are compared"""
        s.eng.monotone = True
    def removed(s, *ps):
        """places where an entry is taken out of a list that is summed"""
        s.eng.removed += [to_int(p) for p in ps]
    def hint(s, *ps): s.eng.points += [to_int(p) for p in ps]
    def new_region(s, name, elem, length=None): return P(s.eng.region(name, elem if not isinstance(elem, str) else s.eng.tu.ptype(elem), length))
    # ----- quantifiers, sums
    def forall(s, lo, hi, fn, pat=None):
        lo, hi = to_int(lo), to_int(hi)
        if s.bmc:
            K = s.eng.unroll; s.eng.bound(hi - lo <= K)
            return z3.And([z3.Implies(simp(lo + j < hi), fn(simp(lo + j))) for j in range(K)])
        s.eng.fresh_n += 1; i = z3.Int(f"i?{s.eng.fresh_n}")
        kw = {} if pat is None else {"patterns": [pat(i)] if not isinstance(pat(i), list) else [z3.MultiPattern(*pat(i))]}
        return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), fn(i)), **kw)
    def every(s, a, lo, hi, fn):
        """fn(index, value) for the elements of a from lo to hi, quantified over addresses (good triggers)"""
        if s.bmc: return s.forall(lo, hi, lambda i: fn(i, a[i]))
        A, o = a.raw(); s.eng.fresh_n += 1; q = z3.Int(f"i?{s.eng.fresh_n}"); v = z3.Select(A, q)
        return z3.ForAll([q], z3.Implies(z3.And(simp(o + lo) <= q, q < simp(o + hi)), fn(simp(q - o), v)), **({"patterns": [v]} if z3.is_const(A) else {}))
    def exists(s, lo, hi, fn):
        lo, hi = to_int(lo), to_int(hi)
        if s.bmc:
            K = s.eng.unroll; s.eng.bound(hi - lo <= K)
            return z3.Or([z3.And(simp(lo + j < hi), fn(simp(lo + j))) for j in range(K)])
        s.eng.fresh_n += 1; i = z3.Int(f"i?{s.eng.fresh_n}"); return z3.Exists([i], z3.And(lo <= i, i < hi, fn(i)))
    def sum(s, lo, hi, fn, kind="sum", fam=None):
        lo, hi = simp(to_int(lo)), simp(to_int(hi))
        if s.bmc:
            K = s.eng.unroll; s.eng.bound(hi - lo <= K); z = z3.RealVal(0) if kind in ("sum", "rsum") else z3.IntVal(0)
            r = z
            for j in range(K): r = r + z3.If(simp(lo + j < hi), fn(simp(lo + j)), z)
            return r
        return s.eng.sum_symbol(fn, kind, fam or fn.__code__)(lo, hi)
    def count(s, lo, hi, fn): return s.sum(lo, hi, lambda i: z3.If(fn(i), z3.IntVal(1), z3.IntVal(0)), "count", fn.__code__)
    # ----- call mode
    def havoc(s):
        e, st = s.eng, s.st
        if s.wilds: e.new_epoch(st)
        for ptr, path, lo, hi, when in s.mods:
            for c, r, o, p in ptr.alts:
                if r is None: continue
                t = e.field_type(r.elem, p + path)
                for q, lt in e.leaves(t, p + path):
                    if lt.k == "ptr": continue
                    A = e.marr(st, (r.id, q))
                    if hi is None: N = e.fresh(r.name, A.sort())
                    else:
                        l, h = simp(o + lo), upto(o, hi)
                        if e.lit(simp(h - l)) == 1: N = z3.Store(A, l, e.fresh(r.name, A.sort().range()))
                        elif z3.eq(h, UP):
                            N = e.fresh(r.name, A.sort()); i = z3.Int("i?h")
                            e.facts.append(z3.ForAll([i], z3.Implies(i < l, z3.Select(N, i) == z3.Select(A, i)), patterns=[z3.Select(N, i)]))
                        elif s.bmc:
                            N = A; e.bound(h - l <= e.unroll + 4)
                            for j in range(e.unroll + 4): N = z3.If(l + j < h, z3.Store(N, l + j, e.fresh(r.name, A.sort().range())), N)
                        else:
                            N = e.fresh(r.name, A.sort()); i = z3.Int("i?h")
                            e.facts.append(z3.ForAll([i], z3.Implies(z3.Or(i < l, i >= h), z3.Select(N, i) == z3.Select(A, i)), patterns=[z3.Select(N, i)]))
                    g = c if when is None else z3.And(c, when)
                    st.mem[(r.id, q)] = N if z3.is_true(simp(g)) else z3.If(g, N, A)
        for ptr, path in s.pmods:
            _, r, o, p = ptr.one(); t = e.field_type(r.elem, p + path)
            st.ptrs[(r.id, p + path, e.lit(o))] = P(e.region(f"{r.name}.{path[-1]}'", t.e))
    def fresh_of(s, t, name):
        e = s.eng
        if t.k == "void": return sym.UNDEF
        if t.k == "ptr": return P(e.region(name, t.e))
        if t.k == "rec": return {f: s.fresh_of(ft, f"{name}.{f}") for f, ft in e.fields(t)}
        return e.fresh(name, e.sort(t))
class SymEngine(Engine):
    def __init__(s, *a, **k): super().__init__(*a, **k); s.ghost_hints = {}; s.points = []; s.removed = []; s.bounds_ = []; s.canon = z3.Int("t?sum"); s.symbols = {}; s.insts = []; s.monotone = False; s.probing = False
    def bound(s, f): s.base.append(f)
    def sum_symbol(s, fn, kind, fam):
        b = simp(fn(s.canon)); o = z3.Int("t?other")
        if mentions(b, o): raise RuntimeError("summand of an inner sum mentions the outer index")
        if not s.probing:
            s.probing = True
            try: fn(o)
            finally: s.probing = False
        k = (b.get_id(), kind)
        if k not in s.symbols:
            d = z3.Function(f"{kind}{len(s.symbols)}", I, I, R if kind in ("sum", "rsum") else I); s.symbols[k] = (d, b, kind, set())
            s.by_name[d.name()] = s.symbols[k]
        s.symbols[k][3].add(fam); return s.symbols[k][0]
    @property
    def by_name(s):
        if not hasattr(s, "_bn"): s._bn = {}
        return s._bn
    def f_at(s, ent, i): return z3.substitute(ent[1], (s.canon, i))
    # --- instances of the sum lemmas (schemas proved in lemmas() on every run) for the ground sum terms of a query
    def lemmas_for(s, fs, sk=()):
        terms = {}
        seen = set()
        def walk(e):
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_quantifier(e): walk(e.body()); return
            if z3.is_app(e):
                if e.decl().name() in s.by_name and e.num_args() == 2 and not has_var(e): terms[e.get_id()] = e
                for c in e.children(): walk(c)
        for f in fs: walk(f)
        out = []; done = {}
        def wit(): s.fresh_n += 1; return z3.Int(f"w!{s.fresh_n}")
        def unfold(t, again=True):
            if t.get_id() in done: return
            done[t.get_id()] = t; terms[t.get_id()] = t
            ent = s.by_name[t.decl().name()]; lo, hi = t.arg(0), t.arg(1); z = z3.RealVal(0) if ent[2] in ("sum", "rsum") else z3.IntVal(0)
            out.append(z3.Implies(hi <= lo, t == z))
            if again:
                h1 = simp(hi - 1); p = ent[0](lo, h1); out.append(z3.Implies(lo < hi, t == p + s.f_at(ent, h1))); unfold(p, False)
            if ent[2] in ("isum", "rsum") and again: v = wit(); out.append(z3.Or(t == 0, z3.And(lo <= v, v < hi, s.f_at(ent, v) != 0)))
            if ent[2] == "count":
                out.append(z3.And(t >= 0, z3.Or(t <= hi - lo, hi <= lo)))
                if again:
                    v = wit(); out.append(z3.Or(t == 0, z3.And(lo <= v, v < hi, s.f_at(ent, v) == 1)))
                    i = z3.Int("i?s"); fi = s.f_at(ent, i)
                    out.append(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), fi <= t)))
                    for p in s.points: out.append(z3.Implies(z3.And(lo <= p, p < hi), z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi, i != p), fi + s.f_at(ent, p) <= t))))
        for _ in range(3):
            n = len(out)
            for t in list(terms.values()): unfold(t)
            for f in out[n:]: walk(f)
            for k in [k for k in terms if k in done]: pass
        ts = list(terms.values())
        if s.monotone:
            for t in ts:
                for u in ts:
                    if not t.eq(u) and t.decl().eq(u.decl()) and t.arg(0).eq(u.arg(0)) and s.by_name[t.decl().name()][2] == "count": lo, h1, h2 = t.arg(0), t.arg(1), u.arg(1); out.append(z3.Implies(z3.And(lo <= h1, h1 <= h2), z3.And(t <= u, u <= t + h2 - h1)))
        for a in range(len(ts)):
            for b in range(a + 1, len(ts)):
                t, u = ts[a], ts[b]; e1, e2 = s.by_name[t.decl().name()], s.by_name[u.decl().name()]
                if e1[2] != e2[2] or e1 is e2 or not (e1[3] & e2[3]): continue
                l1, h1, l2, h2 = t.arg(0), t.arg(1), u.arg(0), u.arg(1)
                if s.removed and l1.eq(l2) and z3.is_int_value(simp(h1 - h2)) and simp(h1 - h2).as_long() in (1, -1):
                    (x, ex, hx), (y, ey, hy) = ((t, e1, h1), (u, e2, h2)) if simp(h1 - h2).as_long() == 1 else ((u, e2, h2), (t, e1, h1))
                    for p in s.removed: v = wit(); out.append(z3.Or(x - s.f_at(ex, p) == y, z3.Not(z3.And(l1 <= p, p < hx)), z3.And(l1 <= v, v < hy, s.f_at(ey, v) != s.f_at(ex, simp(v + z3.If(v >= p, z3.IntVal(1), z3.IntVal(0)))))))
                diff = [] if l1.eq(l2) and h1.eq(h2) else [simp(z3.Or(l1 != l2, h1 != h2))]
                if diff and (z3.is_true(diff[0]) or len(ts) > 14): continue
                v = wit(); out.append(z3.Or(t == u, *diff, z3.And(l1 <= v, v < h1, s.f_at(e1, v) != s.f_at(e2, v))))
                for p in s.points:
                    v = wit(); out.append(z3.Or(t - s.f_at(e1, p) == u - s.f_at(e2, p), *diff, z3.Not(z3.And(l1 <= p, p < h1)), z3.And(l1 <= v, v < h1, v != p, s.f_at(e1, v) != s.f_at(e2, v))))
        return out
def mentions(e, x):
    st = [e]; seen = set()
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.eq(x): return True
        st += y.children() if z3.is_app(y) else [y.body()] if z3.is_quantifier(y) else []
    return False
def has_var(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_var(x): return True
        st += x.children() if z3.is_app(x) else [x.body()] if z3.is_quantifier(x) else []
    return False
class LoopMap:
    def __init__(s, loops, eng, con): s.loops, s.eng, s.con = loops, eng, con; s.idx = {}
    def next(s, d, eng):
        fn = eng.frames[-1] if eng.frames else s.con.name
        if fn not in s.idx:
            tu, f = eng.find(fn); l = []
            def w(x):
                if not isinstance(x, dict): return
                k = x.get("kind")
                if k in ("ForStmt", "WhileStmt"): l.append(id(x))
                elif k == "DoStmt":
                    y = x["inner"][1]
                    while y["kind"] in ("ParenExpr", "ImplicitCastExpr"): y = y["inner"][0]
                    if not (y["kind"] == "IntegerLiteral" and y["value"] == "0"): l.append(id(x))
                for c in x.get("inner", ()): w(c)
            w(f); s.idx[fn] = l
        if id(d) not in s.idx[fn]: return None
        return s.loops.get((fn, s.idx[fn].index(id(d))))
    def mark(s): return None
    def reset(s, p): pass
def verify(con, mode="proof", unroll=3, case=None):
    """obligations of one contract against the current body; returns (engine, ctx)"""
    eng = SymEngine(mode, unroll, registry={**{k: v for k, v in REG.items() if v is not con and k == v.name}, **{n: REG[k] for n, k in con.o.get("use", {}).items()}} if mode == "proof" else {})
    eng.tu = cast.load(con.file); eng.opaque = {n: REG[k] for n, k in con.o.get("opaque", {}).items()}
    if con.name not in eng.tu.fns: raise Unsupported(f"{con.name} is not defined in {con.file}")
    fn = eng.tu.fns[con.name]; eng.safe = con.o.get("safe", False); eng.ext = con.o.get("ext", False); eng.prune = con.o.get("prune", False) or case is not None
    st = State(); args = []; names = []
    def arg(t, name):
        if t.k == "ptr": return P(eng.region(name, t.e)) if t.e.k not in ("fn",) else sym.UNDEF
        if t.k == "rec": return {f: arg(ft, f"{name}.{f}") for f, ft in eng.fields(t)}
        return z3.Const(name, eng.sort(t))
    for p in eng.params(fn): eng.names[p["id"]] = (p.get("name", "_"), eng.ty(p)); args.append(arg(eng.ty(p), p.get("name", "_")))
    c = Ctx(eng, st, args, "verify", con); c.case_no = case; g = con.gen(c); next(g)
    c.old = st.copy()
    inl = con.o.get("inline", ())
    if inl and mode == "proof": eng.registry = {k: v for k, v in eng.registry.items() if k not in inl}
    eng.loop_invs = LoopMap(c.loops, eng, con)
    lm = eng.loop_invs; base_inline = eng.inline
    def inline(name, a, st_, rt):        # invariants may also be given for loops of inlined callees
        tu, f = eng.find(name)
        r = Engine.inline(eng, name, a, st_, rt); return r
    eng.inline = inline
    orig_loop = eng.loop
    def loop(d, st_, cond, inc, body, out, first=False):
        save = eng.loop_invs; eng.loop_invs = lm
        try: return orig_loop(d, st_, cond, inc, body, out, first)
        finally: eng.loop_invs = save
    eng.loop = loop
    eng.frame_inv = lambda mod, entry, head: frame_inv(eng, c, mod, entry, head)
    v, out = eng.body(fn, args, st)
    if out is None: eng.obls.append(sym.Obl(f"{con.name}: returns", "post", (len(eng.facts), []), FALSE, con.name)); c.out = None; return eng, c
    c.st = out; c.result = v; c.out = out; c.end = (len(eng.facts), list(out.pc))
    try: next(g)
    except StopIteration: pass
    frame(eng, c, out, con)
    return eng, c
def ranges(eng, c, k):
    """announced index ranges [(when, lo, hi)] of a memory key, None when announced as a whole"""
    r = eng.regions[k[0]]; rng = []
    for ptr, path, lo, hi, when in c.mods:
        for cc, rr, o, p in ptr.alts:
            if rr is r and k[1][:len(p + path)] == p + path:
                if hi is None and when is None: return None
                rng.append((TRUE if when is None else when, None if hi is None else simp(o + lo), None if hi is None else upto(o, hi)))
    return rng
def frame_inv(eng, c, mod, entry, head):
    """loop invariant 'nothing changed outside the announced ranges' for the arrays a loop changes; arrays with a single announced element are havocked there only"""
    fs = []
    for kind, k in mod:
        if kind == "mem" and eng.wild and eng.is_wild(eng.regions[k[0]]): continue
        if kind != "mem" or eng.regions[k[0]].kind not in ("entry", "global"): continue
        r = eng.regions[k[0]]; rng = ranges(eng, c, k)
        if rng is None or eng.lit(r.length) == 1: continue
        A0 = eng.marr(c.old, k)
        if not eng.marr(entry, k).eq(A0) and not all(l is not None and eng.lit(simp(h - l)) == 1 for _, l, h in rng): pass
        one = all(l is not None and eng.lit(simp(h - l)) == 1 for _, l, h in rng)
        if one:
            A = A0
            for _, l, h in rng: A = z3.Store(A, l, eng.fresh(r.name, A0.sort().range()))
            head.mem[k] = A
        i = z3.Int("i?f")
        def f(st, k=k, A0=A0, rng=rng, one=one):
            A = eng.marr(st, k)
            return ("frame of " + eng.regions[k[0]].name, z3.ForAll([i], z3.Or(*[g if l is None else z3.And(g, l <= i, below(i, h)) for g, l, h in rng], z3.Select(A, i) == z3.Select(A0, i)), **({"patterns": [z3.Select(A, i)]} if z3.is_const(A) else {})))
        fs.append((f, one))
    return lambda st: [f(st) for f, one in fs if not (one and st is head)]
def frame(eng, c, out, con):
    if out.epoch and not c.wilds: eng.obls.append(sym.Obl(f"{con.name}: frame, everything may change", "frame", (len(eng.facts), list(out.pc)), FALSE, None)); return
    if c.wilds: eng.wild = {r.name for w in c.wilds for _, r, _, _ in w.alts if r is not None}
    for k in list(out.mem):
        r = eng.regions[k[0]]
        if r.kind not in ("entry", "global") or c.wilds and eng.is_wild(r): continue
        A, A0 = eng.marr(out, k), eng.marr(c.old, k)
        if A.eq(A0): continue
        rng = []; whole = False
        for ptr, path, lo, hi, when in c.mods:
            for cc, rr, o, p in ptr.alts:
                if rr is r and k[1][:len(p + path)] == p + path:
                    if hi is None: whole = whole or when is None; rng.append((TRUE if when is None else when, None, None))
                    else: rng.append((TRUE if when is None else when, simp(o + lo), upto(o, hi)))
        if whole: continue
        i = eng.fresh("frame", I)
        ex = [g if l is None else z3.And(g, l <= i, below(i, h)) for g, l, h in rng]
        dom = i == 0 if eng.lit(r.length) == 1 else TRUE
        eng.oblige(out, z3.Implies(dom, z3.Or(*ex, z3.Select(A, i) == z3.Select(A0, i))), f"{con.name}: frame, {r.name}{'.' if k[1] else ''}{'.'.join(k[1])} changed only where announced", "frame")
    ok = set()
    for ptr, path in c.pmods:
        _, r, o, p = ptr.one(); ok.add((r.id, p + path))
    for k, v in out.ptrs.items():
        r = eng.regions[k[0]]
        if r.kind not in ("entry", "global") or (k[0], k[1]) in ok or c.wilds and eng.is_wild(r): continue
        v0 = eng.mptr(c.old, k)
        if sym.same(v, v0): continue
        e = eng.binop("==", v, v0, None, out) if isinstance(v, Ptr) and isinstance(v0, Ptr) else FALSE
        eng.oblige(out, e, f"{con.name}: frame, pointer {r.name}.{'.'.join(k[1])} unchanged", "frame")
