"""Symbolic execution of the functions of /repo (clang AST, production configuration) with state merging: the obligation generator.

Semantics (what is assumed is listed in ASSUMED): int and size_t are mathematical integers; uint8/uint16 are exact bit vectors; double is
a real number plus a symbol INF above all finite values; memory is one array per (allocation, field); pointers are (allocation, offset).
Two modes: proof (loops cut by invariants, callees replaced by their contracts, quantifiers) and bmc (loops unrolled, callees inlined,
quantifiers and sums expanded to a bound): bmc only looks for counterexamples of obligations that were not discharged."""
import z3, cast
from cast import T
ASSUMED = [
    "int and size_t arithmetic is mathematical (no overflow or wrap-around)",
    "double arithmetic is exact real arithmetic; infinities are a symbol INF larger than every finite value; no NaN",
    "distinct pointer fields and parameters point to distinct allocations unless the contract says otherwise",
    "memory allocation succeeds (N03 is not claimed)",
    "termination is not proved (partial correctness)",
    "a growable list keeps its identity when it grows: no pointer into its old storage is used after an append (run with an address sanitizer by C26, bounded)",
]
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
INF = z3.Real("INF")
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
class Unsupported(Exception): pass
class Undef:
    def __repr__(s): return "Undef"
UNDEF = Undef()
class FnRef:
    def __init__(s, name): s.name = name
class Str:
    def __init__(s, v): s.v = v
class Region:
    n = 0
    def __init__(s, name, elem, length=None, kind="entry", zero=False):
        Region.n += 1; s.id = Region.n; s.name, s.elem, s.length, s.kind, s.zero = name, elem, length, kind, zero; s.freed = False
    def __repr__(s): return f"<{s.name}>"
class Ptr:
    """guarded alternatives (condition, region or None, offset, path)"""
    def __init__(s, alts): s.alts = alts
    def __repr__(s): return "Ptr" + repr([(r, o, p) for _, r, o, p in s.alts])
    def add(s, n): return Ptr([(c, r, simp(o + n) if r else o, p) for c, r, o, p in s.alts])
    def null(s): return simp(z3.Or([c for c, r, _, _ in s.alts if r is None]))
    def one(s):
        a = [x for x in s.alts if x[1] is not None]
        if len(a) != 1: raise Unsupported("pointer with several targets")
        return a[0]
NULL = Ptr([(TRUE, None, z3.IntVal(0), ())])
def P(region, off=0, path=()): return Ptr([(TRUE, region, off if z3.is_expr(off) else z3.IntVal(off), path)])
def simp(e): return z3.simplify(e) if z3.is_expr(e) else e
def is_bv(v): return z3.is_bv(v)
_CONV = {}          # conversions below conditional expressions are shared (the terms are graphs)
def bv_int(v):
    k = (v.get_id(), 0); r = _CONV.get(k)
    if r is None:
        if z3.is_bv_value(v): r = z3.IntVal(v.as_long())
        elif z3.is_app_of(v, z3.Z3_OP_ITE): r = z3.If(v.arg(0), bv_int(v.arg(1)), bv_int(v.arg(2)))
        else: r = z3.BV2Int(v)
        _CONV[k] = r = (r, v)
    return r[0]
def int_bv(v, n):
    k = (v.get_id(), n); r = _CONV.get(k)
    if r is None:
        if z3.is_int_value(v): r = z3.BitVecVal(v.as_long(), n)
        elif z3.is_app_of(v, z3.Z3_OP_BV2INT): r = to_bv(v.arg(0), n)
        elif z3.is_app_of(v, z3.Z3_OP_ITE): r = z3.If(v.arg(0), int_bv(v.arg(1), n), int_bv(v.arg(2), n))
        else: r = z3.Int2BV(v, n)
        _CONV[k] = r = (r, v)
    return r[0]
def to_int(v):
    if v is UNDEF: raise Unsupported("uninitialised value")
    if isinstance(v, (int,)): return z3.IntVal(v)
    if z3.is_bool(v): return simp(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
    if is_bv(v):
        v = simp(v)
        if z3.is_bv_value(v): return z3.IntVal(v.as_long())
        return bv_int(v)
    return v
def to_bool(v):
    if isinstance(v, Ptr): return simp(z3.Not(v.null()))
    if z3.is_bool(v): return v
    if is_bv(v): return simp(v != 0)
    if z3.is_expr(v): return simp(v != 0)
    raise Unsupported(f"truth value of {v!r}")
def to_bv(v, n):
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    if is_bv(v):
        k = v.size()
        return simp(v if k == n else z3.Extract(n - 1, 0, v) if k > n else z3.ZeroExt(n - k, v))
    v = simp(v)
    if z3.is_int_value(v): return z3.BitVecVal(v.as_long(), n)
    return simp(int_bv(v, n)) if z3.is_app_of(v, z3.Z3_OP_ITE) else int_bv(v, n)
def to_real(v):
    if v is UNDEF: raise Unsupported("uninitialised value")
    if z3.is_bool(v) or is_bv(v): v = to_int(v)
    if z3.is_int(v): return simp(z3.ToReal(v))
    return v
def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return len(a.alts) == len(b.alts) and all(x[1] is y[1] and x[3] == y[3] and x[2].eq(y[2]) and x[0].eq(y[0]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
def ite(c, a, b):
    if same(a, b): return a
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        out = {}
        for g, p in ((c, a), (z3.Not(c), b)):
            for cc, r, o, path in p.alts:
                k = (r.id if r else None, path, o.get_id()); g2 = z3.And(g, cc)
                out[k] = (z3.Or(out[k][0], g2) if k in out else g2, r, o, path)
        # same region, different offsets: merge offsets
        byr = {}
        for g, r, o, path in out.values(): byr.setdefault((r.id if r else None, path), []).append((g, r, o, path))
        alts = []
        for l in byr.values():
            g, r, o, path = l[0]
            for g2, _, o2, _ in l[1:]: o = z3.If(g2, o2, o) if not o.eq(o2) else o; g = z3.Or(g, g2)
            alts.append((simp(g), r, simp(o), path))
        if len(alts) == 1: alts = [(TRUE,) + alts[0][1:]]
        return Ptr([x for x in alts if not z3.is_false(x[0])])
    if isinstance(a, dict) and isinstance(b, dict): return {k: ite(c, a[k], b[k]) for k in a}
    if z3.is_expr(a) and z3.is_expr(b):
        if not a.sort().eq(b.sort()):
            if is_bv(a) and is_bv(b): n = max(a.size(), b.size()); a, b = to_bv(a, n), to_bv(b, n)
            elif z3.is_real(a) or z3.is_real(b): a, b = to_real(a), to_real(b)
            else: a, b = to_int(a), to_int(b)
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        return z3.If(c, a, b)
    return UNDEF
class State:
    def __init__(s): s.env = {}; s.mem = {}; s.ptrs = {}; s.pc = []; s.epoch = 0
    def copy(s):
        t = State(); t.epoch = s.epoch; t.env = dict(s.env); t.mem = dict(s.mem); t.ptrs = dict(s.ptrs); t.pc = list(s.pc); return t
    def cond(s): return z3.And(s.pc) if s.pc else TRUE
def merge(states, eng):
    states = [s for s in states if not any(z3.is_false(simp(c)) for c in s.pc)]
    if not states: return None
    a = states[0]
    for b in states[1:]:
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]): n += 1
        ga, gb = z3.And(a.pc[n:]) if a.pc[n:] else TRUE, z3.And(b.pc[n:]) if b.pc[n:] else TRUE
        g = simp(ga); o = simp(z3.Or(ga, gb))
        r = State(); r.pc = a.pc[:n] + ([] if z3.is_true(o) else [o]); r.epoch = eng.epoch_ite(g, a.epoch, b.epoch)
        for k in a.env:
            if k in b.env: r.env[k] = ite(g, a.env[k], b.env[k])
        for k in set(a.mem) | set(b.mem): r.mem[k] = ite(g, eng.marr(a, k), eng.marr(b, k))
        for k in set(a.ptrs) | set(b.ptrs): r.ptrs[k] = ite(g, eng.mptr(a, k), eng.mptr(b, k))
        a = r
    return a
class Obl:
    def __init__(s, name, kind, hyps, goal, fn): s.name, s.kind, s.hyps, s.goal, s.fn = name, kind, hyps, goal, fn
ARRAY_RECS = {"RowRange", "Bound", "Activity", "Lock", "PairTag"}      # record types stored in arrays; the others are single objects
ALLOC = {"malloc": (1, 0), "calloc": (2, 0), "realloc": (1, 1)}
class Engine:
    def __init__(s, mode="proof", unroll=4, registry=None):
        s.mode, s.unroll, s.registry = mode, unroll, registry or {}; s.call_hooks = {}; s.opaque = {}
        s.facts = []; s.base = []; s.obls = []; s.dry = 0; s.fresh_n = 0; s.depth = 0; s.regions = {}; s.lazy = {}; s.arr0 = {}; s.sums = {}; s.used_contracts = set(); s.inlined = set(); s.wild = set(); s.epochs = {}; s.call_log = {}; s.clock = []
        s.loop_invs = None; s.loop_cache = {}; s.safe = False; s.bounded_hit = False; s.frames = []; s.prefix = ""
        s.base.append(INF > z3.RealVal("1e30")); s.addr = set(); s.names = {}
    # ---------- bookkeeping
    def fresh(s, name, sort): s.fresh_n += 1; return z3.Const(f"{name}!{s.fresh_n}", sort)
    def assume(s, st, f):
        if z3.is_true(f): return
        g = st.cond(); s.facts.append(f if z3.is_true(g) else z3.Implies(g, f))
    def oblige(s, st, goal, name, kind="assert"):
        if s.dry: return
        if s.mode == "proof" and z3.is_and(goal) and goal.num_args() > 1 and kind in ("post", "pre", "inv"):
            for j, g in enumerate(goal.children()): s.oblige(st, g, f"{name} [{j + 1}]", kind)
            return
        g = simp(goal)
        if not z3.is_true(g) or kind != "bounds": s.obls.append(Obl(s.prefix + name, kind, (len(s.facts), list(st.pc)), goal, None))
        s.assume(st, goal)
    # ---------- types
    def sort(s, t):
        if t.k == "int": return I
        if t.k == "bv": return z3.BitVecSort(t.n)
        if t.k == "bool": return B
        if t.k == "dbl": return R
        raise Unsupported(f"sort of {t}")
    def field_type(s, t, path):
        for f in path:
            if t.k != "rec": raise Unsupported(f"field {f} of {t}")
            t = s.tu.type(dict(s.tu.recs[t.e])[f])
        return t
    def fields(s, t): return [(f, s.tu.type(ft)) for f, ft in s.tu.recs[t.e]]
    def leaves(s, t, path=()):
        if t.k == "rec":
            if s.tu.recs.find(t.e) is None: return
            for f, ft in s.fields(t): yield from s.leaves(ft, path + (f,))
        else: yield path, t
    # ---------- memory
    def marr(s, st, key):
        a = st.mem.get(key)
        if a is None:
            a = st.mem[key] = s.arr_default(key, st.epoch if st.epoch and s.is_wild(s.regions[key[0]]) else 0)
        return a
    def marr_at(s, st, key, epoch):
        if key not in st.mem: st.mem[key] = s.arr_default(key, epoch if epoch and s.is_wild(s.regions[key[0]]) else 0)
    def is_wild(s, r): return r.kind == "entry" and any(r.name == w or r.name.startswith(w + ".") for w in s.wild)
    def epoch_ite(s, g, a, b):
        if a == b: return a
        s.fresh_n += 1; s.epochs[s.fresh_n] = (g, a, b); return s.fresh_n
    def new_epoch(s, st):
        """everything reachable from the wild roots becomes unknown"""
        s.fresh_n += 1; st.epoch = s.fresh_n
        for k in [k for k in st.mem if s.is_wild(s.regions[k[0]])]: del st.mem[k]
    def arr_default(s, key, epoch):
        a = s.arr0.get((key, epoch))
        if a is None:
            if epoch in s.epochs: g, x, y = s.epochs[epoch]; a = z3.If(g, s.arr_default(key, x), s.arr_default(key, y))
            else:
                r = s.regions[key[0]]; t = s.field_type(r.elem, key[1]); srt = s.sort(t)
                if r.zero: z = {"int": z3.IntVal(0), "bool": FALSE, "dbl": z3.RealVal(0)}.get(t.k); a = z3.K(I, z if z is not None else z3.BitVecVal(0, t.n))
                else: a = z3.Const((f"{r.name}.{'.'.join(key[1])}#{r.id}" if key[1] else f"{r.name}#{r.id}") + (f"@{epoch}" if epoch else ""), z3.ArraySort(I, srt))
            s.arr0[(key, epoch)] = a
        return a
    def mptr(s, st, key):
        p = st.ptrs.get(key)
        if p is None:
            p = s.lazy.get(key)
            if p is None:
                rid, path, idx = key; r = s.regions[rid]; t = s.field_type(r.elem, path)
                if r.kind == "heap" and not r.zero: return UNDEF
                if r.zero: p = NULL
                elif t.e.k == "fn": p = UNDEF
                else: p = P(s.region(f"{r.name}.{'.'.join(path)}" if path else f"{r.name}[{idx}]", t.e, z3.IntVal(1) if t.e.k == "rec" and t.e.e not in ARRAY_RECS else None))
                s.lazy[key] = p
            st.ptrs[key] = p
        return p
    def region(s, name, elem, length=None, kind="entry", zero=False):
        r = Region(name, elem, length, kind, zero); s.regions[r.id] = r
        if r.length is None and kind == "entry": r.length = z3.Int(f"len({name})#{r.id}"); s.base.append(r.length >= 0)
        return r
    def alias_conflict(s): pass
    def load(s, st, ptr, path=(), what="read"):
        """value at *ptr (field path)"""
        val = None
        if all(r is None for _, r, _, _ in ptr.alts): s.oblige(st, FALSE, f"{what} through a null pointer", "null"); return UNDEF
        for c, r, o, pth in ptr.alts:
            if r is None:
                if not z3.is_false(simp(c)): s.oblige(st, z3.Not(c), f"{what} through a null pointer", "null")
                continue
            v = s.load1(st, r, o, pth + path, c, what)
            val = v if val is None else ite(c, v, val)
        return val
    def bounds(s, st, r, o, c, what):
        if r.freed: s.oblige(st, z3.Not(c), f"{what} of released memory", "bounds")
        if s.safe and r.length is not None: s.oblige(st, z3.Implies(c, z3.And(0 <= o, o < r.length)), f"{what} of {r.name} in bounds", "bounds")
    def load1(s, st, r, o, path, c, what):
        s.bounds(st, r, o, c, what)
        t = s.field_type(r.elem, path)
        if t.k == "rec": return {f: s.load1(st, r, o, path + (f,), c, what) for f, _ in s.fields(t)}
        if t.k == "arr": raise Unsupported("array field")
        if t.k == "ptr":
            k = s.lit(o)
            if k is None: raise Unsupported("pointer loaded at a symbolic index")
            return s.mptr(st, (r.id, path, k))
        if t.k in ("fn", "void"): raise Unsupported(f"load of {t}")
        return simp(z3.Select(s.marr(st, (r.id, path)), o))
    def lit(s, o):
        o = simp(o); return o.as_long() if z3.is_int_value(o) else None
    def store(s, st, ptr, path, v, what="write"):
        if all(r is None for _, r, _, _ in ptr.alts): s.oblige(st, FALSE, f"{what} through a null pointer", "null"); return
        for c, r, o, pth in ptr.alts:
            if r is None:
                if not z3.is_false(simp(c)): s.oblige(st, z3.Not(c), f"{what} through a null pointer", "null")
                continue
            s.store1(st, r, o, pth + path, v, c, what)
    def store1(s, st, r, o, path, v, c, what):
        s.bounds(st, r, o, c, what)
        t = s.field_type(r.elem, path)
        if t.k == "rec":
            for f, _ in s.fields(t): s.store1(st, r, o, path + (f,), v[f] if isinstance(v, dict) else UNDEF, c, what)
            return
        if t.k == "ptr":
            k = s.lit(o)
            if k is None: raise Unsupported("pointer stored at a symbolic index")
            key = (r.id, path, k); st.ptrs[key] = v if z3.is_true(simp(c)) else ite(c, v, s.mptr(st, key)); return
        if v is UNDEF: v = s.fresh("undef", s.sort(t))
        v = s.conv(v, t); key = (r.id, path); a = s.marr(st, key); b = z3.Store(a, o, v)
        st.mem[key] = b if z3.is_true(simp(c)) else z3.If(c, b, a)
    def conv(s, v, t):
        if v is UNDEF: return v
        if t.k == "int": return to_int(v) if not isinstance(v, Ptr) else UNDEF
        if t.k == "bv": return to_bv(v, t.n)
        if t.k == "bool": return to_bool(v)
        if t.k == "dbl": return to_real(v)
        return v
    # ---------- expressions
    def ty(s, d): return s.tu.type(d["type"])
    def rval(s, d, st):
        k = d["kind"]
        f = getattr(s, "x_" + k, None)
        if f is None: raise Unsupported(f"expression {k}")
        return f(d, st)
    def kids(s, d): return d.get("inner", [])
    def x_ParenExpr(s, d, st): return s.rval(d["inner"][0], st)
    def x_ConstantExpr(s, d, st): return s.rval(d["inner"][0], st)
    def x_IntegerLiteral(s, d, st): return z3.IntVal(int(d["value"]))
    def x_CharacterLiteral(s, d, st): return z3.IntVal(int(d["value"]))
    def x_FloatingLiteral(s, d, st):
        v = d["value"]
        import fractions
        f = fractions.Fraction(repr(float(v))); return z3.RealVal(f"{f.numerator}/{f.denominator}")
    def x_StringLiteral(s, d, st): return Str(d.get("value", ""))
    def x_ImplicitValueInitExpr(s, d, st): return s.zero(s.ty(d))
    def zero(s, t):
        if t.k == "int": return z3.IntVal(0)
        if t.k == "dbl": return z3.RealVal(0)
        if t.k == "bool": return FALSE
        if t.k == "bv": return z3.BitVecVal(0, t.n)
        if t.k == "ptr": return NULL
        if t.k == "rec": return {f: s.zero(ft) for f, ft in s.fields(t)}
        raise Unsupported(f"zero of {t}")
    def x_InitListExpr(s, d, st):
        t = s.ty(d)
        if t.k == "rec":
            vs = [s.conv(s.rval(c, st), ft) for c, (f, ft) in zip(s.kids(d), s.fields(t))]
            return {f: (vs[i] if i < len(vs) else s.zero(ft)) for i, (f, ft) in enumerate(s.fields(t))}
        if t.k == "arr": return [s.rval(c, st) for c in s.kids(d)]
        return s.rval(s.kids(d)[0], st)
    def x_CompoundLiteralExpr(s, d, st): return s.rval(d["inner"][0], st)
    def x_UnaryExprOrTypeTraitExpr(s, d, st):
        if d.get("name") != "sizeof": raise Unsupported(d.get("name"))
        q = d.get("argType")
        t = s.tu.type(q) if q else s.ty(d["inner"][0])
        return z3.IntVal(s.tu.sizeof(t))
    def x_DeclRefExpr(s, d, st):
        r = d["referencedDecl"]
        if r["kind"] == "EnumConstantDecl": return z3.IntVal(s.tu.enum[r["id"]])
        if r["kind"] == "FunctionDecl": return FnRef(r["name"])
        return s.lread(s.lval(d, st), st)
    def x_MemberExpr(s, d, st): return s.lread(s.lval(d, st), st)
    def x_ArraySubscriptExpr(s, d, st): return s.lread(s.lval(d, st), st)
    def cast_(s, d, st):
        ck = d.get("castKind"); e = d["inner"][0]
        if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr"): return s.rval(e, st)
        if ck == "ArrayToPointerDecay":
            x = e
            while x["kind"] == "ParenExpr": x = x["inner"][0]
            if x["kind"] in ("StringLiteral", "PredefinedExpr"): return Str(x.get("value", ""))
            lv = s.lval(e, st)
            if lv[0] == "mem": return lv[1]
            raise Unsupported("array decay")
        v = s.rval(e, st); t = s.ty(d)
        if ck == "ToVoid": return UNDEF
        if ck == "NullToPointer": return NULL
        if v is UNDEF: return v
        if ck == "BitCast":
            if isinstance(v, Ptr) and t.k == "ptr" and t.e.k not in ("void", "fn"):
                for _, r, _, _ in v.alts:
                    if r is not None and r.elem is None: s.settle(r, t.e)
            return v
        if ck in ("IntegralCast",):
            f = s.ty(e)
            if t.k == "bv" or t.k == "bool": return s.conv(v, t)
            if is_bv(v) and t.k == "int" and t.n >= 4: return v
            return to_int(v)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"): return to_bool(v)
        if ck == "IntegralToFloating": return to_real(v)
        if ck == "FloatingCast": return v
        if ck == "FloatingToIntegral": return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck == "PointerToIntegral": return UNDEF
        raise Unsupported(f"cast {ck}")
    x_ImplicitCastExpr = x_CStyleCastExpr = cast_
    def x_UnaryOperator(s, d, st):
        op = d["opcode"]; e = d["inner"][0]
        if op == "&":
            x = e
            while x["kind"] == "ParenExpr": x = x["inner"][0]
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl": return FnRef(x["referencedDecl"]["name"])
            lv = s.lval(e, st)
            if lv[0] != "mem": raise Unsupported("address of a register variable")
            return Ptr([(c, r, o, p + lv[2]) for c, r, o, p in lv[1].alts]) if lv[2] else lv[1]
        if op == "*": return s.lread(s.lval(d, st), st)
        if op in ("++", "--"):
            lv = s.lval(e, st); v = s.lread(lv, st); t = s.ty(e)
            w = (v.add(1 if op == "++" else -1)) if isinstance(v, Ptr) else s.conv(simp((to_int(v) if t.k != "dbl" else v) + (1 if op == "++" else -1)), t)
            s.lwrite(lv, w, st); return v if d.get("isPostfix") else w
        v = s.rval(e, st)
        if v is UNDEF: return v
        if op == "!": return simp(z3.Not(to_bool(v)))
        if op == "-": return simp(-to_int(v)) if not z3.is_real(v) else simp(-v)
        if op == "+": return v
        if op == "~":
            if z3.is_int_value(v): return z3.IntVal(~v.as_long())
            return ~to_bv(v, 32)
        if op == "__extension__": return v
        raise Unsupported(f"unary {op}")
    def x_BinaryOperator(s, d, st):
        op = d["opcode"]; a, b = d["inner"]
        if op == "=":
            v = s.rval(b, st); lv = s.lval(a, st); s.lwrite(lv, s.conv(v, s.ty(a)) if s.ty(a).k not in ("rec", "ptr") else v, st); return v
        if op == ",": s.rval(a, st); return s.rval(b, st)
        if op in ("&&", "||"):
            x = to_bool(s.rval(a, st))
            if z3.is_false(x) and op == "&&": return FALSE
            if z3.is_true(x) and op == "||": return TRUE
            n = len(st.pc); t = st.copy(); t.pc.append(x if op == "&&" else simp(z3.Not(x))); y = to_bool(s.rval(b, t))
            s.join(st, t, x if op == "&&" else simp(z3.Not(x)), n)
            return simp(z3.And(x, y) if op == "&&" else z3.Or(x, y))
        return s.binop(op, s.rval(a, st), s.rval(b, st), s.ty(d), st, s.ty(a), s.ty(b))
    def join(s, st, t, c, n=None):
        """st := if c then t else st (t a side-effecting continuation of st)"""
        e0 = st.epoch; st.epoch = s.epoch_ite(c, t.epoch, st.epoch)
        if e0 != st.epoch:
            for k in t.mem: s.marr_at(st, k, e0)
            for k in list(st.mem): s.marr(t, k)
        if n is not None and (len(t.pc) != n + 1 or not all(a.eq(b) for a, b in zip(t.pc, st.pc))):          # runs that do not come back (bounded loops, exits)
            x = t.pc[len(st.pc) + 1:] if len(t.pc) > len(st.pc) and all(a.eq(b) for a, b in zip(t.pc, st.pc)) and t.pc[len(st.pc)].eq(c) else t.pc
            st.pc.append(simp(z3.Implies(c, z3.And(x))))
        for k in t.env:
            if k in st.env and not same(st.env[k], t.env[k]): st.env[k] = ite(c, t.env[k], st.env[k])
        for k in t.mem:
            a, b = t.mem[k], s.marr(st, k)
            if not a.eq(b): st.mem[k] = z3.If(c, a, b)
        for k in t.ptrs:
            a, b = t.ptrs[k], s.mptr(st, k)
            if not same(a, b): st.ptrs[k] = ite(c, a, b)
    def binop(s, op, a, b, t, st, ta=None, tb=None):
        if a is UNDEF or b is UNDEF:
            if op in ("==", "!=", "<", "<=", ">", ">="): return s.fresh("undef", B)
            return s.fresh("undef", s.sort(t)) if t.k in ("int", "dbl", "bool", "bv") else UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "+": return a.add(to_int(b)) if isinstance(a, Ptr) else b.add(to_int(a))
            if op == "-" and not isinstance(b, Ptr): return a.add(-to_int(b))
            if not isinstance(a, Ptr): a = NULL
            if not isinstance(b, Ptr): b = NULL
            if op in ("==", "!="):
                e = z3.Or([z3.And(c1, c2, (o1 == o2) if r1 is not None else TRUE) for c1, r1, o1, p1 in a.alts for c2, r2, o2, p2 in b.alts if r1 is r2 and p1 == p2] or [FALSE])
                return simp(e if op == "==" else z3.Not(e))
            (c1, r1, o1, p1), (c2, r2, o2, p2) = a.one(), b.one()
            if r1 is not r2: raise Unsupported("arithmetic on pointers into different allocations")
            if op == "-": return simp(o1 - o2)
            return simp({"<": o1 < o2, "<=": o1 <= o2, ">": o1 > o2, ">=": o1 >= o2}[op])
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if (is_bv(a) or is_bv(b)) and not (z3.is_real(a) or z3.is_real(b)):
                ok = lambda v: is_bv(v) or z3.is_bool(v) or z3.is_int_value(v)
                if ok(a) and ok(b) and op in ("==", "!="):
                    x, y = to_bv(a, 32), to_bv(b, 32); return simp(x == y if op == "==" else x != y)
            if z3.is_bool(a) and z3.is_bool(b) and op in ("==", "!="): return simp(a == b if op == "==" else a != b)
            if z3.is_real(a) or z3.is_real(b): a, b = to_real(a), to_real(b)
            else: a, b = to_int(a), to_int(b)
            return simp({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])
        if op in ("&", "|", "^", "<<", ">>"):
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long(); return z3.IntVal({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
            if z3.is_bool(a) and z3.is_bool(b) and op in "&|^": return simp(z3.And(a, b) if op == "&" else z3.Or(a, b) if op == "|" else z3.Xor(a, b))
            n = 64 if t.k == "int" and t.n == 8 else 32
            x, y = to_bv(a, n), to_bv(b, n)
            return simp({"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: z3.LShR(x, y)}[op]())
        if z3.is_real(a) or z3.is_real(b):
            a, b = to_real(a), to_real(b)
            return s.farith(op, a, b, st)
        a, b = to_int(a), to_int(b)
        if op == "+": return simp(a + b)
        if op == "-": return simp(a - b)
        if op == "*": return simp(a * b)
        if op == "/": return simp(a / b if z3.is_int_value(b) and b.as_long() > 0 and t.k == "int" and t.e else z3.If(a >= 0, a / b, -((-a) / b)))
        if op == "%": return simp(z3.If(a >= 0, a % b, -((-a) % b)))
        raise Unsupported(f"binary {op}")
    def farith(s, op, a, b, st):
        if s.ext: 
            def fin(v): return simp(z3.And(v < INF, v > -INF)) if not z3.is_rational_value(v) else TRUE
            sg = lambda v: simp(z3.If(v > 0, INF, z3.If(v < 0, -INF, z3.RealVal(0))))
            fa, fb = fin(a), fin(b)
            if op == "*": return simp(z3.If(z3.And(fa, fb), a * b, sg(a) if False else z3.If(z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), INF, -INF)))
            if op == "/": return simp(z3.If(fb, z3.If(fa, a / b, z3.If((a > 0) == (b > 0), INF, -INF)), z3.RealVal(0)))
            if op == "+": return simp(z3.If(z3.And(fa, fb), a + b, z3.If(fa, b, a)))
            if op == "-": return simp(z3.If(z3.And(fa, fb), a - b, z3.If(fa, -b, a)))
        if op == "/" and s.safe: s.oblige(st, b != 0, "divisor is not zero", "div")
        return simp({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]())
    ext = False
    frame_inv = None
    def x_CompoundAssignOperator(s, d, st):
        op = d["opcode"][:-1]; a, b = d["inner"]; y = s.rval(b, st); lv = s.lval(a, st); x = s.lread(lv, st)
        ct = s.tu.type(d.get("computeResultType", d["type"])); t = s.ty(a)
        v = s.binop(op, x, y, ct, st)
        if t.k not in ("ptr", "rec"): v = s.conv(v, t)
        s.lwrite(lv, v, st); return v
    def x_ConditionalOperator(s, d, st):
        c, a, b = d["inner"]; x = to_bool(s.rval(c, st))
        if z3.is_true(x): return s.rval(a, st)
        if z3.is_false(x): return s.rval(b, st)
        n = len(st.pc); t, u = st.copy(), st.copy(); t.pc.append(x); u.pc.append(simp(z3.Not(x))); va, vb = s.rval(a, t), s.rval(b, u)
        base = st.copy(); s.join(st, u, simp(z3.Not(x)), n); p1 = st.pc; st.pc = base.pc; s.join(st, t, x, n); st.pc = st.pc + p1[n:]
        return ite(x, va, vb)
    def x_StmtExpr(s, d, st): raise Unsupported("statement expression")
    # ---------- lvalues
    def lval(s, d, st):
        k = d["kind"]
        if k == "ParenExpr": return s.lval(d["inner"][0], st)
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and d.get("castKind") in ("NoOp", "LValueToRValue"): return s.lval(d["inner"][0], st)
        if k == "DeclRefExpr":
            r = d["referencedDecl"]; i = r["id"]
            if i in st.env:
                v = st.env[i]
                if isinstance(v, tuple) and v[0] == "cell": return ("mem", v[1], ())
                return ("var", i, ())
            if i in s.tu.glob:
                g = s.tu.glob[i]; t = s.ty(g); key = ("glob", s.tu.path, g["name"])
                if key not in s.lazy: s.lazy[key] = P(s.region(g["name"], t if t.k != "arr" else t.e, z3.IntVal(1 if t.k != "arr" else t.n), "global"))
                return ("mem", s.lazy[key], ())
            key = ("extern", r["name"])
            if key not in s.lazy: s.lazy[key] = P(s.region(r["name"], s.tu.type(r["type"]), z3.IntVal(1), "global"))
            return ("mem", s.lazy[key], ())
        if k == "MemberExpr":
            f = d["name"]; e = d["inner"][0]
            if d.get("isArrow"):
                p = s.rval(e, st)
                if not isinstance(p, Ptr): raise Unsupported(f"member {f} of {p!r}")
                return ("mem", p, (f,))
            lv = s.lval_or_tmp(e, st)
            return (lv[0], lv[1], lv[2] + (f,))
        if k == "ArraySubscriptExpr":
            a, b = d["inner"]; p = s.rval(a, st); i = s.rval(b, st)
            if not isinstance(p, Ptr): p, i = i, p
            if not isinstance(p, Ptr): raise Unsupported("subscript of undefined pointer")
            return ("mem", p.add(to_int(i)), ())
        if k == "UnaryOperator" and d["opcode"] == "*":
            p = s.rval(d["inner"][0], st)
            if not isinstance(p, Ptr): raise Unsupported("dereference of undefined pointer")
            return ("mem", p, ())
        raise Unsupported(f"lvalue {k}")
    def lval_or_tmp(s, e, st):
        try: return s.lval(e, st)
        except Unsupported: return ("tmp", s.rval(e, st), ())
    def lread(s, lv, st):
        k, x, path = lv
        if k == "mem": return s.load(st, x, path)
        v = st.env[x] if k == "var" else x
        for f in path:
            if not isinstance(v, dict): return UNDEF
            v = v[f]
        return v
    def lwrite(s, lv, v, st):
        k, x, path = lv
        if k == "mem": return s.store(st, x, path, v)
        if k != "var": raise Unsupported("assignment to a temporary")
        if not path: st.env[x] = v; return
        def upd(o, p): o = dict(o) if isinstance(o, dict) else {}; o[p[0]] = v if len(p) == 1 else upd(o.get(p[0]), p[1:]); return o
        st.env[x] = upd(st.env[x], path)
    # ---------- calls
    def x_CallExpr(s, d, st):
        ks = d["inner"]; f = s.rval(ks[0], st)
        if not isinstance(f, FnRef): raise Unsupported("indirect call")
        n = f.name; args = ks[1:]
        if n in ("__builtin_inff", "__builtin_inf", "__builtin_huge_val", "__builtin_huge_valf"): return INF
        if n in ("__builtin_nanf", "__builtin_nan"): return s.fresh("nan", R)
        h = getattr(s, "c_" + n, None)
        if h: return h(d, [s.rval(a, st) for a in args], st)
        return s.call(n, [s.rval(a, st) for a in args], st, s.ty(d))
    def c___builtin_isinf_sign(s, d, a, st): return simp(z3.If(a[0] >= INF, z3.IntVal(1), z3.If(a[0] <= -INF, z3.IntVal(-1), z3.IntVal(0))))
    def c_isinf(s, d, a, st): return simp(z3.Or(a[0] >= INF, a[0] <= -INF))
    c___builtin_isinf = c_isinf
    def c_isnan(s, d, a, st): return FALSE
    c___builtin_isnan = c_isnan
    def c_fabs(s, d, a, st): return simp(z3.If(a[0] < 0, -a[0], a[0]))
    c___builtin_fabs = c_fabs
    def c_abs(s, d, a, st): a = to_int(a[0]); return simp(z3.If(a < 0, -a, a))
    def c_fmax(s, d, a, st): return simp(z3.If(a[0] > a[1], a[0], a[1]))
    def c_fmin(s, d, a, st): return simp(z3.If(a[0] < a[1], a[0], a[1]))
    def c_printf(s, d, a, st): return s.fresh("n", I)
    c_fprintf = c_puts = c_putchar = c_fflush = c_printf
    def c_exit(s, d, a, st): st.pc.append(FALSE); return UNDEF
    c_abort = c___assert_fail = c_exit
    def heap(s, nbytes, name="heap", zero=False):
        r = Region(name, None, None, "heap", zero); s.regions[r.id] = r; r.bytes = nbytes; return r
    def c_ps_malloc(s, d, a, st): r = s.heap(None); r.count, r.size = to_int(a[0]), to_int(a[1]); return P(r)
    def c_ps_calloc(s, d, a, st): r = s.heap(None, zero=True); r.count, r.size = to_int(a[0]), to_int(a[1]); return P(r)
    def c_malloc(s, d, a, st): r = s.heap(None); r.count, r.size = None, None; r.bytes = to_int(a[0]); return P(r)
    def c_calloc(s, d, a, st): return s.c_ps_calloc(d, a, st)
    def c_ps_realloc(s, d, a, st):
        p, n, sz = a[0], to_int(a[1]), to_int(a[2]); al = [x for x in p.alts if x[1] is not None]; r0 = al[0][1]
        r = Region(r0.name.rstrip("'") + "'", r0.elem, n, "heap"); s.regions[r.id] = r; r.count, r.size = n, sz
        for pth, t in s.leaves(r0.elem):
            if t.k == "ptr": raise Unsupported("realloc of pointers")
            v = s.marr(st, (al[-1][1].id, pth))          # elements up to the old length are kept (beyond it both contents are arbitrary)
            for g, q, _, _ in al[:-1]: v = z3.If(g, s.marr(st, (q.id, pth)), v)
            st.mem[(r.id, pth)] = v
        return P(r)
    def settle(s, r, elem):
        r.elem = elem; n = s.tu.sizeof(elem)
        if getattr(r, "count", None) is not None:
            k = s.lit(r.size)
            r.length = r.count if k == n else simp(r.count * r.size / n)
        else: r.length = simp(r.bytes / n)
        # unsigned conversions of element counts are non-negative by assumption of successful allocation
    def c_free(s, d, a, st): return UNDEF
    c_ps_free = c_free
    def c_memcpy(s, d, a, st):
        dst, src, n = a; nm = s.rval(d["inner"][0], st).name
        sa = [x for x in src.alts if x[1] is not None]; da = [x for x in dst.alts if x[1] is not None]
        pre = st.copy()
        for cd, rd, od, pd in da:
            if pd or any(x[3] for x in sa): raise Unsupported("memcpy to a field")
            if rd.elem is None: s.settle(rd, sa[0][1].elem)
            cnt = s.count_of(d, n, s.tu.sizeof(rd.elem)); s.copy(st, pre, cd, rd, od, sa, cnt, "memcpy" in nm)
        return dst
    def copy(s, st, pre, cd, rd, od, sa, cnt, disjoint):
        if not sa:
            if s.safe or s.mode == "proof": s.oblige(st, z3.Implies(cd, cnt <= 0), "nothing is copied from a null pointer", "null")
            return
        if s.safe:
            if rd.length is not None: s.oblige(st, z3.Implies(z3.And(cd, cnt > 0), z3.And(od >= 0, od + cnt <= rd.length)), f"copy into {rd.name} in bounds", "bounds")
            for cs, rs, os_, _ in sa:
                if rs.length is not None: s.oblige(st, z3.Implies(z3.And(cs, cnt > 0), z3.And(os_ >= 0, os_ + cnt <= rs.length)), f"copy out of {rs.name} in bounds", "bounds")
                if rd is rs and disjoint: s.oblige(st, z3.Implies(z3.And(cd, cs), z3.Or(cnt <= 0, od + cnt <= os_, os_ + cnt <= od)), "memcpy source and destination do not overlap", "bounds")
        for pth, t in s.leaves(rd.elem):
            if t.k == "ptr": raise Unsupported("memcpy of pointers")
            A = s.marr(pre, (rd.id, pth)); B_ = [(cs, s.marr(pre, (rs.id, pth)), os_) for cs, rs, os_, _ in sa]
            def src_at(j):
                v = z3.Select(B_[-1][1], simp(j + B_[-1][2]))
                for cs, b, o in B_[:-1]: v = z3.If(cs, z3.Select(b, simp(j + o)), v)
                return v
            i = z3.Int("i?c")
            if s.mode == "bmc":
                k = s.unroll + 2; C = A; s.assume(st, cnt <= k)
                for j in range(k): C = z3.If(z3.And(cd, j < cnt), z3.Store(C, simp(od + j), src_at(z3.IntVal(j))), C)
            else:
                C = s.fresh("cpy", A.sort())
                s.facts.append(z3.ForAll([i], z3.Select(C, i) == z3.If(z3.And(cd, od <= i, i < od + cnt), src_at(simp(i - od)), z3.Select(A, i)), patterns=[z3.Select(C, i)]))
            st.mem[(rd.id, pth)] = C
    c_memmove = c___builtin_memcpy = c___builtin___memcpy_chk = c_memcpy
    def c_memset(s, d, a, st):
        dst, v, n = a; _, rd, od, pd = dst.one(); sz = s.tu.sizeof(rd.elem); cnt = s.count_of(d, n, sz)
        if s.lit(to_int(v)) != 0: raise Unsupported("memset to nonzero")
        for pth, t in s.leaves(rd.elem):
            A = s.marr(st, (rd.id, pth)); C = s.fresh("set", A.sort()); i = z3.Int("i?c"); z = s.zero(t)
            if s.mode == "bmc":
                k = s.unroll + 2; C = A; s.assume(st, cnt <= k)
                for j in range(k): C = z3.If(j < cnt, z3.Store(C, od + j, z), C)
                st.mem[(rd.id, pth)] = C; continue
            s.facts.append(z3.ForAll([i], z3.Select(C, i) == z3.If(z3.And(od <= i, i < od + cnt), z, z3.Select(A, i)), patterns=[z3.Select(C, i)]))
            st.mem[(rd.id, pth)] = C
        return dst
    def count_of(s, d, n, sz):
        n = to_int(n); k = s.lit(n)
        if k is not None: return z3.IntVal(k // sz)
        # n is a polynomial with constant coefficients: divide them
        q = s.divc(simp(n), sz)
        return q if q is not None else simp(n / sz)
    def divc(s, e, n):
        if z3.is_int_value(e): return z3.IntVal(e.as_long() // n) if e.as_long() % n == 0 else None
        if z3.is_mul(e):
            for j in range(e.num_args()):
                q = s.divc(e.arg(j), n) if z3.is_int_value(e.arg(j)) else None
                if q is not None:
                    r = q
                    for m in range(e.num_args()):
                        if m != j: r = r * e.arg(m)
                    return simp(r)
            return None
        if z3.is_add(e):
            qs = [s.divc(e.arg(j), n) for j in range(e.num_args())]
            return None if any(q is None for q in qs) else simp(sum(qs[1:], qs[0]))
        if n == 1: return e
        return None
    def c_qsort(s, d, a, st):
        _, r, o, _ = a[0].one()
        for pth, t in s.leaves(r.elem): st.mem[(r.id, pth)] = s.fresh("sorted", s.marr(st, (r.id, pth)).sort())
        s.bounded_hit = True
        return UNDEF
    def c_clock_gettime(s, d, a, st):
        _, r, o, pth = a[1].one()
        t = s.field_type(r.elem, pth)
        for p, lt in s.leaves(t, pth): st.mem[(r.id, p)] = z3.Store(s.marr(st, (r.id, p)), o, s.fresh("t", I))
        if not s.dry: s.clock.append({p[len(pth):]: z3.Select(st.mem[(r.id, p)], o) for p, lt in s.leaves(t, pth)})
        return z3.IntVal(0)
    def call(s, name, args, st, rt):
        h = s.call_hooks.get(name)
        if h is not None and not s.dry: h(st, args)
        con = s.opaque.get(name)
        if con is not None:
            s.used_contracts.add(name); pc = st.cond(); r = con.apply(s, args, st, rt)
            if not s.dry: s.call_log.setdefault(name, []).append((pc, args, r))
            return r
        con = s.registry.get(name)
        if con is not None and s.mode == "proof" and con.callable:
            s.used_contracts.add(name); return con.apply(s, args, st, rt)
        return s.inline(name, args, st, rt)
    def find(s, name):
        if name in s.tu.fns: return s.tu, s.tu.fns[name]
        w = cast.where(name)
        if w:
            tu = cast.load(w)
            if name in tu.fns: return tu, tu.fns[name]
        return None, None
    def inline(s, name, args, st, rt):
        tu, fn = s.find(name)
        if fn is None: raise Unsupported(f"call of {name}")
        if name in s.frames: raise Unsupported(f"recursion through {name}")
        if len(s.frames) > 12: raise Unsupported("call depth")
        s.inlined.add(name)
        save = (s.tu, st.env, s.loop_invs); addr = s.addr; s.tu = tu; s.frames.append(name); s.loop_invs = None
        try:
            st.env = {}; pc0 = list(st.pc)
            v, out = s.body(fn, args, st)
        finally: s.tu, env, s.loop_invs = save; s.frames.pop(); s.addr = addr
        if out is None: st.env = env; st.pc.append(FALSE); return UNDEF
        st.mem, st.ptrs = out.mem, out.ptrs; st.env = env
        st.pc = out.pc
        return v
    def params(s, fn): return [c for c in s.kids(fn) if c.get("kind") == "ParmVarDecl"]
    def body(s, fn, args, st):
        """runs the body in st (env fresh); returns (return value, exit state)"""
        s.addr = s.addr_taken(fn)
        for p, a in zip(s.params(fn), args): s.declare(p["id"], s.ty(p), p.get("name", "_"), a if s.ty(p).k in ("ptr", "rec") else s.conv(a, s.ty(p)), st)
        b = [c for c in fn["inner"] if c["kind"] == "CompoundStmt"][0]
        outs = s.stmt(b, st)
        rets = list(outs["ret"])
        for x in outs["normal"]: rets.append((x, UNDEF))
        if outs["brk"] or outs["cont"]: raise Unsupported("stray break")
        rets = [(x, v) for x, v in rets if not any(z3.is_false(simp(c)) for c in x.pc)]
        if not rets: return UNDEF, None
        for x, v in rets: x.env = {"#ret": v}
        m = merge([x for x, _ in rets], s); v = m.env.get("#ret", UNDEF)
        t = s.ret_type(fn)
        return (s.conv(v, t) if t.k in ("int", "bv", "bool", "dbl") and v is not UNDEF else v), m
    def ret_type(s, fn):
        q = fn["type"]["qualType"]; return s.tu.ptype(q[:q.index("(")])
    _addr = {}
    def addr_taken(s, fn):
        k = (s.tu.path, fn["id"])
        if k in s._addr: return s._addr[k]
        out = set()
        def base(d):
            while True:
                if d["kind"] == "ParenExpr": d = d["inner"][0]
                elif d["kind"] == "MemberExpr" and not d.get("isArrow"): d = d["inner"][0]
                else: break
            if d["kind"] == "DeclRefExpr": out.add(d["referencedDecl"]["id"])
        def w(d):
            if not isinstance(d, dict): return
            if d.get("kind") == "UnaryOperator" and d.get("opcode") == "&": base(d["inner"][0])
            for c in d.get("inner", ()): w(c)
        w(fn); s._addr[k] = out; return out
    def declare(s, i, t, name, v, st):
        if t.k == "arr" or i in s.addr:
            r = Region(name, t.e if t.k == "arr" else t, z3.IntVal(t.n if t.k == "arr" else 1), "heap"); s.regions[r.id] = r; st.env[i] = ("cell", P(r))
            if isinstance(v, list):
                for j, x in enumerate(v): s.store1(st, r, z3.IntVal(j), (), x, TRUE, "init")
            elif v is not UNDEF: s.store1(st, r, z3.IntVal(0), (), v, TRUE, "init")
        else: st.env[i] = v
    # ---------- statements: return dict(normal=[...], brk, cont, ret=[(state, value)])
    def stmt(s, d, st):
        out = dict(normal=[], brk=[], cont=[], ret=[]); k = d.get("kind")
        if k is None: out["normal"] = [st]; return out
        f = getattr(s, "s_" + k, None)
        if f: f(d, st, out); return out
        if k.endswith("Expr") or k.endswith("Operator"):
            s.rval(d, st); out["normal"] = [st]; return out
        raise Unsupported(f"statement {k}")
    def s_NullStmt(s, d, st, out): out["normal"] = [st]
    def s_GCCAsmStmt(s, d, st, out): raise Unsupported("asm")
    def s_CompoundStmt(s, d, st, out):
        cur = st
        for c in s.kids(d):
            if cur is None: break
            r = s.stmt(c, cur)
            for k in ("brk", "cont", "ret"): out[k] += r[k]
            cur = merge(r["normal"], s)
        if cur is not None: out["normal"] = [cur]
    def s_DeclStmt(s, d, st, out):
        for c in s.kids(d):
            if c["kind"] != "VarDecl": continue
            t = s.ty(c); v = UNDEF
            if c.get("storageClass") == "static": raise Unsupported("static local")
            if c.get("init"):
                e = [x for x in s.kids(c) if x["kind"].endswith(("Expr", "Operator", "Literal"))][-1]
                v = s.rval(e, st)
                if t.k in ("int", "bv", "bool", "dbl"): v = s.conv(v, t)
            elif t.k in ("int", "bv", "bool", "dbl"): v = s.fresh(c["name"] + "_uninitialised", s.sort(t))
            s.declare(c["id"], t, c["name"], v, st); s.names[c["id"]] = (c["name"], t)
        out["normal"] = [st]
    def s_IfStmt(s, d, st, out):
        ks = s.kids(d); c = to_bool(s.rval(ks[0], st)); el = ks[2] if len(ks) > 2 else None
        if z3.is_true(c) or z3.is_false(c):
            if z3.is_true(c): r = s.stmt(ks[1], st)
            elif el: r = s.stmt(el, st)
            else: out["normal"] = [st]; return
            for k in out: out[k] += r[k]
            return
        a, b = st, st.copy(); a.pc.append(c); b.pc.append(simp(z3.Not(c)))
        if s.mode == "proof" and not s.dry and s.prune:
            if s.infeasible(a): a, b = None, st
            elif s.infeasible(b): b = None; st.pc.pop()
        if a is None: st.pc.pop()
        else:
            r = s.stmt(ks[1], a)
            for k in out: out[k] += r[k]
        if b is None: pass
        elif el:
            r = s.stmt(el, b)
            for k in out: out[k] += r[k]
        else: out["normal"].append(b)
        m = merge(out["normal"], s); out["normal"] = [m] if m else []
    prune = False
    def infeasible(s, st):
        so = z3.Solver(); so.set("timeout", 300); so.set("smt.mbqi", False); so.add(s.base); so.add(s.facts); so.add(st.pc); return so.check() == z3.unsat
    def s_ReturnStmt(s, d, st, out):
        v = s.rval(s.kids(d)[0], st) if s.kids(d) else UNDEF
        out["ret"].append((st, v))
    def s_BreakStmt(s, d, st, out): out["brk"].append(st)
    def s_ContinueStmt(s, d, st, out): out["cont"].append(st)
    def s_SwitchStmt(s, d, st, out):
        ks = s.kids(d); v = s.rval(ks[0], st); items = []
        def flat(x):
            if x["kind"] in ("CaseStmt", "DefaultStmt"):
                items.append(("label", cast.const_value(x["inner"][0]) if x["kind"] == "CaseStmt" else None)); flat(x["inner"][-1])
            else: items.append(("stmt", x))
        for x in s.kids(ks[1]): flat(x)
        labs = [l for k, l in items if k == "label" and l is not None]
        eq = lambda l: to_bool(s.binop("==", v, z3.IntVal(l), None, st))
        cur = None; base = st
        for k, x in items:
            if k == "label":
                c = eq(x) if x is not None else simp(z3.Not(z3.Or([eq(l) for l in labs])))
                e = base.copy(); e.pc.append(c); cur = merge([y for y in (cur, e) if y is not None], s)
            elif cur is not None:
                r = s.stmt(x, cur)
                out["normal"] += r["brk"]; out["cont"] += r["cont"]; out["ret"] += r["ret"]; cur = merge(r["normal"], s)
        if cur is not None: out["normal"].append(cur)
        if not any(k == "label" and l is None for k, l in items):
            e = base.copy(); e.pc.append(simp(z3.Not(z3.Or([eq(l) for l in labs])))); out["normal"].append(e)
        m = merge(out["normal"], s); out["normal"] = [m] if m else []
    # ---------- loops
    def s_ForStmt(s, d, st, out):
        init, _, cond, inc, body = [x if x.get("kind") else None for x in d["inner"]]
        if init:
            r = s.stmt(init, st); st = r["normal"][0]
        s.loop(d, st, cond, inc, body, out)
    def s_WhileStmt(s, d, st, out): s.loop(d, st, d["inner"][0], None, d["inner"][-1], out)
    def s_DoStmt(s, d, st, out):
        body, cond = d["inner"]
        x = cond
        while x["kind"] in ("ParenExpr", "ImplicitCastExpr"): x = x["inner"][0]
        if x["kind"] == "IntegerLiteral" and x["value"] == "0":      # do { } while (0)
            r = s.stmt(body, st); out["ret"] += r["ret"]
            m = merge(r["normal"] + r["brk"] + r["cont"], s); out["normal"] = [m] if m else []; return
        s.loop(d, st, cond, None, body, out, first=True)
    def once(s, cond, inc, body, st, first=False):
        """one guarded iteration: (exit states, next states, returns)"""
        c = to_bool(s.rval(cond, st)) if cond and not first else TRUE
        ex = []
        if not z3.is_true(c):
            e = st.copy(); e.pc.append(simp(z3.Not(c))); ex.append(e); st.pc.append(c)
        if z3.is_false(simp(c)): return ex, None, []
        r = s.stmt(body, st); nxt = merge(r["normal"] + r["cont"], s); s.last_iteration = (merge([x.copy() for x in r["brk"]], s), nxt.copy() if nxt is not None else None)
        if nxt is not None and inc: s.rval(inc, nxt)
        return ex + r["brk"], nxt, r["ret"]
    def once_do(s, cond, body, st):
        """one iteration of a loop with its test at the end; the loop head is before the body"""
        r = s.stmt(body, st); nxt = merge(r["normal"] + r["cont"], s); s.last_iteration = (merge([x.copy() for x in r["brk"]], s), nxt.copy() if nxt is not None else None)
        if nxt is None: return r["brk"], None, r["ret"]
        c = to_bool(s.rval(cond, nxt)); e = nxt.copy(); e.pc.append(simp(z3.Not(c))); nxt.pc.append(c)
        return [e] + r["brk"], nxt, r["ret"]
    def loop(s, d, st, cond, inc, body, out, first=False):
        invs = s.loop_invs
        inv = None
        if invs is not None: inv = invs.next(d, s)
        if s.mode == "bmc" or (inv is not None and inv.get("unroll")):
            exits = []; cur = st; lim = s.unroll if s.mode == "bmc" else inv["unroll"]; ff = first
            for _ in range(lim + 1):
                if cur is None: break
                h0 = cur.copy() if inv is not None and inv.get("each") else None; s.last_iteration = (None, None)
                ex, cur, rets = s.once(cond, inc, body, cur, ff); ff = False
                if h0 is not None: s.each(inv, st, h0, s.last_iteration, rets)
                exits += ex; out["ret"] += rets
                if cur is not None and z3.is_false(simp(cur.cond())): cur = None
            if cur is not None and s.mode == "proof": s.oblige(cur, FALSE, "unrolled loop ends")
            m = merge(exits, s); out["normal"] = [m] if m else []; return
        # concrete loops: unroll when the condition decides
        if inv is None and not first:
            probe = st.copy(); c = None
            try:
                s.dry += 1; c = simp(to_bool(s.rval(cond, probe))) if cond else None
            finally: s.dry -= 1
            if c is not None and (z3.is_true(c) or z3.is_false(c)):
                cur = st; exits = []
                for _ in range(40):
                    if cur is None: break
                    ex, cur, rets = s.once(cond, inc, body, cur); exits += [e for e in ex if not any(z3.is_false(simp(x)) for x in e.pc)]; out["ret"] += rets
                    if cur is None or z3.is_false(simp(cur.cond())): cur = None; break
                    p2 = cur.copy(); c2 = simp(to_bool(s.rval(cond, p2)))
                    if not (z3.is_true(c2) or z3.is_false(c2)): break
                if cur is None: m = merge(exits, s); out["normal"] = [m] if m else []; return
                raise Unsupported("loop half concrete")
        # --- cut
        entry = st.copy()
        mod = set()
        nreg = Region.n; known = lambda rid: rid <= nreg or s.regions[rid].kind in ("entry", "global", "ghost")
        for _ in range(6):
            t = entry.copy(); s.havoc(t, mod, "dry"); base = t.copy(); nf, nr = len(s.facts), len(s.obls)
            s.dry += 1
            pos = invs.mark() if invs is not None else None
            try:
                ex, nxt, rets = s.once(cond, inc, body, t) if not first else s.once_do(cond, body, t)
            finally: s.dry -= 1
            if pos is not None: invs.reset(pos)
            del s.facts[nf:]
            new = set()
            for z in ex + ([nxt] if nxt else []) + [x for x, _ in rets]:
                for k, v in z.env.items():
                    if k in base.env and not same(v, base.env[k]): new.add(("env", k))
                for k, v in z.mem.items():
                    if known(k[0]) and not v.eq(s.marr(base, k)): new.add(("mem", k))
                for k, v in z.ptrs.items():
                    if known(k[0]) and not same(v, s.mptr(base, k)): new.add(("ptr", k))
                if z.epoch != base.epoch: new.add(("epoch", 0))
            if new <= mod: break
            mod |= new
        else: raise Unsupported("modified locations do not stabilise")
        head = entry.copy(); s.havoc(head, mod, "loop")
        L = Loop(s, entry, head, mod) 
        forms = inv["fn"](Loop(s, entry, entry, mod)) if inv else []
        tag = f"loop {inv['i']}" if inv else "loop"
        known = inv.get("known", ()) if inv else ()          # established by another contract of the same function
        for n, f in forms:
            if n in known: s.assume(entry, f)
            else: s.oblige(entry, f, f"{tag} invariant '{n}' on entry", "inv")
        auto0 = s.auto_inv(entry, head, mod, cond, inc); fr = s.frame_inv(mod, entry, head) if s.frame_inv else (lambda st: [])
        auto = lambda st: auto0(st) + fr(st)
        for n, f in fr(entry): s.oblige(entry, f, f"{tag} {n} on entry", "inv")
        for _, f in auto(head): s.assume(head, f)
        hf = inv["fn"](L) if inv else []
        for n, f in hf: s.assume(head, f)
        for f in (inv.get("use")(L) if inv and inv.get("use") else []): s.assume(head, f)
        t = head.copy(); s.last_iteration = (None, None)
        ex, nxt, rets = s.once(cond, inc, body, t) if not first else s.once_do(cond, body, t)
        if inv and inv.get("each"): s.each(inv, entry, head, s.last_iteration, rets, mod)
        out["ret"] += rets
        if nxt is not None and not z3.is_false(simp(nxt.cond())):
            if inv and inv.get("step"):
                for n, f in inv["step"](L, Loop(s, entry, nxt, mod)): s.oblige(nxt, f, f"{tag} step lemma '{n}'", "lemma")
            cases = lambda f: (lambda sp: sp + [z3.Not(z3.Or(*sp))])(f(L)) if f else [TRUE]; so = (inv or {}).get("split_of"); sf = (inv or {}).get("split"); sp = cases(sf)
            of = lambda n: [TRUE] if not sf and not so else cases(so.get(n)) if isinstance(so, dict) else sp if so is None or n in so else [TRUE]
            for n, f in (inv["fn"](Loop(s, entry, nxt, mod)) if inv else []):
                if n in known: s.assume(nxt, f); continue
                for g in of(n): s.oblige(nxt, f if z3.is_true(g) else z3.Implies(g, f), f"{tag} invariant '{n}' preserved", "inv")
            for n, f in auto(nxt): s.oblige(nxt, f, f"{tag} counter '{n}'", "inv")
        m = merge(ex, s); out["normal"] = [m] if m else []
    def each(s, inv, entry, head, last, rets, mod=()):
        """obligations about one iteration: state at its start, state at its end (before the increment), how it ended"""
        for how, z in [("break", last[0]), ("next", last[1])] + [("return", x) for x in rets]:
            v = None
            if how == "return": z, v = z
            if z is None or z3.is_false(simp(z.cond())): continue
            L1 = Loop(s, entry, z, mod); L1.value = v
            for n, f in inv["each"](Loop(s, entry, head, mod), L1, how): s.oblige(z, f, f"loop {inv['i']} iteration: {n}" + ("" if how == "next" else f" ({how})"), "post")
    def havoc(s, st, mod, tag):
        if ("epoch", 0) in mod: s.new_epoch(st)
        for kind, k in mod:
            if kind == "epoch": continue
            if kind == "env":
                v = st.env.get(k); st.env[k] = s.havoc_val(v, s.names.get(k, (str(k),))[0])
            elif kind == "mem": a = s.marr(st, k); st.mem[k] = s.fresh(f"{s.regions[k[0]].name}.{'.'.join(k[1])}", a.sort())
            else:
                p = s.mptr(st, k); st.ptrs[k] = s.havoc_val(p, "ptr")
    def havoc_val(s, v, name):
        if z3.is_expr(v): return s.fresh(name, v.sort())
        if isinstance(v, dict): return {k: s.havoc_val(x, name) for k, x in v.items()}
        if isinstance(v, Ptr):
            a = [x for x in v.alts if x[1] is not None]
            if len(a) == 1 and len(v.alts) == 1: return Ptr([(TRUE, a[0][1], s.fresh(name, I), a[0][3])])
            return UNDEF
        return UNDEF
    def auto_inv(s, entry, head, mod, cond, inc):
        """counter bounds: for i++ / i-- loops with i modified only by the increment"""
        out = []
        if inc is not None:
            def incs(e):
                if e["kind"] == "BinaryOperator" and e["opcode"] == ",": return incs(e["inner"][0]) + incs(e["inner"][1])
                if e["kind"] == "UnaryOperator" and e["opcode"] in ("++", "--") and e["inner"][0]["kind"] == "DeclRefExpr": return [(e["inner"][0]["referencedDecl"]["id"], e["opcode"])]
                return []
            c = cond
            while c and c["kind"] in ("ParenExpr", "ImplicitCastExpr"): c = c["inner"][0]
            for vid, op in incs(inc):
                v0 = entry.env.get(vid)
                if not (z3.is_expr(v0) and z3.is_int(v0)): continue
                if op == "++":
                    out.append(("lower bound", lambda st, vid=vid, v0=v0: st.env[vid] >= v0))
                    if c and c["kind"] == "BinaryOperator" and c["opcode"] in ("<",):
                        def strip(x):
                            while x["kind"] in ("ParenExpr", "ImplicitCastExpr"): x = x["inner"][0]
                            return x
                        l = strip(c["inner"][0])
                        if l["kind"] == "DeclRefExpr" and l["referencedDecl"]["id"] == vid:
                            try:
                                s.dry += 1
                                e1 = s.rval(c["inner"][1], entry.copy()); e2 = s.rval(c["inner"][1], head.copy())
                            except Unsupported: continue
                            finally: s.dry -= 1
                            if z3.is_expr(e1) and to_int(e1).eq(to_int(e2)):
                                n = to_int(e1); out.append(("upper bound", lambda st, vid=vid, v0=v0, n=n: z3.Or(st.env[vid] <= n, st.env[vid] == v0)))
                else: out.append(("upper bound", lambda st, vid=vid, v0=v0: st.env[vid] <= v0))
        return lambda st: [(n, f(st)) for n, f in out]
class Loop:
    """what an invariant sees"""
    def __init__(s, eng, entry, st, mod): s.eng, s.entry_st, s.st, s.mod = eng, entry, st, mod
    @property
    def entry(s): return Loop(s.eng, s.entry_st, s.entry_st, s.mod)
    def var(s, name):
        for k, v in reversed(s.st.env.items()):          # innermost declaration first
            if k in s.eng.names and s.eng.names[k][0] == name:
                if isinstance(v, tuple) and v[0] == "cell": return s.eng.load(s.st, v[1], ())
                return v
        raise Unsupported(f"no variable {name} (invariant)")
    __getitem__ = var
