"""C front end: clang's AST of /repo's current sources (production configuration), cut down to functions, records and enum constants."""
import json, subprocess, os, glob, re
import pslp
class T:
    __slots__ = ("k", "e", "n")
    def __init__(s, k, e=None, n=None): s.k, s.e, s.n = k, e, n
    def __repr__(s): return f"{s.k}" + (f"<{s.e}>" if s.e else "") + (f"[{s.n}]" if s.n is not None else "")
INT = {"int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "size_t": 8, "short": 2, "char": 1, "signed char": 1, "uint32_t": 4, "int32_t": 4, "uint64_t": 8, "int64_t": 8, "ptrdiff_t": 8}
UNS = {"unsigned int", "unsigned long", "unsigned long long", "size_t", "uint32_t", "uint64_t"}
BV = {"uint8_t": 8, "unsigned char": 8, "uint16_t": 16, "unsigned short": 16}
class Recs(dict):
    """records of a translation unit; those it only sees incompletely come from another one"""
    def find(s, k):
        if dict.__contains__(s, k): return dict.__getitem__(s, k)
        for f in ("Postsolver.c", "Presolver.c", "Constraints.c"):
            t = load(f)
            if dict.__contains__(t.recs, k): return dict.__getitem__(t.recs, k)
    def __missing__(s, k):
        r = s.find(k)
        if r is None: raise KeyError(k)
        return r
    def __contains__(s, k): return dict.__contains__(s, k)
class TU:
    """one translation unit"""
    cache = {}
    def __init__(s, path):
        s.path = path; s.fns = {}; s.recs = Recs(); s.recid = {}; s.tdef = {}; s.enum = {}; s.glob = {}; s.fields_by_id = {}
        cmd = ["clang", "-std=c99", *pslp.PROD, *pslp.DEFS, *pslp.INC, "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", path]
        p = subprocess.run(cmd, capture_output=True)
        if p.returncode: raise RuntimeError("clang: " + p.stderr.decode()[:300])
        for d in json.loads(p.stdout)["inner"]: s.top(d)
    def top(s, d):
        k = d.get("kind")
        if k == "FunctionDecl":
            if any(c.get("kind") == "CompoundStmt" for c in d.get("inner", ())): s.fns[d["name"]] = d
        elif k == "RecordDecl":
            if d.get("completeDefinition"):
                fs = []
                for c in d.get("inner", ()):
                    if c.get("kind") == "FieldDecl": fs.append((c["name"], c["type"])); s.fields_by_id[c["id"]] = c["name"]
                s.recid[d["id"]] = fs
                if d.get("name"): s.recs[d["name"]] = fs
        elif k == "TypedefDecl":
            s.tdef[d["name"]] = d["type"].get("desugaredQualType", d["type"]["qualType"])
            def find(x):
                if x.get("kind") in ("RecordType",) and "decl" in x: return x["decl"]["id"]
                if x.get("ownedTagDecl"): return x["ownedTagDecl"]["id"]
                for c in x.get("inner", ()):
                    r = find(c)
                    if r: return r
            r = find(d)
            if r and r in s.recid and d["name"] not in s.recs: s.recs[d["name"]] = s.recid[r]
        elif k == "EnumDecl":
            v = -1
            for c in d.get("inner", ()):
                if c.get("kind") != "EnumConstantDecl": continue
                x = const_value(c); v = v + 1 if x is None else x
                s.enum[c["id"]] = v; s.enum[c["name"]] = v
        elif k == "VarDecl": s.glob[d["id"]] = d
    def type(s, t):
        """type record or string -> T"""
        q = t if isinstance(t, str) else t.get("desugaredQualType", t["qualType"])
        return s.ptype(q)
    def ptype(s, q):
        q = re.sub(r"\b(const|volatile|restrict|struct|enum|__restrict)\b", " ", q); q = re.sub(r"\s+", " ", q).strip()
        m = re.match(r"^(.*)\[(\d+)\]$", q)
        if m: return T("arr", s.ptype(m[1]), int(m[2]))
        if "(" in q: return T("fn")
        if q.endswith("*"): return T("ptr", s.ptype(q[:-1]))
        if q in BV: return T("bv", None, BV[q])
        if q in ("_Bool", "bool"): return T("bool")
        if q in ("double", "float"): return T("dbl")
        if q == "void": return T("void")
        if q in INT: return T("int", q in UNS, INT[q])
        if q in s.recs: return T("rec", q)
        if q in s.tdef and s.tdef[q] != q: return s.ptype(s.tdef[q])
        return T("rec", q)
    def sizeof(s, t):
        if t.k == "int": return t.n
        if t.k == "bv": return t.n // 8
        if t.k == "bool": return 1
        if t.k in ("dbl", "ptr"): return 8
        if t.k == "arr": return t.n * s.sizeof(t.e)
        if t.k == "rec":
            o = 0; a = 1
            for _, ft in s.recs[t.e]:
                x = s.type(ft); z = s.sizeof(x); al = s.align(x); a = max(a, al); o = (o + al - 1) // al * al + z
            return (o + a - 1) // a * a
        raise KeyError(t.k)
    def align(s, t):
        if t.k == "rec": return max([s.align(s.type(f)) for _, f in s.recs[t.e]] + [1])
        if t.k == "arr": return s.align(t.e)
        return s.sizeof(t)
def const_value(d):
    if "value" in d and d.get("kind") in ("ConstantExpr", "IntegerLiteral"): return int(d["value"])
    for c in d.get("inner", ()):
        r = const_value(c)
        if r is not None: return r
def load(name):
    """TU by base name ('Activity.c')"""
    if name not in TU.cache:
        p = [x for x in pslp.sources() if os.path.basename(x) == name]
        if not p: raise KeyError(f"no source file {name}")
        TU.cache[name] = TU(p[0])
    return TU.cache[name]
_defs = None
def where(fn):
    """source file that defines an extern function"""
    global _defs
    if _defs is None:
        _defs = {}
        for p in pslp.sources():
            for m in re.finditer(r"^(?!static|#|\s)[\w \*]*?\b(\w+)\s*\([^;{]*?\)\s*\{", open(p, errors="replace").read(), re.M): _defs.setdefault(m[1], os.path.basename(p))
    return _defs.get(fn)
