#!/usr/bin/env python3
"""mut.py KEY... : developer tool. Mutates the functions under contract one token at a time and lists the mutants no obligation notices."""
import sys, os, re, subprocess, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); VT = "/opt/veriftools/pyvenv/bin/python"
RULES = [(r"(?<![<>=!+\-*/&|])>(?![>=])", [">=", "<"]), (r"(?<![<>\-=])<(?![<=])", ["<=", ">"]), (r">=", [">"]), (r"<=", ["<"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"(?<![+\-*/(,=<>|&] )(?<=[\w\])]) \+ (?=[\w(])", [" - "]), (r"(?<=[\w\])]) - (?=[\w(])", [" + "]), (r"(?<=[\w\])]) \* (?=[\w(])", [" / "]), (r"(?<=[\w\])]) / (?=[\w(])", [" * "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0"]), (r"(?<=[.>])lb\b", ["ub"]), (r"(?<=[.>])ub\b", ["lb"]), (r"\b(\w*)max\b", [r"\1min"]), (r"\b(\w*)min\b", [r"\1max"]), (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]),
    (r"LHS_INF", ["RHS_INF"]), (r"RHS_INF", ["LHS_INF"]), (r"LB_INF", ["UB_INF"]), (r"UB_INF", ["LB_INF"]), (r"(?<=[.>])up\b", ["down"]), (r"(?<=[.>])down\b", ["up"]), (r"!(?=[\w(])", [""]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]), (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"-(?=[a-z(])(?<=[=(,] -)", [""])]
def main():
    keys = [a for a in sys.argv[1:] if not a.startswith("--")]; cap = int(next((a[6:] for a in sys.argv if a.startswith("--cap=")), "60"))
    jobs = json.loads(subprocess.run([VT, "-c", f"""
import sys,json; sys.path.insert(0,{V+'/lib'!r}); import prove,spec,cast,pslp
prove.load_specs(); o=[]
for k,c in spec.REG.items():
    if c.o.get("assumed") is None and (k in {keys!r} or c.file in {keys!r} or any(p in {keys!r} for p in c.props)):
        tu=cast.load(c.file); f=tu.fns[c.name]; o.append((k,c.name,tu.path))
print(json.dumps(o))"""], capture_output=True, text=True).stdout.splitlines()[-1])
    todo = []
    for key, name, path in jobs:
        t = open(path).read(); m = re.search(rf"^[\w][^;{{}}()]*\b{name}\s*\([^;{{]*\)\s*\{{.*?^\}}", t, re.M | re.S)
        if not m: print("no text for", key); continue
        b0 = t.index("{", m.start()); body = t[b0:m.end()]; ms = []
        clean = re.sub(r"//[^\n]*|/\*.*?\*/|^\s*(assert|DEBUG|#)[^\n]*|#ifndef NDEBUG.*?#endif|assert\([^;]*;", lambda q: " " * len(q.group(0)), body, flags=re.M | re.S)
        for rx, reps in RULES:
            for q in re.finditer(rx, clean):
                for r in reps: ms.append((b0 + q.start(), b0 + q.end(), q.expand(r) if "\\" in r else r))
        for q in re.finditer(r"^\s+[\w\->\.\[\]]+(\s*[+\-]?=[^=;][^;]*|\+\+|--|\([^;{}]*\));\s*$", clean, re.M): ms.append((b0 + q.start(), b0 + q.end(), "\n;\n"))
        step = max(1, len(ms) / cap); ms = [ms[int(i * step)] for i in range(min(len(ms), cap))]
        for a, e, r in ms: todo.append((key, path, t, a, e, r))
    root = tempfile.mkdtemp(prefix="mut_")
    def run(j):
        i, (key, path, t, a, e, r) = j; d = f"{root}/{i}"; os.makedirs(d); shutil.copytree("/repo/src", d + "/src"); shutil.copytree("/repo/include", d + "/include")
        open(path.replace("/repo", d, 1), "w").write(t[:a] + r + t[e:])
        p = subprocess.run([VT, "-c", f"import sys; sys.path.insert(0,{V+'/lib'!r}); import prove,json; prove.load_specs(); print('R'+json.dumps(prove.one({key!r}, True, 3000)))"], env=dict(os.environ, PSLP_REPO=d), capture_output=True, text=True)
        shutil.rmtree(d)
        l = t.count("\n", 0, a) + 1; desc = f"{os.path.basename(path)}:{l}: {t[t.rfind(chr(10),0,a)+1:t.find(chr(10),e)].strip()[:90]!r} : {t[a:e].strip()!r} -> {r.strip()!r}"
        o = [x for x in p.stdout.splitlines() if x.startswith("R")]
        if not o: return key, "error", desc + p.stderr[-200:]
        o = json.loads(o[-1][1:])
        if o["error"] and "clang" in o["error"]: return key, "nocompile", desc
        bad = [x for x in o["obls"] if x["verdict"] != "proved"]
        if o["bmc"] and o["bmc"]["found"]: return key, "definite", desc
        if bad or o["error"] or o.get("vacuous"): return key, "undecided", desc + f"  [{(o['error'] or bad and bad[0]['name'] or 'vacuous')[:80]}; bmc {o['bmc'] and o['bmc']['error']}]"
        return key, "survived", desc
    cnt = {}
    with ThreadPoolExecutor(8) as ex:
        for key, v, desc in ex.map(run, enumerate(todo)):
            cnt.setdefault(key, {}); cnt[key][v] = cnt[key].get(v, 0) + 1
            if v in ("survived", "error") or (v == "undecided" and "--u" in sys.argv): print(v, key, desc, flush=True)
    shutil.rmtree(root)
    for k, c in cnt.items(): print(k, c)
main()
