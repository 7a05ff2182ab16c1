"""runs case.json (one problem, one settings record) through the library built from the current directory; exit 1 when the result is wrong"""
import os, sys, json, subprocess
D = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, D)
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"): os.environ[k] = "1"
d = json.load(open(D + "/case.json"))
import pslp, numpy as np
def so_hooked():
    o = os.path.join(pslp.scratch(), "hooks.o")
    subprocess.run(["gcc", "-std=c99", "-O1", "-fPIC", "-w", *pslp.PROD, *pslp.DEFS, *pslp.INC, "-c", D + "/hooks.c", "-o", o], check=True)
    return pslp.build("hooked", more=[o, *[f"-Wl,--wrap={w}" for w in pslp.WRAPS]])
def child():
    import bounded, props
    cfg = props.B[d["property"]]; lib = pslp.Lib(sys.argv[2]); lp = pslp.LP.from_json(d["problem"]); st = bounded.st_from(lib, d["settings"])
    rng = np.random.default_rng(7) if d.get("shrunk") else bounded.make_case(lib, cfg, d["seed"], d["index"])[3]
    keep = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    out, _ = bounded.judge(lib, cfg, lp, st, rng)
    os.write(keep, (("WRONG: " + "; ".join(out)) if out else "as expected").encode() + b"\n"); os._exit(1 if out else 0)
if len(sys.argv) > 2: child()
import props
env = dict(os.environ)
if d.get("asan"):
    so = pslp.build("asan", extra=["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"])
    env.update(LD_PRELOAD=subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip(), ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
elif any(getattr(o, "hooked", 0) for o in props.B[d["property"]]["oracles"]): so = so_hooked()
else: so = pslp.build()
p = subprocess.run([sys.executable, __file__, "child", so], env=env)
sys.exit(0 if p.returncode == 0 else 1)
