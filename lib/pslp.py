"""ctypes binding to PSLP built from /repo's current sources (production config)."""
import ctypes as C, os, subprocess, glob, hashlib, shutil, tempfile, atexit
import numpy as np
REPO = os.environ.get("PSLP_REPO", "/repo")
INC = [f"-I{REPO}/include/{d}" for d in ("core", "data_structures", "explorers", "PSLP")] + [f"-I{REPO}/include"]
DEFS = ["-D_POSIX_C_SOURCE=200809L", '-DPSLP_VERSION="x"']
PROD = ["-DNDEBUG"]
_tmp = None
def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="pslpv_")
        pid = os.getpid()
        def clean():
            if os.getpid() == pid: shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(clean)
    return _tmp
def sources():
    return sorted(glob.glob(f"{REPO}/src/*/*.c"))
def build(name="pslp", extra=(), cc="gcc", globalize=False, opt="-O1", more=()):
    """compile all sources -> shared object; returns path. Raises CalledProcessError on compile error."""
    d = os.path.join(scratch(), name); os.makedirs(d, exist_ok=True)
    objs = []; ps = []
    for s in sources():
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o"); objs.append(o)
        ps.append(subprocess.Popen([cc, "-std=c99", opt, "-g", "-fPIC", "-w", *PROD, *DEFS, *INC, *extra, "-c", s, "-o", o], stderr=subprocess.PIPE))
    for p in ps:
        err = p.communicate()[1]
        if p.returncode: raise RuntimeError("compile failed: " + err.decode()[:2000])
    so = os.path.join(d, f"lib{name}.so")
    subprocess.run([cc, "-shared", "-o", so, *objs, *more, *extra, "-lm", "-lpthread"], check=True, capture_output=True)
    return so
WRAPS = ("remove_ston_cols","remove_ston_rows","remove_empty_cols","simple_dual_fix","check_activities","remove_parallel_cols","remove_variables_with_close_bounds","remove_empty_rows","remove_parallel_rows","remove_dton_eq_rows","propagate_primal","problem_clean")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def build_hooked():
    """production build plus the runtime monitor; None when the monitor no longer fits the sources"""
    try:
        d = scratch(); o = os.path.join(d, "hooks.o")
        subprocess.run(["gcc", "-std=c99", "-O1", "-fPIC", "-w", *PROD, *DEFS, *INC, "-c", f"{HERE}/harness/hooks.c", "-o", o], check=True, capture_output=True)
        return build("hooked", more=[o, *[f"-Wl,--wrap={w}" for w in WRAPS]])
    except subprocess.CalledProcessError:
        return None
class Settings(C.Structure):
    _fields_ = [(k, C.c_bool) for k in ("ston_cols","dton_eq","parallel_rows","parallel_cols","primal_propagation","finite_bound_tightening","dual_fix","relax_bounds")] + [("max_shift", C.c_int), ("max_time", C.c_double), ("verbose", C.c_bool)]
class Reduced(C.Structure):
    _fields_ = [("Ax", C.POINTER(C.c_double)), ("Ai", C.POINTER(C.c_int)), ("Ap", C.POINTER(C.c_int)), ("m", C.c_size_t), ("n", C.c_size_t), ("nnz", C.c_size_t)] + [(k, C.POINTER(C.c_double)) for k in ("lhs","rhs","c","lbs","ubs")] + [("obj_offset", C.c_double)]
class Stats(C.Structure):
    _fields_ = [(k, C.c_size_t) for k in ("n_rows_original","n_cols_original","nnz_original","n_rows_reduced","n_cols_reduced","nnz_reduced","nnz_removed_trivial","nnz_removed_fast","nnz_removed_primal_propagation","nnz_removed_parallel_rows","nnz_removed_parallel_cols")] + [(k, C.c_double) for k in ("time_init","time_fast_reductions","time_medium_reductions","time_primal_propagation","time_parallel_rows","time_parallel_cols","time_presolve","time_postsolve")]
class Sol(C.Structure):
    _fields_ = [("x", C.POINTER(C.c_double)), ("y", C.POINTER(C.c_double)), ("z", C.POINTER(C.c_double)), ("dim_x", C.c_size_t), ("dim_y", C.c_size_t)]
class Presolver(C.Structure):
    _fields_ = [("stats", C.POINTER(Stats)), ("stgs", C.POINTER(Settings)), ("prob", C.c_void_p), ("reduced_prob", C.POINTER(Reduced)), ("sol", C.POINTER(Sol))]
FLAGS = ("ston_cols","dton_eq","parallel_rows","parallel_cols","primal_propagation","dual_fix","finite_bound_tightening","relax_bounds")
def dp(a): return a.ctypes.data_as(C.POINTER(C.c_double))
def ip(a): return a.ctypes.data_as(C.POINTER(C.c_int))
class Lib:
    def __init__(self, so):
        L = self.L = C.CDLL(so)
        L.default_settings.restype = C.POINTER(Settings)
        L.new_presolver.restype = C.POINTER(Presolver)
        D, I, Z = C.POINTER(C.c_double), C.POINTER(C.c_int), C.c_size_t
        L.new_presolver.argtypes = [D, I, I, Z, Z, Z, D, D, D, D, D, C.POINTER(Settings)]
        L.run_presolver.argtypes = [C.POINTER(Presolver)]; L.run_presolver.restype = C.c_uint8
        L.free_presolver.argtypes = [C.POINTER(Presolver)]; L.free_presolver.restype = None
        L.postsolve.argtypes = [C.POINTER(Presolver), D, D, D]; L.postsolve.restype = None
    def settings(self, **kw):
        p = self.L.default_settings(); s = Settings(); C.memmove(C.byref(s), p, C.sizeof(Settings)); self.L.free_settings(p)
        s.verbose = False
        for k, v in kw.items(): setattr(s, k, v)
        return s
class LP:
    """min c x, lhs<=Ax<=rhs, lb<=x<=ub ; CSR"""
    def __init__(s, Ax, Ai, Ap, lhs, rhs, lb, ub, c):
        f = lambda a: np.ascontiguousarray(a, dtype=np.float64); g = lambda a: np.ascontiguousarray(a, dtype=np.int32)
        s.Ax, s.Ai, s.Ap, s.lhs, s.rhs, s.lb, s.ub, s.c = f(Ax), g(Ai), g(Ap), f(lhs), f(rhs), f(lb), f(ub), f(c)
        s.m, s.n, s.nnz = len(s.lhs), len(s.c), len(s.Ax)
    def arrays(s): return [s.Ax, s.Ai, s.Ap, s.lhs, s.rhs, s.lb, s.ub, s.c]
    def dense(s):
        A = np.zeros((s.m, s.n))
        for i in range(s.m):
            A[i, s.Ai[s.Ap[i]:s.Ap[i+1]]] = s.Ax[s.Ap[i]:s.Ap[i+1]]
        return A
    @staticmethod
    def from_dense(A, lhs, rhs, lb, ub, c):
        Ax, Ai, Ap = [], [], [0]
        for r in A:
            nz = np.nonzero(r)[0]; Ai += list(nz); Ax += list(r[nz]); Ap.append(len(Ai))
        return LP(Ax, Ai, Ap, lhs, rhs, lb, ub, c)
    def to_json(s):
        return {k: [x if np.isfinite(x) else repr(float(x)) for x in map(float if k not in ("Ai", "Ap") else int, getattr(s, k))] for k in ("Ax","Ai","Ap","lhs","rhs","lb","ub","c")}
    @staticmethod
    def from_json(d):
        return LP(*[[float(x) for x in d[k]] for k in ("Ax","Ai","Ap","lhs","rhs","lb","ub","c")])
class Run:
    def __init__(s, lib, lp, stgs):
        s.lib, s.lp, s.stgs = lib, lp, stgs
        s.p = lib.L.new_presolver(dp(lp.Ax), ip(lp.Ai), ip(lp.Ap), lp.m, lp.n, lp.nnz, dp(lp.lhs), dp(lp.rhs), dp(lp.lb), dp(lp.ub), dp(lp.c), C.byref(stgs))
        s.status = None
    def run(s):
        s.status = lib_status = s.lib.L.run_presolver(s.p); return lib_status
    def reduced(s):
        r = s.p.contents.reduced_prob.contents
        g = lambda p, n: np.array([p[i] for i in range(n)]) if n else np.zeros(0)
        return LP(g(r.Ax, r.nnz), g(r.Ai, r.nnz), g(r.Ap, r.m + 1), g(r.lhs, r.m), g(r.rhs, r.m), g(r.lbs, r.n), g(r.ubs, r.n), g(r.c, r.n)), r.obj_offset
    def stats(s): return s.p.contents.stats.contents
    def post(s, x, y, z):
        f = lambda a: np.ascontiguousarray(a, dtype=np.float64) if len(a) else np.zeros(1)
        x, y, z = f(x), f(y), f(z)
        s.lib.L.postsolve(s.p, dp(x), dp(y), dp(z))
        o = s.p.contents.sol.contents
        g = lambda p, n: np.array([p[i] for i in range(n)]) if n else np.zeros(0)
        return g(o.x, o.dim_x), g(o.y, o.dim_y), g(o.z, o.dim_x)
    def free(s): s.lib.L.free_presolver(s.p)
