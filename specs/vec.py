"""Growable lists (C25, C26): earlier elements keep value and order, exactly the new ones are added, no access outside the allocation."""
from spec import *
def wf(c, vec):
    if c.result is None: c.valid(vec, 1)
    n, cap, data = c.get(vec, "len"), c.get(vec, "capacity"), c.get(vec, "data")
    return n, cap, data
class Lst:
    """a growable list"""
    def __init__(s, c, v, st=None): s.c, s.v = c, v; s.n, s.cap, s.d = c.get(v, "len", st=st), c.get(v, "capacity", st=st), c.get(v, "data", st=st); s.a = c.arr(s.d, st=st)
    def wf(s): return And(0 <= s.n, s.n <= s.cap, s.cap >= 1)
    def grows(s, k=None, when=None):
        c = s.c; c.modifies(s.v, "len", when=when); c.modifies(s.v, "capacity", when=when); c.modifies(s.d, lo=s.n, hi=UP if k is None else s.n + k, when=when)
        if c.bmc: c.modifies_ptr(s.v, "data")
    def now(s, c=None): return Lst(c or s.c, s.v)
def vec_specs(file, V, elem):
    @contract(file, f"{V}_new", ["C25", "C26"], safe=True, callable=False)
    def _(c):
        cap, = c.args; c.requires(cap >= 1)
        yield
        n, k, data = wf(c, c.result)
        c.ensures("empty", n == 0); c.ensures("capacity as asked", And(k == cap, c.rlen(data) >= cap))
    @contract(file, f"{V}_append", ["C25", "C26"], safe=True)
    def _(c):
        vec, value = c.args; n, cap, data = wf(c, vec); old = c.arr(data)
        c.requires(And(0 <= n, n <= cap, cap >= 1), "well formed"); c.valid(data, cap)
        c.modifies(vec, "len"); c.modifies(vec, "capacity"); c.modifies(data, lo=n, hi=n + 1)
        if c.mode == "verify": c.modifies_ptr(vec, "data")
        yield
        n2, cap2, data2 = wf(c, vec); new = c.arr(data2)
        c.ensures("one element more", n2 == n + 1); c.ensures("new element last", new[n] == value)
        if c.mode == "verify": c.ensures("earlier elements kept", c.forall(0, n, lambda i: new[i] == old[i])); c.ensures("fits the allocation", And(n2 <= cap2, c.rlen(data2) >= cap2))
        else: c.ensures("fits the allocation", n2 <= cap2); c.grow(data2, cap2)
    @contract(file, f"{V}_append_array", ["C25", "C26"], safe=True)
    def _(c):
        vec, vals, k = c.args; n, cap, data = wf(c, vec); old = c.arr(data); src = c.arr(vals)
        c.requires(And(0 <= n, n <= cap, k >= 0), "well formed"); c.valid(data, cap); c.valid(vals, k)
        c.modifies(vec, "len"); c.modifies(vec, "capacity"); c.modifies(data, lo=n, hi=n + k)
        if c.mode == "verify": c.modifies_ptr(vec, "data")
        c.loop(0, lambda L: [("capacity positive", And(L["new_capacity"] >= 1, L["new_capacity"] >= cap))])
        yield
        n2, cap2, data2 = wf(c, vec); new = c.arr(data2)
        c.ensures("k elements more", n2 == n + k); c.ensures("new elements in order", c.forall(n, n + k, lambda i: new[i] == src[i - n]))
        if c.mode == "verify": c.ensures("earlier elements kept", c.forall(0, n, lambda i: new[i] == old[i])); c.ensures("fits the allocation", And(n2 <= cap2, c.rlen(data2) >= cap2))
        else: c.ensures("fits the allocation", n2 <= cap2); c.grow(data2, cap2)
    @contract(file, f"{V}_clear_no_resize", ["C25"])
    def _(c):
        vec, = c.args; c.modifies(vec, "len")
        yield
        c.ensures("empty", c.get(vec, "len") == 0)
    @contract(file, f"{V}_contains", ["C25", "C26"], safe=True)
    def _(c):
        vec, value = c.args; n, cap, data = wf(c, vec); a = c.arr(data); c.requires(And(0 <= n, n <= cap)); c.valid(data, cap)
        c.loop(0, lambda L: [("not seen yet", c.forall(0, L["i"], lambda j: a[j] != value))])
        yield
        c.ensures("says whether the value occurs", And(Or(c.result == 0, c.result == 1), (c.result == 1) == c.exists(0, n, lambda j: a[j] == value)))
vec_specs("Activity.c", "iVec", "int")
vec_specs("Postsolver.c", "dVec", "double")
vec_specs("Postsolver.c", "u16Vec", "unsigned short")
