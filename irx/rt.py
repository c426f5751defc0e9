"""Environment model: C/C++ runtime, memory and system calls, context switch primitives, harness intrinsics.
Everything here is a stub; each is listed in DESIGN.md."""
import z3
from .val import *
from .load import Unsupported
from . import engine as E
from .engine import CTRL, PathEnd, Infeasible, Ctx, Exc, OFFM

TABLE = {}
OVERRIDE = set()
HEAP = ("malloc", "new", "newarr", "mmap", "exc", "memalign", "region", "winmap")

def intr(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d

def nop0(e, a, i): return 0

STD_BASES = {
    "_ZTISt9bad_alloc": ("_ZTISt9exception",),
    "_ZTISt20bad_array_new_length": ("_ZTISt9bad_alloc", "_ZTISt9exception"),
    "_ZTISt13runtime_error": ("_ZTISt9exception",),
    "_ZTISt11logic_error": ("_ZTISt9exception",),
    "_ZTISt16invalid_argument": ("_ZTISt11logic_error", "_ZTISt9exception"),
    "_ZTISt12length_error": ("_ZTISt11logic_error", "_ZTISt9exception"),
    "_ZTISt12out_of_range": ("_ZTISt11logic_error", "_ZTISt9exception"),
    "_ZTISt12system_error": ("_ZTISt13runtime_error", "_ZTISt9exception"),
    "_ZTISt17bad_function_call": ("_ZTISt9exception",),
    "_ZTISt8bad_cast": ("_ZTISt9exception",),
    "_ZTISt18bad_variant_access": ("_ZTISt9exception",),
}

def lookup(name):
    """prefix-matched intrinsics"""
    if name in TABLE: return TABLE[name]
    if name.startswith("llvm."):
        for p, f in LLVM:
            if name.startswith(p): return f
    for p, f in PREFIX:
        if name.startswith(p): return f
    return None

# ---------------------------------------------------------------- llvm intrinsics
LLVM = []
def llvm(p):
    def d(f): LLVM.append((p, f)); return f
    return d
for p in ("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.prefetch", "llvm.invariant", "llvm.var.annotation", "llvm.donothing"):
    LLVM.append((p, nop0))

@llvm("llvm.assume")
def _(e, a, i): return 0
@llvm("llvm.memcpy")
def _(e, a, i): e.memcpy(a[0], a[1], a[2]); return 0
@llvm("llvm.memmove")
def _(e, a, i): e.memcpy(a[0], a[1], a[2]); return 0
@llvm("llvm.memset")
def _(e, a, i): e.memset(a[0], a[1], a[2]); return 0
@llvm("llvm.threadlocal.address")
def _(e, a, i): return e.tls_obj(a[0]).base
@llvm("llvm.eh.typeid.for")
def _(e, a, i): return e.typeid_for(a[0])
@llvm("llvm.trap")
def _(e, a, i): e.fail("trap", "trap instruction reached")
@llvm("llvm.expect")
def _(e, a, i): return a[0]
@llvm("llvm.launder")
def _(e, a, i): return a[0]
@llvm("llvm.strip")
def _(e, a, i): return a[0]
@llvm("llvm.is.constant")
def _(e, a, i): return 0
@llvm("llvm.frameaddress")
def _(e, a, i): return 0
@llvm("llvm.returnaddress")
def _(e, a, i): return 0
@llvm("llvm.stacksave")
def _(e, a, i): return 0
@llvm("llvm.stackrestore")
def _(e, a, i): return 0
def _ovf(op):
    def f(e, a, i):
        w = i[7][1][0][1][1]
        r = binop(op, a[0], a[1], w)
        if type(a[0]) is int and type(a[1]) is int:
            x, y = a[0], a[1]
            full = x + y if op == 8 else x - y if op == 10 else x * y
            return (r, int(not 0 <= full < (1 << w)))
        x = z(a[0], w); y = z(a[1], w)
        if op == 8: o = z3.Not(z3.BVAddNoOverflow(x, y, False))
        elif op == 10: o = z3.ULT(x, y)
        else: o = z3.Not(z3.BVMulNoOverflow(x, y, False))
        return (r, fromz(z3.simplify(o), 1))
    return f
LLVM += [("llvm.uadd.with.overflow", _ovf(8)), ("llvm.usub.with.overflow", _ovf(10)), ("llvm.umul.with.overflow", _ovf(12))]
def _mm(p):
    def f(e, a, i):
        w = i[7][1]
        c = icmp(p, a[0], a[1], w)
        if type(c) is not int: c = int(e.decide(c))
        return a[0] if c else a[1]
    return f
def _clz(low):
    def f(e, a, i):
        w = i[7][1]; x = a[0]
        if type(x) is int:
            if x == 0: return w
            return (x & -x).bit_length() - 1 if low else w - x.bit_length()
        r = z3.BitVecVal(w, w); v = z(x, w)
        for k in (range(w - 1, -1, -1) if low else range(w)):
            r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(k if low else w - 1 - k, w), r)
        return fromz(z3.simplify(r), w)
    return f
LLVM += [("llvm.ctlz", _clz(False)), ("llvm.cttz", _clz(True))]
@llvm("llvm.ctpop")
def _(e, a, i):
    w = i[7][1]; x = a[0]
    if type(x) is int: return bin(x).count("1")
    v = z(x, w)
    return fromz(z3.simplify(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(k, k, v)) for k in range(w)])), w)
from . import fp
def _rnd(mode):
    return lambda e, a, i: fp.rounded(mode, a[0], i[7][1])
for _n, _m in (("ceil", "ceil"), ("floor", "floor"), ("trunc", "trunc"), ("round", "round"), ("rint", "rint"), ("nearbyint", "rint")):
    LLVM.append(("llvm.%s.f" % _n, _rnd(_m)))
    TABLE[_n] = TABLE[_n + "f"] = _rnd(_m)
LLVM += [("llvm.umax", _mm(34)), ("llvm.umin", _mm(36)), ("llvm.smax", _mm(38)), ("llvm.smin", _mm(40))]

PREFIX = []

# ---------------------------------------------------------------- terminate / exit
def terminate(e, why):
    e.events.append(("terminate", 0))
    if e.expect_term:
        e.covers.add("terminate")
        raise PathEnd("terminate")
    e.fail("terminate", "std::terminate: " + why)

@intr("_ZSt9terminatev")
def _(e, a, i): terminate(e, "called")
@intr("abort")
def _(e, a, i):
    if e.expect_term:
        raise PathEnd("terminate")
    e.fail("abort", "abort() called")
@intr("__assert_fail")
def _(e, a, i): e.fail("assert", "assertion failed: " + cstr(e, a[0]))
@intr("_ZN5boost16assertion_failedEPKcS1_S1_l", "_ZN5boost20assertion_failed_msgEPKcS1_S1_S1_l")
def _(e, a, i): e.fail("assert", "assertion failed: " + cstr(e, a[0]))
@intr("__cxa_pure_virtual")
def _(e, a, i): e.fail("memory", "pure virtual call")
@intr("_exit", "quick_exit")
def _(e, a, i):
    raise PathEnd("exit")
@intr("exit")
def _(e, a, i):
    e.run_exit(e.tid); return CTRL

def cstr(e, p):
    out = bytearray()
    try:
        while len(out) < 200:
            c = e.ld(p, 1)
            if type(c) is not int or c == 0: break
            out.append(c); p = binop(8, p, 1, 64)
    except E.Violation:
        pass
    return out.decode("latin1")

# ---------------------------------------------------------------- faults
def fault(e, bit, name):
    if not (e.faults & bit) or e.fault_budget <= 0: return False
    v = e.input("fault_" + name, 1)
    if e.decide(v):
        e.fault_budget -= 1
        e.state["faulted"] = e.state.get("faulted", 0) + 1
        e.events.append(("fault-" + name, 0))
        return True
    return False

@intr("vp_faults")
def _(e, a, i): return e.state.get("faulted", 0)
F_MALLOC, F_NEW, F_MMAP, F_MPROTECT, F_GETCONTEXT, F_SPLIT, F_WIN, F_USER = 1, 2, 4, 8, 16, 32, 64, 128

def ti_addr(e, name):
    g = e.mod.globals.get(name)
    if g: return g.addr
    s = e.state.setdefault("synti", {})
    if name not in s:
        s[name] = (0x7000 + len(s)) << 32
        class T: pass
    return s[name]

def std_vtable(e):
    """the table of virtual functions of a standard exception: calling one is not modelled"""
    o = e.state.get("stdvt")
    if o is None:
        o = e.new_obj(64, "global", "vtable of a standard exception"); o.info = "external"; e.state["stdvt"] = o
    return binop(8, o.base, 16, 64)
def throw_std(e, tiname, size=16):
    o = e.new_obj(size, "exc", tiname)
    o.zero = True
    e.st(o.base, 8, std_vtable(e))
    x = Exc(o.base); x.ti = ti_addr(e, tiname)
    if x.ti >> 32 >= 0x7000:
        e.state.setdefault("synti_r", {})[x.ti] = tiname
    e.exc[o.base] = x
    e.uncaught[e.tid] = e.uncaught.get(e.tid, 0) + 1
    return e.throw(x)

_tb = E.Engine.ti_bases
def ti_bases(self, ti, seen=None):
    n = self.state.get("synti_r", {}).get(ti)
    if n:
        return {self.mod.globals[b].addr for b in STD_BASES.get(n, ()) if b in self.mod.globals}
    return _tb(self, ti)
E.Engine.ti_bases = ti_bases

# ---------------------------------------------------------------- heap
def big_sym(e, size):
    return e.state.get("symheap") and (type(size) is not int or size >= e.state["symheap"])

def heap_alloc(e, size, kind, name):
    size = lin(size) if type(size) is not int else size
    if type(size) is int and not big_sym(e, size):
        if size > E.MAXSIZE: return None
        return e.alloc(size, kind, name)
    if not e.decide(z3.ULE(z(size, 64), E.MAXSIZE)):
        return None
    o = e.new_sym_obj(size, kind, name, 4096 if kind == "mmap" else 16)
    return o

@intr("malloc")
def _(e, a, i):
    if fault(e, F_MALLOC, "malloc"): return 0
    o = heap_alloc(e, a[0], "malloc", "malloc")
    log_alloc(e, "malloc", a[0], o)
    return o.base if o else 0
def log_alloc(e, k, size, o):
    e.state.setdefault("allocs", []).append((k, size, o))
@intr("calloc")
def _(e, a, i):
    if fault(e, F_MALLOC, "malloc"): return 0
    n = binop(12, a[0], a[1], 64)
    o = heap_alloc(e, n, "malloc", "calloc")
    if o is None: return 0
    o.zero = True
    return o.base
@intr("free")
def _(e, a, i):
    e.free(a[0], ("malloc", "memalign"), "free"); return 0
@intr("posix_memalign")
def _(e, a, i):
    if fault(e, F_MALLOC, "malloc"): return 12
    o = heap_alloc(e, a[2], "memalign", "posix_memalign")
    if o is None: return 12
    e.st(a[0], 8, o.base)
    return 0
@intr("realloc")
def _(e, a, i):
    if a[0] == 0: return TABLE["malloc"](e, [a[1]], i)
    o = e.obj_at_base(a[0])
    if o is None or not o.alive or o.kind not in ("malloc", "memalign"): e.fail("memory", "realloc of something malloc did not return")
    if fault(e, F_MALLOC, "malloc"): return 0
    n = heap_alloc(e, a[1], "malloc", "realloc")
    if n is None: return 0
    if type(o.size) is not int or type(a[1]) is not int: raise Unsupported("realloc with a symbolic size")
    e.memcpy(n.base, a[0], min(o.size, a[1])); e.free(a[0], ("malloc", "memalign"), "realloc")
    return n.base
for n in ("madvise", "posix_madvise", "sched_yield", "getenv", "puts", "printf", "fprintf", "fputs", "fputc", "putchar", "fflush", "perror", "mlock", "munlock", "pthread_attr_init", "pthread_attr_destroy"):
    TABLE[n] = nop0
@intr("pthread_self")
def _(e, a, i): return 0x7E0000000000 + 0x1000 * (e.tid + 1)
@intr("pthread_equal")
def _(e, a, i): return int(e.concretize(a[0], 64) == e.concretize(a[1], 64))
@intr("pthread_key_create")
def _(e, a, i):
    k = e.state["tsdn"] = e.state.get("tsdn", 0) + 1
    if a[1] != 0: raise Unsupported("pthread_key_create with a destructor")
    e.st(a[0], 4, k); return 0
@intr("pthread_key_delete")
def _(e, a, i): return 0
@intr("pthread_setspecific")
def _(e, a, i): e.state.setdefault("tsd", {})[(e.tid, a[0])] = a[1]; return 0
@intr("pthread_getspecific")
def _(e, a, i): return e.state.get("tsd", {}).get((e.tid, a[0]), 0)
@intr("aligned_alloc")
def _(e, a, i):
    if fault(e, F_MALLOC, "malloc"): return 0
    o = heap_alloc(e, a[1], "memalign", "aligned_alloc")
    return o.base if o else 0
def _new(kind, throwing):
    def f(e, a, i):
        if fault(e, F_NEW, "new"):
            return throw_std(e, "_ZTISt9bad_alloc") if throwing else 0
        o = heap_alloc(e, a[0], kind, "new")
        if o is None:
            return throw_std(e, "_ZTISt9bad_alloc") if throwing else 0
        log_alloc(e, "new", a[0], o)
        return o.base
    return f
for n in ("_Znwm", "_ZnwmSt11align_val_t"): TABLE[n] = _new("new", True)
for n in ("_Znam", "_ZnamSt11align_val_t"): TABLE[n] = _new("newarr", True)
for n in ("_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"): TABLE[n] = _new("new", False)
for n in ("_ZnamRKSt9nothrow_t",): TABLE[n] = _new("newarr", False)
@intr("_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t")
def _(e, a, i):
    e.free(a[0], ("new",), "operator delete"); return 0
@intr("_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t")
def _(e, a, i):
    e.free(a[0], ("newarr",), "operator delete[]"); return 0

@intr("memcpy", "memmove")
def _(e, a, i): e.memcpy(a[0], a[1], a[2]); return a[0]
@intr("memset")
def _(e, a, i): e.memset(a[0], trunc(a[1], 32, 8), a[2]); return a[0]
@intr("strlen")
def _(e, a, i):
    n = 0
    while e.concretize(e.ld(binop(8, a[0], n, 64), 1), 8) != 0: n += 1
    return n
def _cmp(text):
    def f(e, a, i):
        n = e.concretize(a[2], 64) if len(a) > 2 else 1 << 20
        for k in range(n):
            x = e.concretize(e.ld(binop(8, a[0], k, 64), 1), 8); y = e.concretize(e.ld(binop(8, a[1], k, 64), 1), 8)
            if x != y: return (x - y) & 0xffffffff
            if text and x == 0: return 0
        return 0
    return f
for _n in ("memcmp", "bcmp"): TABLE[_n] = _cmp(False)
for _n in ("strcmp", "strncmp"): TABLE[_n] = _cmp(True)
@intr("memchr", "strchr")
def _(e, a, i):
    n = e.concretize(a[2], 64) if len(a) > 2 else 1 << 20
    c = e.concretize(a[1], 32) & 255
    for k in range(n):
        p = binop(8, a[0], k, 64); x = e.concretize(e.ld(p, 1), 8)
        if x == c: return p
        if len(a) == 2 and x == 0: return 0
    return 0
@intr("_ZNSt8__detail15_List_node_base7_M_hookEPS0_")
def _(e, a, i):
    n, p = a; q = e.ld(binop(8, p, 8, 64), 8)
    e.st(n, 8, p); e.st(binop(8, n, 8, 64), 8, q); e.st(q, 8, n); e.st(binop(8, p, 8, 64), 8, n)
    return 0
@intr("_ZNSt8__detail15_List_node_base9_M_unhookEv")
def _(e, a, i):
    n = e.ld(a[0], 8); p = e.ld(binop(8, a[0], 8, 64), 8)
    e.st(p, 8, n); e.st(binop(8, n, 8, 64), 8, p)
    return 0
@intr("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_")
def _(e, a, i):
    s, f, l = a
    if s is l or (type(s) is int and s == l): return 0
    P = lambda x: binop(8, x, 8, 64)
    lp = e.ld(P(l), 8); fp_ = e.ld(P(f), 8); sp = e.ld(P(s), 8)
    e.st(lp, 8, s); e.st(fp_, 8, l); e.st(sp, 8, f)
    e.st(P(s), 8, lp); e.st(P(l), 8, fp_); e.st(P(f), 8, sp)
    return 0
@intr("__dynamic_cast")
def _(e, a, i):
    vp = e.ld(a[0], 8)
    if type(vp) is not int: raise Unsupported("dynamic_cast of a symbolic object")
    ti = e.ld(vp - 8, 8); top = e.ld(vp - 16, 8)
    t = ti
    while True:
        if t == a[2]: return binop(8, a[0], top, 64)
        b = e.ti_bases(t)
        if not b: return 0
        G = e.mod.by_addr.get(t)
        d = [v for off, sz, v in G.init if off >= 16 and off % 8 == 0]
        if G.decl or len(d) != 1: raise Unsupported("dynamic_cast with several bases")
        t = d[0]
    return 0
@intr("__errno_location", "_errno")
def _(e, a, i):
    o = e.errno.get(e.tid)
    if o is None:
        o = e.new_obj(4, "tls", "errno"); o.zero = True; e.errno[e.tid] = o
    return o.base

# ---------------------------------------------------------------- system
@intr("sysconf")
def _(e, a, i):
    e.state["sysconf_calls"] = e.state.get("sysconf_calls", 0) + 1
    n = a[0]
    if n == 30:                       # _SC_PAGESIZE
        if e.pagesize is None: return 4096
        return e.pagesize
    if n in (249, 250):                     # _SC_MINSIGSTKSZ / SIGSTKSZ
        v = e.state.get("minsig")
        if v is not None: return v
        return 2048 if n == 249 else 8192
    raise Unsupported("sysconf %s" % n)
@intr("getpagesize")
def _(e, a, i): return 4096 if e.pagesize is None else trunc(e.pagesize, 64, 32)
@intr("getrlimit", "getrlimit64")
def _(e, a, i):
    if e.rlim is None:
        cur, mx = 8 << 20, M64
    else:
        cur, mx = e.rlim
    if a[0] != 3:
        o = e.state.get("rlim_other", (7 << 20, 9 << 20)); cur, mx = o
    e.st(a[1], 8, cur); e.st(binop(8, a[1], 8, 64), 8, mx)
    return 0

def page(e):
    return 4096 if e.pagesize is None else e.pagesize

@intr("mmap", "mmap64")
def _(e, a, i):
    addr, ln, prot, flags, fd, off = a
    if flags & 0x10:                  # MAP_FIXED over an existing block
        o = e.obj_at_base(addr)
        if o is None: raise Unsupported("MAP_FIXED elsewhere")
        ps = z(page(e), 64); n = z(lin(ln), 64)
        # whole pages are replaced, whatever lies in them
        up = (n + ps - 1) & ~(ps - 1)
        bad = z3.Or(z3.ULT(up, n), z3.UGT(up, z(o.size, 64)))
        if e.check(bad) == z3.sat: e.fail("mmap", "MAP_FIXED replaces pages that hold more than the block", e.solver.model())
        e.add(z3.Not(bad))
        if fault(e, F_MMAP, "mmap"): return M64
        return addr
    if fault(e, F_MMAP, "mmap"): return M64
    ln = lin(ln)
    if e.decide(icmp(32, ln, 0, 64)): return M64
    o = heap_alloc(e, ln, "mmap", "mmap")
    if o is None: return M64
    if o.sym and e.pagesize is not None and e.pagesize != 4096:
        e.add(o.base.z() & (z(e.pagesize, 64) - 1) == 0)
    o.zero = True
    o.info = {"prot": prot, "guards": [], "len": ln}
    e.state.setdefault("maps", []).append(o)
    return o.base

@intr("munmap")
def _(e, a, i):
    o = e.obj_at_base(a[0])
    if o is None or o.kind != "mmap":
        e.fail("munmap", "munmap of an address that is not the start of a mapping")
    if not o.alive:
        e.fail("munmap", "munmap of a mapping already unmapped")
    ps = page(e)
    # the kernel rounds the length up to pages
    def up(v): return binop(23, binop(8, lin(v), binop(10, ps, 1, 64), 64), binop(25, binop(10, ps, 1, 64), M64, 64), 64)
    if not e.valid(z(up(a[1]), 64) == z(up(o.info["len"]), 64)):
        e.check(z(up(a[1]), 64) != z(up(o.info["len"]), 64))
        e.fail("munmap", "munmap does not cover exactly the mapping", e.solver.model())
    if o.info.get("shadow") and e.cur.ssp is o: e.fail("shadow-stack", "the running context's shadow stack is unmapped")
    e.release(o)
    return 0

@intr("mprotect")
def _(e, a, i):
    addr, ln, prot = a
    if fault(e, F_MPROTECT, "mprotect"): return 0xffffffff
    ps = z(page(e), 64)
    az = z(lin(addr), 64)
    o = e.sobj_of(lin(addr)) if type(lin(addr)) is not int else e.find(lin(addr))
    if o is None or o.kind != "mmap":
        e.fail("mprotect", "mprotect outside a mapping")
    if not o.alive: e.fail("use-after-free", "mprotect of an unmapped region")
    c = z3.And(az & (ps - 1) == 0, z3.UGE(az, z(o.base, 64)), z3.ULE(az + z(ln, 64), z(o.base, 64) + z(o.size, 64)))
    if not e.valid(c):
        e.check(z3.Not(c)); e.fail("mprotect", "mprotect range not page aligned or outside the mapping", e.solver.model())
    o.info["guards"].append((lin(addr), lin(ln), prot))
    return 0

# harness queries about mappings
@intr("vp_map_count")
def _(e, a, i): return sum(1 for o in e.state.get("maps", ()) if o.alive)
def _lastmap(e):
    l = [o for o in e.state.get("maps", ()) if o.alive]
    if not l: e.fail("assert", "no live mapping")
    return l[-1]
@intr("vp_map_base")
def _(e, a, i): return _lastmap(e).base
@intr("vp_map_len")
def _(e, a, i): return _lastmap(e).info["len"]
@intr("vp_map_prot")
def _(e, a, i): return _lastmap(e).info["prot"] & 0xffffffff
@intr("vp_map_guards")
def _(e, a, i): return len(_lastmap(e).info["guards"])
@intr("vp_guard_lo")
def _(e, a, i): return _lastmap(e).info["guards"][-1][0]
@intr("vp_guard_len")
def _(e, a, i): return _lastmap(e).info["guards"][-1][1]
@intr("vp_guard_prot")
def _(e, a, i): return _lastmap(e).info["guards"][-1][2] & 0xffffffff

# ---------------------------------------------------------------- C++ ABI
@intr("__cxa_allocate_exception")
def _(e, a, i):
    o = e.new_obj(e.concretize(a[0], 64), "exc", "exception")
    e.exc[o.base] = Exc(o.base)
    return o.base
@intr("__cxa_free_exception")
def _(e, a, i):
    x = e.exc.get(a[0])
    if x is None: e.fail("exception", "freeing unknown exception")
    x.freed = True
    e.release(e.find(a[0]))
    return 0
@intr("__cxa_throw")
def _(e, a, i):
    x = e.exc[a[0]]; x.ti = a[1]; x.dtor = a[2]
    e.uncaught[e.tid] = e.uncaught.get(e.tid, 0) + 1
    return e.throw(x)
@intr("__cxa_get_exception_ptr")
def _(e, a, i): return a[0]
@intr("__cxa_begin_catch")
def _(e, a, i):
    x = e.exc.get(a[0])
    if x is None: e.fail("exception", "catching unknown exception")
    st = e.caught.setdefault(e.tid, [])
    if x.handlers < 0: x.handlers = -x.handlers + 1
    else: x.handlers += 1
    e.uncaught[e.tid] = e.uncaught.get(e.tid, 0) - 1
    if not st or st[-1] is not x: st.append(x)
    return x.addr
def drop_exc(e, x, k):
    """release one reference of an exception object; k() afterwards"""
    x.refs -= 1
    if x.refs > 0: return k()
    def fin(v=0):
        x.freed = True
        e.release(e.find(x.addr))
        return k()
    if x.dtor:
        F = e.mod.by_addr.get(x.dtor)
        if F is not None and not F.decl:
            e.push(F, [x.addr], fin)
            return CTRL
    return fin()
@intr("__cxa_end_catch")
def _(e, a, i):
    st = e.caught.setdefault(e.tid, [])
    if not st: return 0
    x = st[-1]
    fr = e.cur.frames[-1]
    if x.handlers < 0:
        x.handlers += 1
        if x.handlers == 0: st.pop()
        return 0
    x.handlers -= 1
    if x.handlers == 0:
        st.pop()
        def k():
            e.done_call(fr, i, 0); return CTRL
        drop_exc(e, x, k)
        return CTRL
    return 0
@intr("__cxa_rethrow")
def _(e, a, i):
    st = e.caught.setdefault(e.tid, [])
    if not st: terminate(e, "rethrow without exception")
    x = st[-1]
    x.handlers = -x.handlers
    e.uncaught[e.tid] = e.uncaught.get(e.tid, 0) + 1
    return e.throw(x)
@intr("_ZSt19uncaught_exceptionsv")
def _(e, a, i): return e.uncaught.get(e.tid, 0) & 0xffffffff
@intr("_ZSt18uncaught_exceptionv")
def _(e, a, i): return int(e.uncaught.get(e.tid, 0) > 0)
@intr("_ZSt17current_exceptionv")
def _(e, a, i):
    st = e.caught.setdefault(e.tid, [])
    x = st[-1] if st else None
    if x: x.refs += 1
    e.st(a[0], 8, x.addr if x else 0)
    return 0
@intr("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")
def _(e, a, i):
    p = e.ld(a[0], 8)
    x = e.exc[p]; x.refs += 1
    e.uncaught[e.tid] = e.uncaught.get(e.tid, 0) + 1
    return e.throw(x)
@intr("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv")
def _(e, a, i):
    p = e.ld(a[0], 8)
    if p: e.exc[p].refs += 1
    return 0
@intr("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv")
def _(e, a, i):
    p = e.ld(a[0], 8)
    e.st(a[0], 8, 0)
    if not p: return 0
    fr = e.cur.frames[-1]
    def k():
        e.done_call(fr, i, 0); return CTRL
    drop_exc(e, e.exc[p], k)
    return CTRL
@intr("__cxa_guard_acquire")
def _(e, a, i):
    b = e.ld(a[0], 1); p = e.par
    if p is not None:
        g = e.state.setdefault("guards", {}); me = p.i
        if g.get(a[0]) == 1 - me:                                     # the other thread is initialising: wait for it
            if p.over[1 - me]: e.fail("thread", "an initialisation never ends")
            e.cur.frames[-1].ii -= 1; p.to(1 - me); return CTRL
        p.guard(a[0])
        if not b & 1: g[a[0]] = me
    return 0 if b & 1 else 1
@intr("__cxa_guard_release")
def _(e, a, i):
    e.st(a[0], 1, 1)
    if e.par is not None: e.par.guard(a[0]); e.state["guards"].pop(a[0], None)
    return 0
@intr("__cxa_guard_abort")
def _(e, a, i):
    if e.par is not None: e.par.guard(a[0]); e.state["guards"].pop(a[0], None)
    return 0
# mutexes and one-time initialisation a rewritten version of the code may use
@intr("pthread_mutex_lock")
def _(e, a, i):
    g = e.state.setdefault("mutexes", {}); p = e.par
    if p is not None:
        me = p.i; fr = e.cur.frames[-1]
        if p.skip[me]: p.skip[me] = False
        elif p.budget > 0 and not p.over[1 - me] and e.pick(2, "switch"):
            p.budget -= 1; p.skip[me] = True; fr.ii -= 1; p.to(1 - me); return CTRL
        if a[0] in g:
            if g[a[0]] == e.tid or p.over[1 - me]: e.fail("thread", "a mutex is never unlocked")
            fr.ii -= 1; p.to(1 - me); return CTRL
        p.guard(a[0])
    elif a[0] in g: e.fail("thread", "a mutex is locked twice")
    g[a[0]] = e.tid
    return 0
@intr("pthread_mutex_unlock")
def _(e, a, i):
    g = e.state.setdefault("mutexes", {})
    if g.get(a[0]) != e.tid: e.fail("thread", "a thread unlocks a mutex it does not hold")
    if e.par is not None: e.par.guard(a[0])
    del g[a[0]]
    return 0
@intr("pthread_mutex_trylock")
def _(e, a, i):
    if a[0] in e.state.get("mutexes", {}): return 16
    return TABLE["pthread_mutex_lock"](e, a, i)
@intr("pthread_mutex_init", "pthread_mutex_destroy")
def _(e, a, i): return 0
@intr("pthread_once")
def _(e, a, i):
    b = e.ld(a[0], 4)
    if e.par is not None:
        if b == 1:
            if e.par.over[1 - e.par.i]: e.fail("thread", "an initialisation never ends")
            e.cur.frames[-1].ii -= 1; e.par.to(1 - e.par.i); return CTRL
        e.par.guard(a[0])
    if b == 2: return 0
    e.st(a[0], 4, 1); fr = e.cur.frames[-1]
    def done(v=0):
        e.st(a[0], 4, 2)
        if e.par is not None: e.par.guard(a[0])
        e.done_call(fr, i, 0)
    e.push(e.fn_at(a[1]), [], done)
    return CTRL
@intr("__cxa_atexit", "atexit")
def _(e, a, i):
    e.atexit.setdefault("process", []).append((a[0], a[1] if len(a) > 1 else 0)); return 0
@intr("__cxa_thread_atexit", "__cxa_thread_atexit_impl")
def _(e, a, i):
    e.atexit.setdefault(e.tid, []).append((a[0], a[1])); return 0
@intr("__gxx_personality_v0")
def _(e, a, i): raise Unsupported("personality")
for n in ("_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev", "_ZNSt12system_errorD1Ev", "_ZNSt12system_errorD2Ev",
          "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev",
          "_ZNSt13runtime_errorC2EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt13runtime_errorC2ERKS_", "_ZNSt12system_errorC2ERKS_"):
    TABLE[n] = nop0
@intr("_ZNSt13runtime_errorC1EPKc", "_ZNSt11logic_errorC1EPKc")
def _(e, a, i): e.st(a[0], 8, std_vtable(e)); return 0
@intr("_ZNSt12system_errorC2ESt10error_codePKc", "_ZNSt12system_errorC1ESt10error_codePKc")
def _(e, a, i):
    e.st(binop(8, a[0], 16, 64), 4, trunc(a[1], 64, 32) if not isinstance(a[1], int) or a[1] >> 32 else a[1] & 0xffffffff)
    e.st(binop(8, a[0], 24, 64), 8, a[2])
    return 0
@intr("_ZNSt3_V215system_categoryEv", "_ZNSt3_V216generic_categoryEv")
def _(e, a, i):
    o = e.state.get("syscat")
    if o is None:
        o = e.new_obj(64, "global", "category"); o.zero = True; e.state["syscat"] = o
    return o.base
for nm, ti in (("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"), ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"),
               ("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"), ("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"),
               ("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"), ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"),
               ("_ZSt20__throw_system_errori", "_ZTISt12system_error"), ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range")):
    TABLE[nm] = (lambda t: lambda e, a, i: throw_std(e, t, 32))(ti)

# iostream: only what operator<< of the handles can reach
@intr("_ZNSo9_M_insertIPKvEERSoT_", "_ZNSolsEPKv")
def _(e, a, i):
    v = a[1]
    e.state.setdefault("out", []).append(("ptr", v))
    return a[0]
@intr("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
def _(e, a, i):
    e.state.setdefault("out", []).append(("str", cstr(e, a[1])))
    return a[0]
@intr("vp_out_count")
def _(e, a, i): return len(e.state.get("out", ()))
@intr("vp_out_is_text")
def _(e, a, i):
    o = e.state.get("out", [("none", 0)])[-1]
    return int(o[0] == "str" and o[1] == cstr(e, a[0]))
@intr("vp_out_is_ptr")
def _(e, a, i):
    return int(e.state.get("out", [("none", 0)])[-1][0] == "ptr")
@intr("vp_out_value")
def _(e, a, i):
    return e.state["out"][-1][1]

# ---------------------------------------------------------------- contexts: stack ranges
def stack_range(e, lo, hi, cx, minsize=256):
    lo = lin(lo); hi = lin(hi)
    if type(lo) is int and type(hi) is int:
        o = e.find(lo)
        if o is None or not o.alive or lo < o.base or hi > o.base + o.size or hi < lo:
            e.fail("stack-bounds", "stack of the new context [%x,%x) is not inside live memory" % (lo, hi))
        if hi - lo < minsize:
            e.fail("stack-bounds", "stack of the new context has only %d bytes" % (hi - lo))
    else:
        o = None
        if type(lo) is not int:
            o = e.sobj_of(lo)
        if o is None and type(hi) is not int:
            # maybe lo only sometimes falls below; name the object by hi
            o = e.sobj_of(hi)
        if o is None:
            e.fail("stack-bounds", "stack of the new context is not always inside one memory block")
        if not o.alive: e.fail("use-after-free", "stack of the new context is in released memory")
        L = z(lo, 64); H = z(hi, 64); B = z(o.base, 64); S = B + z(o.size, 64)
        c = z3.And(z3.UGE(L, B), z3.ULE(H, S), z3.ULE(L, H))
        if not e.valid(c):
            e.check(z3.Not(c)); e.fail("stack-bounds", "stack of the new context can fall outside the allocated memory", e.solver.model())
        c = z3.UGE(H - L, minsize)
        if not e.valid(c):
            e.check(z3.Not(c)); e.fail("stack-bounds", "stack of the new context can be too small", e.solver.model())
    for rl, rh, c2 in list(o.ranges or ()):
        if c2.state == "dead":
            o.ranges.remove((rl, rh, c2)); continue
        if type(rl) is int and type(lo) is int:
            dis = hi <= rl or lo >= rh
        else:
            dis = e.decide(z3.Or(z3.ULE(z(hi, 64), z(rl, 64)), z3.UGE(z(lo, 64), z(rh, 64))))
        if not dis:
            if c2 is e.cur:
                e.fail("stack-overlap", "new context's stack overlaps the running context's stack")
            e.kill(c2); o.ranges.remove((rl, rh, c2))
    cx.lo = lo; cx.hi = hi; cx.obj = o
    e.add_range(o, lo, hi, cx)
    e.last_range = (lo, hi)
    return o

def ctx_returned(e, v):
    c = e.cur
    if c.kind == "f":
        e.events.append(("exit0", 0))
        if e.allow_exit0: raise PathEnd("exit")
        e.fail("context-returned", "a context function returned to the process exit path")
    if c.kind == "u":
        e.fail("context-returned", "a ucontext function returned with no successor (thread exit)")
    if c.kind == "w":
        e.fail("context-returned", "a Windows fiber function returned (thread exit)")
    raise Unsupported("root returned")

def new_handle(e):
    e.next_handle += 1
    return 0x5A0000000000 + e.next_handle * 0x1000

def switched(e, frm, to):
    e.state["switches"] = e.state.get("switches", 0) + 1
    if to.kind == "root" and to.tid != e.tid:
        e.fail("thread", "a thread's own context is resumed on another thread")
    if to.state == "dead":
        e.fail("use-after-free", "switch to a context whose stack was released or overwritten")
    if to.obj is not None and not to.obj.alive:
        e.fail("use-after-free", "switch to a context whose stack memory was released")
    for h in e.state.get("switch_hooks", ()):
        h(e, frm, to)

def fswitch(e, to, vp, fn, i):
    to = lin(to)
    if type(to) is not int: to = e.concretize(to, 64, 8, "context handle")
    c = e.handles.get(to)
    if c is None:
        e.fail("bad-handle", "switch to %s" % ("a null handle" if to == 0 else "a handle that denotes no suspended context (already resumed?)"))
    frm = e.cur
    switched(e, frm, c)
    h = new_handle(e)
    frm.state = "susp"; frm.handle = h
    e.handles[h] = frm
    del e.handles[to]
    e.cur = c
    fresh = c.state == "fresh"
    c.state = "run"; c.handle = None
    if fresh:
        if fn is not None:
            e.fail("contract", "on-top function on a context that was never entered")
        e.push(e.fn_at(c.fn), [h, vp])
    elif fn is not None:
        F = e.fn_at(fn)
        e.push(F, [h, vp])
    else:
        e.ret_value((h, vp))
    return CTRL

@intr("jump_fcontext")
def _(e, a, i): return fswitch(e, a[0], a[1], None, i)
@intr("ontop_fcontext")
def _(e, a, i): return fswitch(e, a[0], a[1], a[2], i)
@intr("make_fcontext")
def _(e, a, i):
    sp, size, fn = a
    c = Ctx("ctx%d" % len(e.ctxs), "f")
    e.ctxs.append(c)
    if "shadow" in e.state: shadow_made(e, c, sp)
    stack_range(e, binop(10, sp, size, 64), sp, c)
    c.state = "fresh"; c.fn = fn
    c.handle = new_handle(e)
    e.handles[c.handle] = c
    return c.handle

# ---------------------------------------------------------------- hardware shadow stacks
# map_shadow_stack(2): the restore token lies in the last 8 bytes of the size asked for and must be aligned
@intr("syscall")
def _(e, a, i):
    if a[0] != 451: raise Unsupported("system call %s" % (a[0],))
    def err(n):
        e.st(TABLE["__errno_location"](e, [], None), 4, n); return M64
    ln = lin(a[2])
    if fault(e, F_MMAP, "map_shadow_stack"): return err(12)
    if type(a[3]) is not int or a[3] != 1: e.fail("shadow-stack", "the shadow stack is mapped without a restore token")
    if lin(a[1]) != 0: raise Unsupported("map_shadow_stack at a given address")
    if e.decide(z3.ULT(z(ln, 64), 8)): return err(28)
    if e.decide(z(ln, 64) & 7 != 0): return err(22)
    o = heap_alloc(e, ln, "mmap", "shadow stack")
    if o is None: return err(12)
    o.const = True                      # only calls, returns and the shadow stack instructions write there
    o.info = {"prot": 1, "guards": [], "len": ln, "shadow": True}
    e.state.setdefault("shadow", {"maps": [], "used": {}})["maps"].append(o)
    return o.base
def shadow_made(e, c, sp):
    s = e.state["shadow"]; v = lin(e.ld(binop(10, sp, 8, 64), 8))
    for o in s["maps"]:
        if e.valid(z(v, 64) == z(binop(8, o.base, o.info["len"], 64), 64)): break
    else: e.fail("shadow-stack", "the new context is not linked with the end of a shadow stack")
    if not o.alive: e.fail("shadow-stack", "the new context is linked with a shadow stack already unmapped")
    if id(o) in s["used"]: e.fail("shadow-stack", "two contexts share a shadow stack")
    if not e.valid(z3.UGE(z(o.info["len"], 64), 4096)):
        e.check(z3.ULT(z(o.info["len"], 64), 4096)); e.fail("shadow-stack", "the shadow stack is smaller than the minimum", e.solver.model())
    s["used"][id(o)] = o; c.ssp = o
def shadow_hook(e, frm, to):
    if to.kind != "f": return
    if to.ssp is None: e.fail("shadow-stack", "a context runs without a shadow stack of its own")
    if not to.ssp.alive: e.fail("shadow-stack", "control enters a context whose shadow stack was unmapped")
@intr("vp_shadow_on")
def _(e, a, i):
    e.state.setdefault("shadow", {"maps": [], "used": {}}); e.state.setdefault("switch_hooks", []).append(shadow_hook); return 0
@intr("vp_shadow_live")
def _(e, a, i): return sum(1 for o in e.state.get("shadow", {"maps": ()})["maps"] if o.alive)

# ---------------------------------------------------------------- ucontext
UC_SIZE = 936
def ukey(p):
    p = lin(p)
    return p if type(p) is int else (p.t, p.c)

@intr("getcontext")
def _(e, a, i):
    e.res(a[0], UC_SIZE, True)
    if fault(e, F_GETCONTEXT, "getcontext"):
        e.st(TABLE["__errno_location"](e, [], None), 4, 12)
        return 0xffffffff
    e.uctx[ukey(a[0])] = ("got", None)
    return 0
@intr("makecontext")
def _(e, a, i):
    u = a[0]
    st = e.uctx.get(ukey(u))
    if st is None: e.fail("contract", "makecontext on a ucontext that was not initialised with getcontext")
    sp = e.ld(binop(8, u, 16, 64), 8); size = e.ld(binop(8, u, 32, 64), 8); link = e.ld(binop(8, u, 8, 64), 8)
    c = Ctx("ctx%d" % len(e.ctxs), "u")
    e.ctxs.append(c)
    stack_range(e, sp, binop(8, sp, size, 64), c)
    c.state = "fresh"; c.fn = a[1]; c.args = list(a[3:])
    if (a[2] & 0xffffffff if type(a[2]) is int else -1) != len(a) - 3: e.fail("contract", "makecontext with a wrong number of arguments")
    if not (type(link) is int and link == 0):
        raise Unsupported("uc_link")
    e.uctx[ukey(u)] = ("ready", c)
    return 0
@intr("swapcontext")
def _(e, a, i):
    frm, to = a
    e.res(frm, UC_SIZE, True)
    e.res(to, UC_SIZE, False)
    st = e.uctx.get(ukey(to))
    if st is None or st[0] != "ready":
        e.fail("bad-handle", "swapcontext to a context that is not suspended")
    c = st[1]
    cur = e.cur
    if c is cur:
        e.fail("bad-handle", "swapcontext to the running context")
    switched(e, cur, c)
    e.uctx[ukey(to)] = ("running", c)
    e.uctx[ukey(frm)] = ("ready", cur)
    cur.state = "susp"
    e.cur = c
    fresh = c.state == "fresh"
    c.state = "run"
    if fresh:
        F = e.fn_at(c.fn)
        e.push(F, c.args[:F.nargs])
    else:
        e.ret_value(0)
    return CTRL
@intr("setcontext")
def _(e, a, i): raise Unsupported("setcontext")

# ---------------------------------------------------------------- Windows fibers
@intr("ConvertThreadToFiber", "ConvertThreadToFiberEx")
def _(e, a, i):
    w = e.state.setdefault("wf", {"n": 0, "live": {}, "thread": {}})
    e.state["lasterr"] = 1280
    if w["thread"].get(e.tid):
        return 0
    if fault(e, F_WIN, "ConvertThreadToFiber"): e.state["lasterr"] = 8; return 0
    w["n"] += 1
    h = 0x6A0000000000 + w["n"] * 0x1000
    e.cur_root = e.cur
    w["live"][h] = e.cur; w["thread"][e.tid] = h
    w.setdefault("cur", {})[e.tid] = h
    return h
@intr("ConvertFiberToThread")
def _(e, a, i):
    w = e.state.setdefault("wf", {"n": 0, "live": {}, "thread": {}})
    h = w["thread"].get(e.tid)
    if not h: e.fail("winfib", "ConvertFiberToThread on a thread that is not a fiber")
    w["live"].pop(h, None); w["thread"][e.tid] = None
    return 1
@intr("IsThreadAFiber")
def _(e, a, i): return int(bool(e.state.get("wf", {"thread": {}})["thread"].get(e.tid)))
@intr("vp_GetCurrentFiber", "GetCurrentFiber")
def _(e, a, i):
    w = e.state.get("wf")
    return w.get("cur", {}).get(e.tid, 0x1E00) if w else 0x1E00
@intr("GetLastError")
def _(e, a, i): return e.state.get("lasterr", 1280)
@intr("CreateFiber")
def _(e, a, i):
    w = e.state.setdefault("wf", {"n": 0, "live": {}, "thread": {}})
    if fault(e, F_WIN, "CreateFiber"): e.state["lasterr"] = 8; return 0
    w["n"] += 1
    h = 0x6A0000000000 + w["n"] * 0x1000
    c = Ctx("ctx%d" % len(e.ctxs), "w"); e.ctxs.append(c)
    c.state = "fresh"; c.fn = a[1]; c.args = [a[2]]
    w["live"][h] = c
    e.state.setdefault("wf_created", []).append((h, a[0]))
    return h
@intr("DeleteFiber")
def _(e, a, i):
    w = e.state.get("wf", {"live": {}})
    h = a[0]
    c = w["live"].get(h)
    if c is None: e.fail("winfib", "DeleteFiber on a fiber that does not exist (deleted twice?)")
    if c is e.cur: e.fail("winfib", "DeleteFiber on the running fiber")
    if c.kind == "root": e.fail("winfib", "DeleteFiber on a thread's own fiber")
    e.kill(c); del w["live"][h]
    return 0
@intr("SwitchToFiber")
def _(e, a, i):
    w = e.state.get("wf", {"live": {}})
    h = a[0]
    c = w["live"].get(h)
    if c is None: e.fail("bad-handle", "SwitchToFiber to a fiber that does not exist")
    cur = e.cur
    if c is cur: e.fail("bad-handle", "SwitchToFiber to the running fiber")
    if not w["thread"].get(e.tid): e.fail("winfib", "SwitchToFiber on a thread that was not converted")
    switched(e, cur, c)
    cur.state = "susp"; e.cur = c
    w.setdefault("cur", {})[e.tid] = h
    fresh = c.state == "fresh"; c.state = "run"
    if fresh: e.push(e.fn_at(c.fn), c.args)
    else: e.ret_value(0)
    return CTRL
@intr("vp_wf_live")
def _(e, a, i):
    w = e.state.get("wf", {"live": {}})
    return sum(1 for c in w["live"].values() if c.kind != "root")
@intr("vp_wf_last_size")
def _(e, a, i): return e.state["wf_created"][-1][1]
@intr("vp_wf_is_fiber")
def _(e, a, i): return int(bool(e.state.get("wf", {"thread": {}})["thread"].get(a[0])))
@intr("vp_wf_thread_is_fiber")
def _(e, a, i): return int(bool(e.state.get("wf", {"thread": {}})["thread"].get(e.tid)))
@intr("VirtualAlloc")
def _(e, a, i):
    if fault(e, F_WIN, "VirtualAlloc"): return 0
    if a[0] != 0: raise Unsupported("VirtualAlloc at address")
    ln = lin(a[1])
    if e.decide(icmp(32, ln, 0, 64)): return 0
    o = heap_alloc(e, ln, "winmap", "VirtualAlloc")
    if o is None: return 0
    if o.sym and e.pagesize is not None and e.pagesize != 4096:
        e.add(o.base.z() & (z(e.pagesize, 64) - 1) == 0)
    o.zero = True
    o.info = {"prot": a[3], "guards": [], "len": ln, "type": a[2]}
    e.state.setdefault("maps", []).append(o)
    return o.base
@intr("VirtualProtect")
def _(e, a, i):
    if fault(e, F_WIN, "VirtualProtect"): return 0
    az = z(lin(a[0]), 64)
    o = e.sobj_of(lin(a[0])) if type(lin(a[0])) is not int else e.find(lin(a[0]))
    if o is None or o.kind != "winmap": e.fail("mprotect", "VirtualProtect outside a mapping")
    c = z3.And(z3.UGE(az, z(o.base, 64)), z3.ULE(az + z(a[1], 64), z(o.base, 64) + z(o.size, 64)))
    if not e.valid(c):
        e.check(z3.Not(c)); e.fail("mprotect", "VirtualProtect outside the mapping", e.solver.model())
    o.info["guards"].append((lin(a[0]), lin(a[1]), a[2]))
    e.st(a[3], 4, o.info["prot"] & 0xffffffff)
    return 1
@intr("VirtualFree")
def _(e, a, i):
    o = e.obj_at_base(a[0])
    if o is None or o.kind != "winmap": e.fail("munmap", "VirtualFree of an address that is not the start of a region")
    if not o.alive: e.fail("munmap", "VirtualFree twice")
    if a[2] == 0x8000 and not (type(lin(a[1])) is int and lin(a[1]) == 0):
        e.fail("munmap", "VirtualFree(MEM_RELEASE) needs size 0")
    if a[2] != 0x8000: e.fail("munmap", "VirtualFree does not release the region")
    e.release(o)
    return 1
@intr("GetSystemInfo")
def _(e, a, i):
    e.st(binop(8, a[0], 4, 64), 4, trunc(page(e), 64, 32))
    return 0

# ---------------------------------------------------------------- ASan / TSan / split stacks / valgrind
@intr("__sanitizer_start_switch_fiber")
def _(e, a, i):
    s = e.state.setdefault("asan", {"fake": {}, "cur": {}, "n": 0, "pending": None, "save": {}})
    if s["pending"] is not None:
        e.fail("asan", "start_switch_fiber twice without a switch")
    lo, size = lin(a[1]), lin(a[2])
    s["pending"] = (e.cur, lin(a[0]), lo, size, e.state.get("switches", 0))
    # fake stack of the leaving context
    if not (type(lin(a[0])) is int and lin(a[0]) == 0):
        s["n"] += 1
        tok = 0x7A0000000000 + s["n"] * 0x1000
        e.st(a[0], 8, tok)
        s["save"][tok] = e.cur
        s["fake"][e.cur] = tok
    else:
        s["fake"][e.cur] = "destroyed"
    s["left"] = e.cur
    return 0
@intr("__sanitizer_finish_switch_fiber")
def _(e, a, i):
    s = e.state.setdefault("asan", {"fake": {}, "cur": {}, "n": 0, "pending": None, "save": {}})
    if s.get("arrived") is None:
        e.fail("asan", "finish_switch_fiber without a preceding switch")
    frm = s["arrived"]; s["arrived"] = None
    want = s["fake"].get(e.cur)
    got = lin(a[0])
    if want is None:
        if not (type(got) is int and got == 0): e.fail("asan", "a context entered for the first time must finish the switch with no fake stack")
    elif not (type(got) is int and got == want):
        e.fail("asan", "finish_switch_fiber with another context's fake stack")
    s["fake"].pop(e.cur, None)
    lo, hi = ctx_bounds(e, frm)
    if not (type(a[1]) is int and a[1] == 0): e.st(a[1], 8, lo)
    if not (type(a[2]) is int and a[2] == 0): e.st(a[2], 8, binop(10, hi, lo, 64))
    return 0
def ctx_bounds(e, c):
    if c.lo is None:
        o = e.state.setdefault("rootstack", {}).get(c)
        if o is None:
            k = len(e.state["rootstack"])
            o = (0x7B0000000000 + k * 0x10000000, 0x7B0000000000 + k * 0x10000000 + 0x800000)
            e.state["rootstack"][c] = o
        return o
    return c.lo, c.hi
def asan_hook(e, frm, to):
    s = e.state.setdefault("asan", {"fake": {}, "cur": {}, "n": 0, "pending": None, "save": {}})
    if s.get("arrived") is not None:
        e.fail("asan", "switch while the previous switch was not finished")
    p = s["pending"]
    if p is None:
        e.fail("asan", "switch without start_switch_fiber")
    s["pending"] = None
    cx, fsp, lo, size, n = p
    if cx is not frm: e.fail("asan", "start_switch_fiber was called by another context")
    wl, wh = ctx_bounds(e, to)
    if not e.valid(z3.And(z(lo, 64) == z(wl, 64), z(size, 64) == z(binop(10, wh, wl, 64), 64))):
        e.fail("asan", "start_switch_fiber announces wrong stack bounds for the context being entered")
    s["arrived"] = frm
    e.state["asan_switches"] = e.state.get("asan_switches", 0) + 1
@intr("vp_asan_on")
def _(e, a, i): e.state.setdefault("switch_hooks", []).append(asan_hook); return 0
@intr("vp_asan_fake_live")
def _(e, a, i):
    s = e.state.get("asan", {"fake": {}})
    return sum(1 for c, t in s["fake"].items() if t != "destroyed" and c.state == "dead")
@intr("vp_asan_switches")
def _(e, a, i): return e.state.get("asan_switches", 0)

def tsan_state(e): return e.state.setdefault("tsan", {"n": 0, "live": {}, "cur": {}, "of": {}, "announced": None})
@intr("__tsan_get_current_fiber")
def _(e, a, i):
    s = tsan_state(e)
    return tsan_cur(e, s)
def tsan_cur(e, s):
    c = s["cur"].get(e.tid)
    if c is None:
        c = 0x7C0000000000 + (1 + e.tid) * 0x1000
        s["cur"][e.tid] = c; s["live"][c] = "thread"
    return c
@intr("__tsan_create_fiber")
def _(e, a, i):
    s = tsan_state(e); tsan_cur(e, s)
    s["n"] += 1
    h = 0x7D0000000000 + s["n"] * 0x1000
    s["live"][h] = "fiber"
    return h
@intr("__tsan_destroy_fiber")
def _(e, a, i):
    s = tsan_state(e); h = lin(a[0])
    if type(h) is not int or h not in s["live"]: e.fail("tsan", "destroying a sanitizer fiber that does not exist")
    if s["live"][h] == "thread": e.fail("tsan", "destroying the thread's own sanitizer fiber")
    if tsan_cur(e, s) == h: e.fail("tsan", "destroying the sanitizer fiber that is running")
    del s["live"][h]
    return 0
@intr("__tsan_switch_to_fiber")
def _(e, a, i):
    s = tsan_state(e); h = lin(a[0])
    if type(h) is not int or h not in s["live"]: e.fail("tsan", "switching to a sanitizer fiber that does not exist")
    cur = tsan_cur(e, s)
    if s["announced"] is not None: e.fail("tsan", "two sanitizer switches for one context switch")
    if h == cur: e.fail("tsan", "switching to the sanitizer fiber that is already running")
    s["announced"] = (e.cur, h)
    s["cur"][e.tid] = h
    return 0
def tsan_hook(e, frm, to):
    s = tsan_state(e)
    if s["announced"] is None or s["announced"][0] is not frm: e.fail("tsan", "context switch without announcing it")
    h = s["announced"][1]; s["announced"] = None
    w = s["of"].get(to)
    if w is None:
        if any(x == h for c, x in s["of"].items() if c is not to and c.state != "dead"):
            e.fail("tsan", "a context is entered under another context's sanitizer fiber")
        s["of"][to] = h
    elif w != h: e.fail("tsan", "a context is resumed under a different sanitizer fiber")
    if frm not in s["of"]:
        pass
    e.state["tsan_switches"] = e.state.get("tsan_switches", 0) + 1
@intr("vp_tsan_on")
def _(e, a, i):
    s = tsan_state(e); s["of"][e.cur] = tsan_cur(e, s)
    e.state.setdefault("switch_hooks", []).append(tsan_hook); return 0
@intr("vp_tsan_live")
def _(e, a, i): return sum(1 for v in tsan_state(e)["live"].values() if v == "fiber")

def ss_state(e): return e.state.setdefault("split", {"n": 0, "live": {}, "cur": {}, "installed": {}})
@intr("__splitstack_makecontext")
def _(e, a, i):
    s = ss_state(e)
    if fault(e, F_SPLIT, "splitstack"):
        e.st(a[2], 8, e.fresh("split_size", 64))        # unspecified after a failure
        return 0
    req = lin(a[0])
    # the runtime may return more than was asked for
    mx = e.opts.get("params", {}).get("split_extra", 0)
    if mx or type(req) is not int:
        extra = e.input("split_extra", 64)
        e.assume(z3.ULE(z(extra, 64), mx))
        if e.decide(z3.UGT(z(req, 64), E.MAXSIZE - (1 << 24))): return 0
        sz = binop(8, req, extra, 64)
        o = e.new_sym_obj(sz, "splitstack", "splitstack", 16)
    else:
        sz = req
        o = e.new_obj(sz, "splitstack", "splitstack")
    s["n"] += 1
    tok = 0x7E0000000000 + s["n"] * 0x1000
    for k in range(10): e.st(binop(8, a[1], 8 * k, 64), 8, tok + 8 * k if k < 9 else tok)
    e.st(a[2], 8, sz)
    s["live"][tok] = {"obj": o, "blocked": False}
    return o.base
def ss_tok(e, p):
    t = e.ld(p, 8)
    return t
@intr("__splitstack_releasecontext")
def _(e, a, i):
    s = ss_state(e); t = ss_tok(e, a[0])
    if type(t) is not int or t not in s["live"]: e.fail("splitstack", "releasing a segment context that is not live")
    o = s["live"].pop(t)["obj"]
    e.release(o)
    return 0
@intr("__splitstack_block_signals_context")
def _(e, a, i):
    s = ss_state(e); t = ss_tok(e, a[0])
    if type(t) is not int or t not in s["live"]: e.fail("splitstack", "block_signals on a segment context that is not live")
    if not (type(a[1]) is int and a[1] == 0):
        v = e.ld(a[1], 4)
        s["live"][t]["blocked"] = not (type(v) is int and v == 0)
        s["live"][t]["set"] = True
    return 0
@intr("__splitstack_getcontext")
def _(e, a, i):
    s = ss_state(e)
    if s.get("setby") is e.cur: e.fail("splitstack", "the segment state saved is already that of the context being entered")
    tok = s["installed"].get(e.cur)
    s["saved"] = s.get("saved", {})
    n = s.get("sv", 0) + 1; s["sv"] = n
    t = tok if tok is not None and tok in s["live"] else 0x7F0000000000 + n * 0x1000
    for k in range(10): e.st(binop(8, a[0], 8 * k, 64), 8, t + 8 * k if k < 9 else t)
    s["saved"][e.cur] = t
    s["got"] = e.cur
    return 0
@intr("__splitstack_setcontext")
def _(e, a, i):
    s = ss_state(e)
    s["set"] = ss_tok(e, a[0])
    s["setby"] = e.cur
    return 0
def split_hook(e, frm, to):
    s = ss_state(e)
    if s.get("got") is not frm: e.fail("splitstack", "the leaving context's segment state was not saved before the switch")
    if s.get("setby") is not frm: e.fail("splitstack", "the entering context's segment state was not installed before the switch")
    want = s.get("saved", {}).get(to)
    st = s["set"]
    if want is None:
        if type(st) is not int or st not in s["live"]: e.fail("splitstack", "entering a new context with another segment state")
        o = s["live"][st]["obj"]
        if to.obj is not o: e.fail("splitstack", "segment state installed belongs to another stack")
        s["installed"][to] = st
    else:
        if type(st) is not int or st != want: e.fail("splitstack", "segment state installed is not the one saved for the context")
    s["got"] = None; s["setby"] = None
    e.state["split_switches"] = e.state.get("split_switches", 0) + 1
@intr("vp_split_on")
def _(e, a, i): e.state.setdefault("switch_hooks", []).append(split_hook); return 0
@intr("vp_split_live")
def _(e, a, i): return len(ss_state(e)["live"])
@intr("vp_split_blocked")
def _(e, a, i):
    t = ss_tok(e, a[0]); l = ss_state(e)["live"].get(t)
    return int(bool(l and l.get("set") and not l["blocked"]))
@intr("vp_split_base")
def _(e, a, i):
    t = ss_tok(e, a[0]); l = ss_state(e)["live"].get(t)
    if not l: e.fail("splitstack", "segment context is not live")
    return l["obj"].base
@intr("vp_split_size")
def _(e, a, i):
    t = ss_tok(e, a[0]); return ss_state(e)["live"][t]["obj"].size

def inline_asm(e, t, args):
    s = t[1]
    if s.strip() == "": return 0
    if "rol" in s and "%rdi" in s:          # valgrind client request: args block pointer and default
        blk = None
        for v in args:
            v = lin(v) if not isinstance(v, (int, tuple)) else v
            if type(v) is int and e.find(v) is not None and e.find(v).kind == "local": blk = v
        if blk is None: raise Unsupported("valgrind request")
        q = [e.ld(blk + 8 * k, 8) for k in range(6)]
        return vg_request(e, q)
    raise Unsupported("inline asm: " + s)
def vg_request(e, q):
    v = e.state.setdefault("vg", {"live": {}, "n": 0, "reg": 0, "dereg": 0})
    if q[0] == 0x1501:
        v["n"] += 1; v["reg"] += 1
        ident = e.input("vg_id", 64)
        e.assume(z3.ULT(z(ident, 64), 1 << 32))
        for (k, _) in v["live"].values():
            e.assume(z(k, 64) != z(ident, 64))
        v["live"][v["n"]] = (ident, (q[1], q[2]))
        return ident
    if q[0] == 0x1502:
        v["dereg"] += 1
        for n, (k, rng) in list(v["live"].items()):
            if e.valid(z(q[1], 64) == z(k, 64)):
                v["last"] = rng
                lo = lin(rng[0]); hi = lin(rng[1])
                # the memory must still be there
                for x in (lo, hi):
                    pass
                b = hi if e.valid(z3.ULE(z(hi, 64), z(lo, 64))) else lo
                o = e.obj_at_base(b)
                if o is not None and not o.alive:
                    e.fail("valgrind", "stack deregistered after its memory was released")
                del v["live"][n]
                return 0
        e.fail("valgrind", "deregistering a stack identifier that is not registered")
    return 0
@intr("vp_vg_live")
def _(e, a, i): return len(e.state.get("vg", {"live": {}})["live"])
@intr("vp_vg_lo")
def _(e, a, i):
    r = list(e.state["vg"]["live"].values())[-1][1]
    return r[0]
@intr("vp_vg_hi")
def _(e, a, i):
    r = list(e.state["vg"]["live"].values())[-1][1]
    return r[1]

# ---------------------------------------------------------------- harness intrinsics
@intr("vp_sym")
def _(e, a, i):
    w = a[1]
    nm = cstr(e, a[0])
    v = e.input(nm, w)
    if w < 64:
        return fromz(z3.ZeroExt(64 - w, v), 64)
    return v
@intr("vp_choose")
def _(e, a, i):
    v = e.fresh("choose", 32); e.inputs.append(("choose", v, 32))
    e.add(z3.ULT(v, a[0]))
    return v
@intr("vp_pick")
def _(e, a, i): return e.pick(a[0])
@intr("vp_assume")
def _(e, a, i):
    e.assume(tobool(a[0])); return 0
@intr("vp_assert")
def _(e, a, i):
    e.checks_done += 1
    c = a[0]
    if type(c) is int:
        if not c & 1: e.fail("assert", cstr(e, a[1]))
        return 0
    c = tobool(c)
    if e.uninit:
        for v in E.vars_of(c):
            if v in e.uninit: e.fail("uninitialised", "a checked value is uninitialised (%s): %s" % (e.uninit[v], cstr(e, a[1])))
    if not e.valid(c):
        e.check(z3.Not(c))
        e.fail("assert", cstr(e, a[1]), e.solver.model())
    return 0
@intr("vp_fail")
def _(e, a, i): e.fail("assert", cstr(e, a[0]))
@intr("vp_log")
def _(e, a, i): e.events.append((cstr(e, a[0]), a[1])); return 0
@intr("vp_cover")
def _(e, a, i): e.covers.add(cstr(e, a[0])); return 0
@intr("vp_stop")
def _(e, a, i): raise PathEnd("stop")
@intr("vp_fault_arm")
def _(e, a, i):
    e.faults = a[0]; e.fault_budget = a[1]; return 0
@intr("vp_may_throw")
def _(e, a, i):
    return int(fault(e, F_USER, "user"))
@intr("vp_expect_terminate")
def _(e, a, i): e.expect_term = bool(a[0]); return 0
@intr("vp_allow_exit0")
def _(e, a, i): e.allow_exit0 = True; return 0
@intr("vp_sym_heap")
def _(e, a, i): e.state["symheap"] = a[0]; return 0
@intr("vp_heap_live")
def _(e, a, i):
    return sum(1 for o in list(e.objs.values()) + e.symobjs if o.kind in HEAP and o.alive)
@intr("vp_leak_ok")
def _(e, a, i): e.state["leak_ok"] = True; return 0
@intr("vp_region")
def _(e, a, i):
    """symbolic stack memory: any size in [min,max], any address = residue mod align"""
    mn, mx, align = a[0], a[1], a[2]
    if type(mn) is int and mn == mx:
        size = mn
    else:
        size = e.input("region_size", 64)
        e.assume(z3.And(z3.UGE(z(size, 64), z(mn, 64)), z3.ULE(z(size, 64), z(mx, 64))))
    o = e.new_sym_obj(size, "region", "region", max(align, 1))
    e.inputs.append(("region_base", o.base, 64))
    e.st(a[3], 8, size)
    return o.base
@intr("vp_region_concrete")
def _(e, a, i):
    o = e.new_obj(a[0], "region", "region")
    return o.base
@intr("vp_region_free")
def _(e, a, i):
    e.free(a[0], ("region",), "stack release"); return 0
@intr("vp_pages")
def _(e, a, i):
    """symbolic page size: a power of two between the bounds"""
    v = e.input("pagesize", 64)
    zv = z(v, 64)
    e.assume(z3.And(z3.UGE(zv, a[0]), z3.ULE(zv, a[1]), zv & (zv - 1) == 0))
    e.pagesize = v
    return v
@intr("vp_set_pagesize")
def _(e, a, i): e.pagesize = a[0]; return 0
@intr("vp_set_minsig")
def _(e, a, i): e.state["minsig"] = a[0]; return 0
@intr("vp_set_rlimit")
def _(e, a, i): e.rlim = (a[0], a[1]); return 0
@intr("vp_stack_lo")
def _(e, a, i): return e.last_range[0] if e.last_range else 0
@intr("vp_stack_hi")
def _(e, a, i): return e.last_range[1] if e.last_range else 0
@intr("vp_on_stack")
def _(e, a, i):
    """is the running context's machine stack inside [lo,hi)?"""
    c = e.cur
    if c.lo is None: return 0
    return int(e.valid(z3.And(z3.UGE(z(c.lo, 64), z(a[0], 64)), z3.ULE(z(c.hi, 64), z(a[1], 64)))))
@intr("vp_on_root")
def _(e, a, i): return int(e.cur.kind == "root")
@intr("vp_caught_depth")
def _(e, a, i): return len(e.caught.get(e.tid, ()))
@intr("vp_alloc_last_size")
def _(e, a, i): return e.state["allocs"][-1][1]
@intr("vp_alloc_count")
def _(e, a, i): return len(e.state.get("allocs", ()))
@intr("vp_is_live")
def _(e, a, i):
    o = e.obj_at_base(a[0])
    return int(o is not None and o.alive)
@intr("vp_block_size")
def _(e, a, i):
    o = e.obj_at_base(a[0])
    if o is None: e.fail("assert", "not the start of a block")
    return o.size
@intr("vp_thread_new")
def _(e, a, i):
    t = e.next_tid; e.next_tid += 1
    e.atexit[t] = []; e.caught[t] = []
    return t
def on_thread(e, tid, start, i):
    caller = e.cur; ctid = e.tid; fr = caller.frames[-1]
    c = e.state.setdefault("threads", {}).get(tid)
    if c is None:
        c = Ctx("thread%d" % tid, "root"); c.tid = tid
        e.ctxs.append(c); e.state["threads"][tid] = c
    c.state = "run"
    caller.state = "blocked"
    e.cur = c; e.tid = tid
    def done(v=0):
        if e.cur is not c: e.fail("thread", "thread function ended on another context")
        c.state = "idle"
        e.cur = caller; e.tid = ctid; caller.state = "run"
        e.done_call(fr, i, 0)
    start(done)
    return CTRL
@intr("vp_thread_run")
def _(e, a, i):
    F = e.fn_at(a[1])
    return on_thread(e, a[0], lambda k: e.push(F, [a[2]], k), i)
@intr("vp_par")
def _(e, a, i):
    from .engine import Par
    caller = e.cur; ctid = e.tid; fr = caller.frames[-1]; p = Par(e, a[6]); caller.state = "blocked"
    for k in (0, 1):
        tid = a[3 * k]
        c = e.state.setdefault("threads", {}).get(tid)
        if c is None:
            c = Ctx("thread%d" % tid, "root"); c.tid = tid
            e.ctxs.append(c); e.state["threads"][tid] = c
        c.state = "run"
        p.ctx.append(c); p.tid.append(tid); p.saved[k] = c
        def done(v=0, k=k):
            if e.cur is not p.ctx[k]: e.fail("thread", "thread function ended on another context")
            p.ctx[k].state = "idle"; p.over[k] = True
            if not p.over[1 - k]: p.to(1 - k); return
            e.par = None; e.cur = caller; e.tid = ctid; caller.state = "run"
            e.done_call(fr, i, 0)
        e.cur = c; e.tid = tid
        e.push(e.fn_at(a[3 * k + 1]), [a[3 * k + 2]], done)
    e.par = p
    p.i = e.pick(2, "first"); e.cur = p.saved[p.i]; e.tid = p.tid[p.i]
    return CTRL
@intr("vp_thread_exit")
def _(e, a, i):
    return on_thread(e, a[0], lambda k: e.run_atexit(a[0], k), i)
@intr("vp_tid")
def _(e, a, i): return e.tid

def final_checks(e):
    if e.state.get("leak_ok"): return
    for o in list(e.objs.values()) + e.symobjs:
        if o.kind in HEAP and o.alive:
            e.fail("leak", "%s block (%s) never released" % (o.kind, o.name))
    s = e.state.get("split")
    if s and s["live"]: e.fail("leak", "segmented stack never released")
    w = e.state.get("wf")
    if w and any(c.kind != "root" for c in w["live"].values()): e.fail("leak", "Windows fiber never deleted")
    v = e.state.get("vg")
    if v and v["live"]: e.fail("leak", "stack never deregistered from valgrind")
    t = e.state.get("tsan")
    if t and any(k == "fiber" for k in t["live"].values()): e.fail("leak", "sanitizer fiber never destroyed")

for n in list(TABLE):
    OVERRIDE.add(n)

@intr("vp_param")
def _(e, a, i): return e.opts.get("params", {}).get(cstr(e, a[0]), 0) & 0xffffffff
OVERRIDE.add("vp_param")
