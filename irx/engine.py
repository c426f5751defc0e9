"""Symbolic executor for LLVM IR (one path per Engine.run; forks are recorded as decision prefixes)."""
import z3, sys
from .val import *
from . import val as VV
from . import fp
from .load import OBJ_SHIFT, GLOBAL_OFF, Unsupported

OFFM = (1 << OBJ_SHIFT) - 1
SYM_BASE = 1 << 46
SYM_STRIDE = 1 << 40
MAXSIZE = 1 << 39

class Violation(Exception):
    def __init__(self, kind, msg, where="", model=None):
        self.kind = kind; self.msg = msg; self.where = where; self.model = model
        Exception.__init__(self, kind + ": " + msg)

class PathEnd(Exception):
    def __init__(self, why): self.why = why

class Infeasible(Exception):
    pass

class Obj:
    __slots__ = ("id", "base", "size", "kind", "alive", "cells", "zero", "const", "ranges", "name", "sym", "segs", "info", "freed_at")
    def __init__(self, id, base, size, kind, name=""):
        self.id = id; self.base = base; self.size = size; self.kind = kind; self.alive = True
        self.cells = {}; self.zero = False; self.const = False; self.ranges = None; self.name = name
        self.sym = False; self.segs = None; self.info = None; self.freed_at = None

class Seg:
    __slots__ = ("terms", "cells", "lo", "hi", "T", "ok")
    def __init__(self, terms):
        self.ok = set()
        self.terms = terms; self.cells = {}; self.lo = None; self.hi = None; self.T = Lin(0, terms)

class Frame:
    __slots__ = ("fn", "env", "bi", "ii", "pending", "allocs", "cb", "bar")
    def __init__(self, fn, env):
        self.fn = fn; self.env = env; self.bi = 0; self.ii = 0; self.pending = None; self.allocs = []; self.cb = None
        self.bar = False

class Ctx:
    __slots__ = ("name", "frames", "state", "handle", "lo", "hi", "obj", "fn", "args", "kind", "tid", "ssp", "dying")
    def __init__(self, name, kind):
        self.name = name; self.kind = kind; self.frames = []; self.state = "run"; self.handle = None
        self.lo = self.hi = None; self.obj = None; self.fn = None; self.args = None; self.tid = None; self.ssp = None; self.dying = False

class Exc:
    __slots__ = ("addr", "ti", "dtor", "handlers", "freed", "refs", "inflight", "foreign")
    def __init__(self, addr):
        self.addr = addr; self.ti = 0; self.dtor = 0; self.handlers = 0; self.freed = False; self.refs = 1; self.inflight = False

class Par:
    """two threads at once: a choice of who goes on before every atomic operation, and a happens-before race detector for all other accesses
    (a program without races behaves as if threads changed only at synchronisation)"""
    def __init__(self, e, budget):
        self.e = e; self.budget = budget; self.ctx = []; self.tid = []; self.over = [False, False]; self.skip = [False, False]; self.i = 0
        self.vc = [[1, 0], [0, 1]]; self.rel = [[0, 0], [0, 0]]; self.acq = [[0, 0], [0, 0]]; self.loc = {}; self.sync = {}; self.saved = [None, None]
    def to(self, k):
        e = self.e
        if self.ctx[self.i] is not None: self.saved[self.i] = e.cur
        self.i = k; e.cur = self.saved[k]; e.tid = self.tid[k]
    def join(self, a, b):
        for k in (0, 1): a[k] = max(a[k], b[k])
    def obj(self, a):
        e = self.e; a = lin(a)
        if type(a) is int:
            o = e.find(a); off = a - o.base if o is not None and type(o.base) is int else a
            return (o, off) if o is not None else (None, 0)
        o = next((x for x in e.symobjs if lin(x.base) is not None and type(lsub(a, x.base)) is int), None)
        return (o, lsub(a, o.base)) if o is not None else (None, 0)
    def access(self, fr, a, write, order, rmw=False):
        e = self.e; o, off = self.obj(a)
        if o is None or getattr(o, "const", False) or o.id in fr.allocs: return False
        i = self.i; j = 1 - i
        if order:
            if self.skip[i]: self.skip[i] = False
            elif self.budget > 0 and not self.over[j]:
                if e.pick(2, "switch"):
                    self.budget -= 1; self.skip[i] = True; fr.ii -= 1; e.events.append(("thread goes on", self.tid[j])); self.to(j); return True
        k = (o.id, off); L = self.loc.setdefault(k, [{}, {}])
        for w in ((0, 1) if write else (0,)):
            t = L[w].get(j)
            if t and not (t[1] and order) and t[0] > self.vc[i][j]: e.fail("data-race", "two threads access %s+%s without synchronisation" % (o.name, off))
        n = self.vc[i][i]
        c = L[0 if write else 1]; c[i] = (n, bool(order) and (c.get(i, (0, True))[1] or c[i][0] < n))
        if order:
            S = self.sync.setdefault(k, [0, 0])
            if not write or rmw:
                if order in (4, 6, 7): self.join(self.vc[i], S)
                else: self.join(self.acq[i], S)
            if write:
                r = self.vc[i] if order in (5, 6, 7) else self.rel[i]
                if rmw: self.join(S, r)
                else: self.sync[k] = list(r)
                self.vc[i][i] += 1
        return False
    def fence(self, order):
        i = self.i
        if order in (4, 6, 7): self.join(self.vc[i], self.acq[i])
        if order in (5, 6, 7): self.rel[i] = list(self.vc[i]); self.vc[i][i] += 1
    def guard(self, a):
        i = self.i; o, off = self.obj(a); S = self.sync.setdefault((o.id, off), [0, 0]); self.join(self.vc[i], S); self.join(S, self.vc[i]); self.vc[i][i] += 1
    def freed(self, o):
        i = self.i; j = 1 - i
        for (oid, off), L in self.loc.items():
            if oid != o.id: continue
            for w in (0, 1):
                t = L[w].get(j)
                if t and t[0] > self.vc[i][j]: self.e.fail("data-race", "a block is released while another thread accesses it without synchronisation (%s+%s)" % (o.name, off))

class CTRLT: pass
CTRL = CTRLT()

def s64(x):
    return x - (1 << 64) if x >> 63 else x

TLS = object()
class Engine:
    def __init__(self, mod, entry, prefix=(), opts=None, model_values=None):
        self.mod = mod
        self.entry = entry
        self.opts = opts or {}
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.opts.get("solver_timeout", 60000))
        self.model = None
        self.dcache = {}
        self.keep = []
        self.objs = {}
        self.symobjs = []
        self.anchor = {}
        self.next_id = mod.next_obj_id
        self.nsym = 0
        self.names = {}
        self.inputs = []       # (name, value, width) in creation order
        self.events = []
        self.covers = set()
        self.queries = 0
        self.solver_time = 0.0
        self.steps = 0
        self.max_steps = self.opts.get("max_steps", 3000000)
        self.max_depth = self.opts.get("max_depth", 400)
        self.tid = 0
        self.tls = {}
        self.par = None
        self.atexit = {0: []}
        self.exc = {}
        self.caught = {0: []}
        self.uncaught = {0: 0}
        self.errno = {}
        self.ctxs = []
        self.handles = {}
        self.uctx = {}
        self.next_handle = 0
        self.faults = 0
        self.fault_budget = 1 << 30
        self.expect_term = False
        self.allow_exit0 = False
        self.maps = {}
        self.prot = []
        self.uninit = {}
        self.fns_run = set()
        self.hooks = {}
        self.asan = None
        self.vg = {}
        self.last_range = None
        self.checks_done = 0
        self.threads = {0: True}
        self.next_tid = 1
        self.pagesize = None
        self.rlim = None
        self.ss = {}
        self.tsan = {"cur": {}, "n": 0, "live": {}, "pending": None}
        self.state = {}
        from . import rt
        self.rt = rt
        self.intr = rt.TABLE

    # ------------------------------------------------------------------ reporting
    def where(self):
        out = []
        try:
            for fr in reversed(self.cur.frames[-6:]):
                bl = fr.fn.lines[fr.bi]
                i = min(max(fr.ii - 1, 0), len(bl) - 1)
                out.append("%s:%s" % (fr.fn.name, bl[i]))
        except Exception:
            pass
        return " <- ".join(out)

    def fail(self, kind, msg, model=None):
        if model is None:
            if self.model is None or True:
                if self.check() == z3.sat:
                    model = self.solver.model()
        raise Violation(kind, msg, self.where(), model)

    # ------------------------------------------------------------------ solver
    def small_quotient(self, a, b):
        """64-bit unsigned division by a symbolic value: when the quotient can only be small, decide which it is"""
        x = z3.ZeroExt(64, z(a, 64)); y = z3.ZeroExt(64, z(b, 64))
        K = 5
        if self.valid(z3.ULT(x, y * K)):
            for k in range(K - 1):
                if self.decide(z3.ULT(x, y * (k + 1))): return k
            return K - 1
        return binop(14, a, b, 64)

    def check(self, *a):
        import time
        self.queries += 1
        t = time.time()
        r = self.solver.check(*a)
        self.solver_time += time.time() - t
        if r == z3.unknown:
            raise Unsupported("solver returned unknown: " + self.solver.reason_unknown())
        return r

    def add(self, c):
        self.solver.add(c)
        self.model = None

    def sat(self, c):
        """is c satisfiable together with the path condition"""
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if z3.is_true(v):
                return True
        if self.check(c) == z3.sat:
            self.model = self.solver.model()
            return True
        return False

    def valid(self, c):
        if isinstance(c, (bool, int)): return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = c.get_id()
        r = self.dcache.get(i)
        if r is not None:
            return r
        n = z3.Not(c)
        r = not self.sat(n)
        if r:
            self.dcache[i] = True; self.keep.append(c)
        return r

    def decide(self, c):
        if isinstance(c, (bool, int)): return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = c.get_id()
        r = self.dcache.get(i)
        if r is not None:
            return r
        if self.uninit:
            for v in vars_of(c):
                if v in self.uninit:
                    self.fail("uninitialised", "control flow depends on uninitialised memory (%s)" % self.uninit[v])
        self.keep.append(c)
        pos = len(self.trace)
        if pos < len(self.prefix):
            r = bool(self.prefix[pos])
            self.trace.append(int(r))
            self.add(c if r else z3.Not(c))
            self.dcache[i] = r
            return r
        n = z3.Not(c)
        st = self.sat(c)
        sf = self.sat(n)
        if not st and not sf:
            raise Infeasible()
        if st and sf:
            self.alts.append(self.trace + [0])
            r = True
        else:
            r = st
        self.trace.append(int(r))
        self.solver.add(c if r else n)
        if self.model is not None and not z3.is_true(self.model.eval(c if r else n, model_completion=True)):
            self.model = None
        self.dcache[i] = r
        return r

    def assume(self, c):
        if isinstance(c, (bool, int)):
            if not c: raise Infeasible()
            return
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible()
        if len(self.trace) < len(self.prefix):
            self.add(c); return
        if not self.sat(c):
            raise Infeasible()
        self.add(c)

    def fresh(self, name, w):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        nm = "%s!%d" % (name, n)
        if w == 1:
            return z3.Bool(nm)
        v = z3.BitVec(nm, w)
        return atom(v) if w == 64 else v

    def input(self, name, w):
        v = self.fresh(name, w)
        self.inputs.append((name, v, w))
        return v

    def pick(self, n, name="pick"):
        """symbolic choice 0..n-1 decided now"""
        if n <= 1:
            self.inputs.append((name, 0, 32))
            return 0
        v = self.fresh(name, 32)
        self.inputs.append((name, v, 32))
        self.solver.add(z3.ULT(v, n)); self.model = None
        for k in range(n - 1):
            if self.decide(v == k):
                return k
        return n - 1

    def concretize(self, v, w, limit=16, what="value"):
        if type(v) is int: return v
        e = z(v, w)
        for _ in range(limit):
            pos = len(self.trace)
            if pos < len(self.prefix):
                # value chosen deterministically again through the model: re-derive from recorded list
                k = self.prefix[pos]
                if isinstance(k, tuple):
                    val, r = k
                    self.trace.append(k)
                    c = e == z3.BitVecVal(val, w)
                    self.add(c if r else z3.Not(c))
                    if r: return val
                    continue
                raise Unsupported("prefix mismatch")
            if self.check() != z3.sat:
                raise Infeasible()
            m = self.solver.model()
            val = m.eval(e, model_completion=True).as_long()
            c = e == z3.BitVecVal(val, w)
            if self.check(z3.Not(c)) == z3.sat:
                self.alts.append(self.trace + [(val, 0)])
            self.trace.append((val, 1))
            self.add(c)
            return val
        raise Unsupported("too many values for " + what)

    # ------------------------------------------------------------------ objects
    def new_obj(self, size, kind, name=""):
        i = self.next_id; self.next_id += 1
        o = Obj(i, (i << OBJ_SHIFT) + GLOBAL_OFF, size, kind, name)
        self.objs[i] = o
        return o

    def new_sym_obj(self, size, kind, name, align=1):
        k = len(self.symobjs)
        i = self.next_id; self.next_id += 1
        base = self.fresh("base_" + name, 64)
        o = Obj(i, base, size, kind, name)
        o.sym = True; o.segs = {}
        lo = SYM_BASE + k * SYM_STRIDE
        bz = base.z()
        sz = z(size, 64)
        cs = [z3.UGE(bz, lo + 0x100000), z3.ULE(bz, lo + (SYM_STRIDE >> 1) - 1), z3.ULE(sz, MAXSIZE)]
        if align > 1:
            cs.append(bz & (align - 1) == 0)
        for c in cs:
            self.solver.add(c)
        self.model = None
        self.symobjs.append(o)
        return o

    def global_obj(self, gid):
        G = self.mod.by_addr.get((gid << OBJ_SHIFT) + GLOBAL_OFF)
        if G is None or not hasattr(G, "tls"):
            return None
        if G.tls: return TLS
        o = Obj(gid, G.addr, max(G.size, 1), "global", G.name)
        o.zero = not G.decl
        o.const = G.const
        if G.decl and G.name == "__libc_single_threaded":
            o.zero = True                # other threads may exist: reference counts are atomic
        elif G.decl:
            o.info = "external"
            o.size = max(o.size, 64)
        for off, sz, v in G.init:
            o.cells[off] = (sz, v)
        self.objs[gid] = o
        return o

    def tls_obj(self, addr):
        k = (self.tid, addr)
        o = self.tls.get(k)
        if o is None:
            G = self.mod.by_addr[addr]
            o = self.new_obj(max(G.size, 1), "tls", "%s@t%d" % (G.name, self.tid))
            o.zero = True
            for off, sz, v in G.init:
                o.cells[off] = (sz, v)
            self.tls[k] = o
        return o

    def find(self, addr):
        """concrete address -> object or None"""
        o = self.objs.get(addr >> OBJ_SHIFT)
        if o is None:
            o = self.global_obj(addr >> OBJ_SHIFT)
        if o is TLS: o = self.tls_obj(((addr >> OBJ_SHIFT) << OBJ_SHIFT) + GLOBAL_OFF)
        return o

    def res(self, addr, n, write):
        """resolve an access to (object, cells, offset)"""
        if type(addr) is not int:
            addr = lin(addr)
            if type(addr) is not int:
                return self.res_sym(addr, n, write)
        o = self.objs.get(addr >> OBJ_SHIFT)
        if o is None:
            o = self.global_obj(addr >> OBJ_SHIFT)
            if o is TLS:                       # (a guard variable) referenced directly: the running thread's instance
                G = self.mod.by_addr[((addr >> OBJ_SHIFT) << OBJ_SHIFT) + GLOBAL_OFF]
                return self.res(self.tls_obj(G.addr).base + (addr - G.addr), n, write)
            if o is None:
                self.fail("memory", "%s of %d bytes at invalid address 0x%x" % ("write" if write else "read", n, addr))
        off = addr - o.base
        if not o.alive:
            self.fail("use-after-free", "%s of %d bytes in %s (%s) already released%s" % ("write" if write else "read", n, o.kind, o.name, " at " + o.freed_at if o.freed_at else ""))
        if off < 0 or off + n > o.size:
            self.fail("out-of-bounds", "%s of %d bytes at offset %d of %s (%s) of size %d" % ("write" if write else "read", n, off, o.kind, o.name, o.size))
        if o.ranges and write:
            for rr in list(o.ranges):
                lo, hi, c = rr
                if addr < hi and addr + n > lo:
                    self.hit_stack(o, rr, n)
        if write and o.const:
            self.fail("memory", "write to constant " + o.name)
        if o.info == "external" and not write and o.kind == "global":
            raise Unsupported("read of external global " + o.name)
        return o, o.cells, off

    def sobj_of(self, addr):
        """symbolic object containing the (symbolic) address, or None"""
        best = None
        for o in self.symobjs:
            bt = dict(o.base.t)
            sc = any(i in bt for i, _ in addr.t)
            if sc and best is None: best = o
        order = ([best] if best else []) + [o for o in self.symobjs if o is not best]
        a = addr.z()
        for o in order:
            b = o.base.z(); s = z(o.size, 64)
            if self.valid(z3.And(z3.UGE(a, b), z3.ULE(a, b + s))):
                return o
        return None

    def res_sym(self, addr, n, write):
        al = self.anchor.get(addr.t)
        off = s64(addr.c)
        hops = 0
        while al is not None and al[0] == "alias":
            off += al[2]; addr = Lin(off & M64, al[1]); al = self.anchor.get(addr.t); hops += 1
        if al is None:
            o = self.sobj_of(addr)
            if o is None:
                # a symbolic address which is really one of few concrete ones?
                zz = addr.z()
                r = self.try_concrete(zz)
                if r is not None:
                    return self.res(r, n, write)
                self.fail("memory", "%s of %d bytes at an address not always inside one object" % ("write" if write else "read", n))
            al = ("obj", o)
            self.anchor[addr.t] = al
        o = al[1]
        if not o.alive:
            self.fail("use-after-free", "%s of %d bytes in %s (%s) already released%s" % ("write" if write else "read", n, o.kind, o.name, " at " + o.freed_at if o.freed_at else ""))
        seg = o.segs.get(addr.t)
        if seg is None:
            seg = Seg(addr.t); o.segs[addr.t] = seg
        if seg.lo is None or off < seg.lo or off + n > seg.hi:
            r = self.extend(o, seg, off, off + n, write)
            if r is not None:
                return self.res_sym(r, n, write)
        elif o.ranges and write and (off, n) not in seg.ok:
            T = seg.T.z()
            self.check_ranges(o, T + z3.BitVecVal(off & M64, 64), T + z3.BitVecVal((off + n) & M64, 64), n)
            seg.ok.add((off, n))
        return o, seg.cells, off

    def hit_stack(self, o, rr, n, model=None):
        """a write of n bytes falls into the machine stack rr of a context"""
        c = rr[2]
        if c.state == "dead":
            o.ranges.remove(rr); return
        if c.state in ("run", "blocked") or c is self.cur:
            self.fail("stack-overlap", "write of %d bytes inside the machine stack of the running context %s" % (n, c.name), model)
        self.kill(c)       # resuming it later is reported
        o.ranges.remove(rr)

    def check_ranges(self, o, A, B, n):
        for rr in list(o.ranges or ()):
            rl, rh, cx = rr
            if cx.state == "dead":
                o.ranges.remove(rr); continue
            if not self.decide(z3.Or(z3.ULE(B, z(rl, 64)), z3.UGE(A, z(rh, 64)))):
                self.hit_stack(o, rr, n)

    def try_concrete(self, e):
        if self.check() != z3.sat: raise Infeasible()
        m = self.solver.model()
        v = m.eval(e, model_completion=True).as_long()
        if self.valid(e == z3.BitVecVal(v, 64)):
            return v
        # a small set of concrete addresses?
        if self.opts.get("ptr_fork", 12):
            s = z3.Solver(); 
            vals = [v]
            self.solver.push()
            self.solver.add(e != v)
            while len(vals) < 13:
                if self.check() != z3.sat: break
                v2 = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(v2); self.solver.add(e != v2)
            full = len(vals) >= 13
            self.solver.pop(); self.model = None
            if not full:
                return self.concretize(e, 64, 16, "pointer")
        return None

    def extend(self, o, seg, lo, hi, write):
        nlo = lo if seg.lo is None else min(lo, seg.lo)
        nhi = hi if seg.hi is None else max(hi, seg.hi)
        T = seg.T.z()
        A = T + z3.BitVecVal(lo & M64, 64); B = T + z3.BitVecVal(hi & M64, 64)
        b = o.base.z(); e = b + z(o.size, 64)
        what = "write" if write else "read"
        c = z3.And(z3.UGE(A, b), z3.ULE(B, e), z3.ULE(A, B))
        if not self.valid(c):
            self.check(z3.Not(c))
            self.fail("out-of-bounds", "%s of %d bytes can fall outside %s (%s)" % (what, hi - lo, o.kind, o.name), self.solver.model())
        for st, s2 in list(o.segs.items()):
            if s2 is seg or s2.lo is None: continue
            A2 = s2.T.z() + z3.BitVecVal(s2.lo & M64, 64); B2 = s2.T.z() + z3.BitVecVal(s2.hi & M64, 64)
            c = z3.Or(z3.ULE(B, A2), z3.ULE(B2, A))
            if not self.valid(c):
                if self.check() != z3.sat: raise Infeasible()
                d = z3.simplify(T - s2.T.z())
                dv = self.solver.model().eval(d, model_completion=True).as_long()
                if seg.lo is None and self.valid(d == z3.BitVecVal(dv, 64)):
                    self.anchor[seg.terms] = ("alias", s2.terms, s64(dv))
                    del o.segs[seg.terms]
                    return Lin((s64(dv) + lo) & M64, s2.terms)
                # only the individual cells matter
                for k, (n2, _) in s2.cells.items():
                    a2 = s2.T.z() + z3.BitVecVal(k & M64, 64); b2 = a2 + n2
                    c = z3.Or(z3.ULE(B, a2), z3.ULE(b2, A))
                    if not self.valid(c):
                        self.check(z3.Not(c))
                        self.fail("overlap", "%s of %d bytes can overlap other live data in %s" % (what, hi - lo, o.name), self.solver.model())
        if write and o.ranges:
            self.check_ranges(o, A, B, hi - lo)
            seg.ok.add((lo, hi - lo))
        seg.lo = nlo; seg.hi = nhi
        return None

    def add_range(self, o, lo, hi, cx):
        """register [lo,hi) as a live machine stack inside o"""
        if not o.sym:
            for k in [k for k, (n, _) in o.cells.items() if o.base + k < hi and o.base + k + n > lo]:
                del o.cells[k]
            o.ranges = (o.ranges or []) + [(lo, hi, cx)]
            return
        zl = z(lo, 64); zh = z(hi, 64)
        for seg in o.segs.values():
            if seg.lo is None: continue
            T = seg.T.z()
            keep = {}
            for k, (n, v) in seg.cells.items():
                a = T + z3.BitVecVal(k & M64, 64)
                if self.valid(z3.Or(z3.ULE(a + n, zl), z3.UGE(a, zh))):
                    keep[k] = (n, v)
            seg.cells = keep
            seg.ok = set()
            if keep:
                seg.lo = min(keep); seg.hi = max(k + n for k, (n, _) in keep.items())
            else:
                seg.lo = seg.hi = None
        o.ranges = (o.ranges or []) + [(lo, hi, cx)]

    # ------------------------------------------------------------------ bytes
    def byte(self, o, cells, p):
        for s in range(p, p - 64, -1):
            c = cells.get(s)
            if c is not None:
                if s + c[0] > p:
                    k = p - s
                    v = c[1]
                    if type(v) is int:
                        return (v >> (8 * k)) & 0xff
                    zz = z(v, c[0] * 8)
                    return fromz(z3.simplify(z3.Extract(8 * k + 7, 8 * k, zz)), 8)
                break
        return None

    def rd(self, o, cells, off, n):
        c = cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        bs = [self.byte(o, cells, off + k) for k in range(n)]
        if o.zero:
            bs = [0 if b is None else b for b in bs]
        if all(b is None for b in bs):
            nm = "uninit_%d_%s_%d" % (o.id, "s" if o.sym else "c", off)
            v = self.fresh(nm, n * 8)
            base = v.z() if isinstance(v, Lin) else v
            self.uninit[base.get_id()] = "%s %s+%d" % (o.kind, o.name, off)
            self.keep.append(base)
            cells[off] = (n, v)
            return v
        for k in range(n):
            if bs[k] is None:
                bs[k] = self.fresh("uninit_%d_%d" % (o.id, off + k), 8)
                self.uninit[bs[k].get_id()] = "%s %s+%d" % (o.kind, o.name, off + k)
                self.keep.append(bs[k])
        if all(type(b) is int for b in bs):
            r = 0
            for k in range(n): r |= bs[k] << (8 * k)
            return r
        e = z3.Concat(*[z(b, 8) for b in reversed(bs)]) if n > 1 else bs[0]
        return fromz(z3.simplify(e), n * 8)

    def wr(self, o, cells, off, n, v):
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # split overlapping cells
        for s in range(off - 15, off + n):
            c = cells.get(s)
            if c is None: continue
            m = c[0]
            if s + m <= off: continue
            del cells[s]
            if s < off:
                for k in range(s, off):
                    cells[k] = (1, self.part(c, k - s))
            if s + m > off + n:
                for k in range(off + n, s + m):
                    cells[k] = (1, self.part(c, k - s))
        cells[off] = (n, v)

    def part(self, c, k):
        v = c[1]
        if type(v) is int: return (v >> (8 * k)) & 0xff
        return fromz(z3.simplify(z3.Extract(8 * k + 7, 8 * k, z(v, c[0] * 8))), 8)

    def load(self, addr, t):
        if t[0] == 'i':
            w = t[1]; n = (w + 7) >> 3
            o, cells, off = self.res(addr, n, False)
            c = cells.get(off)
            v = c[1] if c is not None and c[0] == n else self.rd(o, cells, off, n)
            if w & 7:
                return trunc(v, n * 8, w)
            if type(v) is z3.BoolRef:
                v = z(v, w)
            return v
        if t[0] == 's':
            return tuple(self.load(binop(8, addr, off, 64), et) for off, et in t[1])
        raise Unsupported("load type %r" % (t,))

    def store(self, addr, t, v):
        if t[0] == 'i':
            w = t[1]; n = (w + 7) >> 3
            if w & 7:
                v = zext(v, w, n * 8)
            o, cells, off = self.res(addr, n, True)
            c = cells.get(off)
            if c is not None and c[0] == n:
                cells[off] = (n, v)
            else:
                self.wr(o, cells, off, n, v)
            return
        if t[0] == 's':
            for (off, et), x in zip(t[1], v):
                self.store(binop(8, addr, off, 64), et, x)
            return
        raise Unsupported("store type %r" % (t,))

    def ld(self, addr, n): return self.load(addr, ('i', n * 8))
    def st(self, addr, n, v): self.store(addr, ('i', n * 8), v)

    def memcpy(self, d, s, n):
        n = self.concretize(n, 64, 64, "memcpy length")
        if n == 0: return
        so, sc, soff = self.res(s, n, False)
        do, dc, doff = self.res(d, n, True)
        cp = []
        k = soff
        end = soff + n
        # partial cell at the front
        starts = sorted(x for x in sc if soff - 15 <= x < end) if len(sc) < 4 * n else [x for x in range(soff - 15, end) if x in sc]
        covered = []
        for x in starts:
            m, v = sc[x]
            if x + m <= soff: continue
            if x >= soff and x + m <= end:
                cp.append((x - soff, m, v))
            else:
                for j in range(max(x, soff), min(x + m, end)):
                    cp.append((j - soff, 1, self.part((m, v), j - x)))
        # clear destination
        for x in ([y for y in dc if doff - 15 <= y < doff + n] if len(dc) < 4 * n else [y for y in range(doff - 15, doff + n) if y in dc]):
            m, v = dc[x]
            if x + m <= doff: continue
            del dc[x]
            for j in range(x, x + m):
                if j < doff or j >= doff + n:
                    dc[j] = (1, self.part((m, v), j - x))
        for a, m, v in cp:
            dc[doff + a] = (m, v)
        if so.zero and not do.zero:
            have = set()
            for a, m, v in cp:
                have.update(range(a, a + m))
            for a in range(n):
                if a not in have: dc[doff + a] = (1, 0)
        elif do.zero and not so.zero and len(cp) == 0:
            pass

    def memset(self, d, v, n):
        n = self.concretize(n, 64, 64, "memset length")
        if n == 0: return
        o, cells, off = self.res(d, n, True)
        if type(v) is not int:
            v = self.concretize(v, 8)
        v &= 0xff
        k = 0
        while k < n:
            m = 8 if n - k >= 8 else 1
            self.wr(o, cells, off + k, m, int.from_bytes(bytes([v]) * m, "little"))
            k += m

    # ------------------------------------------------------------------ heap
    def alloc(self, size, kind, name=""):
        if type(size) is not int:
            s = lin(size)
            if type(s) is int: size = s
        if type(size) is int:
            o = self.new_obj(size, kind, name)
        else:
            self.assume(z3.ULE(z(size, 64), MAXSIZE))
            o = self.new_sym_obj(size, kind, name or kind, 4096 if kind == "mmap" else 16)
        return o

    def obj_at_base(self, p):
        """object whose base is p, proven"""
        p = lin(p)
        if type(p) is int:
            o = self.find(p)
            if o is not None and o.base == p: return o
            return None
        for o in self.symobjs:
            d = lsub(p, o.base)
            if d == 0: return o
        for o in self.symobjs:
            if self.valid(p.z() == o.base.z()): return o
        r = self.try_concrete(p.z())
        if r is not None: return self.obj_at_base(r)
        return None

    def free(self, p, kinds, what):
        p = lin(p)
        if type(p) is int and p == 0:
            return
        o = self.obj_at_base(p)
        if o is None:
            self.fail("bad-free", "%s of a pointer that is not the start of a block" % what)
        if not o.alive:
            self.fail("double-free", "%s of a block already released%s" % (what, " at " + o.freed_at if o.freed_at else ""))
        if o.kind not in kinds:
            self.fail("bad-free", "%s of a block obtained as %s" % (what, o.kind))
        self.release(o)

    def release(self, o):
        if self.par is not None: self.par.freed(o)
        o.alive = False
        w = self.where()
        o.freed_at = w.split(" <- ")[0]
        if o.ranges:
            for lo, hi, c in o.ranges:
                if c is self.cur:
                    o.alive = True
                    self.fail("stack-in-use", "the stack of the running context %s is released while it runs on it" % c.name)
                self.kill(c)
            o.ranges = None
        for k, c in list(self.uctx.items()):
            pass

    def kill(self, c):
        if c.state in ("dead",): return
        c.state = "dead"
        for fr in c.frames:
            for oid in fr.allocs:
                ob = self.objs.get(oid)
                if ob: ob.alive = False; ob.freed_at = "stack release"
        c.frames = []

    # ------------------------------------------------------------------ calls
    def push(self, F, args, cb=None):
        if F.decl:
            raise Unsupported("call to undefined function " + F.name)
        env = F.slots.copy()
        env[:len(args)] = args
        fr = Frame(F, env)
        fr.cb = cb
        frames = self.cur.frames
        frames.append(fr)
        if F.ns: self.fns_run.add(F.name)
        if len(frames) > self.max_depth:
            raise Unsupported("call depth bound exceeded")
        return fr

    def fn_at(self, a):
        if type(a) is not int:
            a = self.concretize(lin(a), 64, 8, "function pointer")
        F = self.mod.by_addr.get(a)
        if F is None or not hasattr(F, "blocks") and not hasattr(F, "nargs"):
            self.fail("memory", "call through invalid function pointer 0x%x" % a)
        return F

    def invoke_addr(self, a, args, cb=None):
        """call an IR function pointer (or intrinsic) from the runtime; cb(value) runs on return"""
        F = self.fn_at(a)
        h = self.intr.get(F.name)
        if h is not None and F.decl:
            r = h(self, args, None)
            if r is CTRL: return CTRL
            if cb: return cb(r)
            return r
        self.push(F, args, cb)
        return CTRL

    def ret_value(self, v):
        """a value returned to the topmost frame's pending call (frame below was popped)"""
        frames = self.cur.frames
        fr = frames[-1]
        ins = fr.pending
        fr.pending = None
        fr.env[ins[1]] = v
        if ins[0] == 5:
            self.jump(fr, ins[8])

    def jump(self, fr, b):
        ph = fr.fn.phis[b]
        if ph:
            l = ph[fr.bi]
            env = fr.env
            if len(l) == 1:
                env[l[0][0]] = env[l[0][1]]
            else:
                vals = [env[s] for _, s in l]
                for (d, _), v in zip(l, vals):
                    env[d] = v
        fr.bi = b; fr.ii = 0

    def popframe(self):
        fr = self.cur.frames.pop()
        objs = self.objs
        for i in fr.allocs:
            objs[i].alive = False
            objs[i].freed_at = "return of " + fr.fn.name
            objs[i].cells = None
        return fr

    # ------------------------------------------------------------------ main loop
    def start(self):
        root = Ctx("main", "root"); root.tid = 0
        self.cur = root
        self.ctxs.append(root)
        self.root = root

    def run(self):
        self.start()
        F = self.mod.fn_by_name.get(self.entry)
        if F is None: raise Unsupported("no entry " + self.entry)
        self.phase = list(self.mod.ctors)
        self.main_result = None
        self.next_phase()
        self.loop()

    def next_phase(self):
        if self.phase:
            prio, a = self.phase.pop(0)
            if a:
                self.push(self.mod.by_addr[a], [], lambda v: self.next_phase())
                return
            return self.next_phase()
        self.push(self.mod.fn_by_name[self.entry], [0, 0][:self.mod.fn_by_name[self.entry].nargs], self.main_done)

    def main_done(self, v):
        self.events.append(("main-returned", 0))
        self.run_exit(0)

    def run_exit(self, tid):
        """std::exit() of that thread: its thread_local objects, then the static ones, on the current stack"""
        if self.state.get("exiting"): self.fail("assert", "exit() while the process exits")
        self.state["exiting"] = True
        self.run_atexit(tid, lambda: self.run_atexit("process", lambda: self.finish()))

    def run_atexit(self, tid, k):
        l = self.atexit.get(tid) or []
        if l:
            f, a = l.pop()
            r = self.invoke_addr(f, [a], lambda v: self.run_atexit(tid, k))
            return r
        k()

    def finish(self):
        h = self.state.get("at_finish")
        self.rt.final_checks(self)
        raise PathEnd("done")

    def loop(self):
        while True:
            frames = self.cur.frames
            fr = frames[-1]
            par = self.par
            code = fr.fn.blocks
            env = fr.env
            steps = 0
            cur = self.cur
            blk = code[fr.bi]
            try:
              while True:
                ins = blk[fr.ii]
                fr.ii += 1
                steps += 1
                op = ins[0]
                if op == 27:
                    if par is not None and par.access(fr, env[ins[2]], False, ins[4]): break
                    env[ins[1]] = self.load(env[ins[2]], ins[3])
                elif op == 28:
                    if par is not None and par.access(fr, env[ins[3]], True, ins[5]): break
                    self.store(env[ins[3]], ins[4], env[ins[2]])
                elif op == 29:
                    a = env[ins[2]]
                    if type(a) is int:
                        a = (a + ins[3]) & M64
                    elif ins[3]:
                        a = binop(8, a, ins[3], 64)
                    for s, sc, w in ins[4]:
                        i = env[s]
                        if w != 64: i = sext(i, w, 64)
                        a = binop(8, a, binop(12, i, sc, 64), 64)
                    env[ins[1]] = a
                elif op == 45 or op == 5:
                    fr.pending = ins
                    self.call(fr, ins)
                    if self.cur is not cur or self.cur.frames[-1] is not fr:
                        break
                    blk = code[fr.bi]
                elif op == 2:
                    self.jump(fr, ins[2]); blk = code[fr.bi]
                elif op == 200:
                    c = env[ins[2]]
                    if type(c) is not int:
                        c = self.decide(tobool(c))
                    self.jump(fr, ins[3] if c & 1 else ins[4]); blk = code[fr.bi]
                elif op == 42:
                    env[ins[1]] = icmp(ins[2], env[ins[3]], env[ins[4]], ins[5])
                elif op == 41:
                    env[ins[1]] = env[ins[2]]
                elif op == 1:
                    v = env[ins[2]] if ins[2] is not None else 0
                    self.do_ret(v)
                    break
                elif op == 26:
                    n = env[ins[3]]
                    n = n if type(n) is int else self.concretize(n, 64)
                    o = self.new_obj(ins[2] * n, "local", fr.fn.name)
                    fr.allocs.append(o.id)
                    env[ins[1]] = o.base
                elif op == 30:
                    env[ins[1]] = trunc(env[ins[2]], ins[3], ins[4])
                elif op == 31:
                    env[ins[1]] = zext(env[ins[2]], ins[3], ins[4])
                elif op == 32:
                    env[ins[1]] = sext(env[ins[2]], ins[3], ins[4])
                elif op == 46:
                    c = env[ins[2]]
                    if type(c) is not int:
                        x = env[ins[3]]; y = env[ins[4]]
                        if ins[5][0] == 'i' and ins[5][1] not in (64, 1) and not isinstance(x, tuple):
                            w = ins[5][1]
                            env[ins[1]] = fromz(z3.simplify(z3.If(tobool(c), z(x, w), z(y, w))), w)
                            continue
                        if ins[5] == ('i', 1):
                            bx = tobool(x); by = tobool(y)
                            env[ins[1]] = fromz(z3.simplify(z3.If(tobool(c), bx if not isinstance(bx, bool) else z3.BoolVal(bx), by if not isinstance(by, bool) else z3.BoolVal(by))), 1)
                            continue
                        c = int(self.decide(tobool(c)))
                    env[ins[1]] = env[ins[3]] if c & 1 else env[ins[4]]
                elif op == 3:
                    v = env[ins[2]]
                    if type(v) is int:
                        for k, b in ins[5]:
                            if k == v:
                                break
                        else:
                            b = ins[4]
                    else:
                        for k, b in ins[5]:
                            if self.decide(z(v, ins[3]) == z3.BitVecVal(k, ins[3])):
                                break
                        else:
                            b = ins[4]
                    self.jump(fr, b); blk = code[fr.bi]
                elif 8 <= op <= 25:
                    a = env[ins[2]]; b = env[ins[3]]
                    if op in (14, 15, 17, 18):
                        if type(b) is int:
                            if b == 0: self.fail("division", "division by zero")
                        elif self.decide(z(b, ins[4]) == 0):
                            self.fail("division", "division by zero")
                    env[ins[1]] = self.small_quotient(a, b) if op == 14 and ins[4] == 64 and type(b) is not int else binop(op, a, b, ins[4])
                elif op == 300:
                    env[ins[1]] = fp.arith(ins[2], env[ins[3]], env[ins[4]], ins[5])
                elif op == 301:
                    env[ins[1]] = fp.convert(ins[2], env[ins[3]], ins[4], ins[5])
                elif op == 302:
                    env[ins[1]] = fp.compare(ins[2], env[ins[3]], env[ins[4]], ins[5])
                elif op == 53:
                    v = env[ins[2]]
                    for i in ins[3]: v = v[i]
                    env[ins[1]] = v
                elif op == 54:
                    env[ins[1]] = self.insval(env[ins[2]], env[ins[3]], ins[4])
                elif op == 58:
                    e = env[ins[2]]
                    self.resume_exc(fr, e)
                    break
                elif op == 59:
                    pass      # value was set by the unwinder
                elif op == 7:
                    self.fail("unreachable", "unreachable code is reached")
                elif op == 55:
                    if par is not None: par.fence(ins[2])
                elif op == 57:
                    t = ins[5]
                    if par is not None and par.access(fr, env[ins[3]], True, ins[6], True): break
                    old = self.load(env[ins[3]], t)
                    v = env[ins[4]]
                    w = t[1]
                    o2 = ins[2]
                    if o2 == 0: nv = v
                    elif o2 == 1: nv = binop(8, old, v, w)
                    elif o2 == 2: nv = binop(10, old, v, w)
                    elif o2 == 3: nv = binop(23, old, v, w)
                    elif o2 == 5: nv = binop(24, old, v, w)
                    elif o2 == 6: nv = binop(25, old, v, w)
                    else: raise Unsupported("atomicrmw %d" % o2)
                    self.store(env[ins[3]], t, nv)
                    env[ins[1]] = old
                elif op == 56:
                    t = ins[5]
                    if par is not None and par.access(fr, env[ins[2]], True, ins[6], True): break
                    old = self.load(env[ins[2]], t)
                    eq = icmp(32, old, env[ins[3]], t[1])
                    if type(eq) is not int: eq = int(self.decide(eq))
                    if eq: self.store(env[ins[2]], t, env[ins[4]])
                    env[ins[1]] = (old, eq)
                else:
                    raise Unsupported("instruction %r in %s" % (ins, fr.fn.name))
            finally:
                self.steps += steps
            if self.steps > self.max_steps:
                raise Unsupported("step bound exceeded")

    def insval(self, agg, v, idx):
        l = list(agg)
        if len(idx) == 1: l[idx[0]] = v
        else: l[idx[0]] = self.insval(l[idx[0]], v, idx[1:])
        return tuple(l)

    def do_ret(self, v):
        fr = self.popframe()
        if fr.cb is not None:
            r = fr.cb(v)
            return
        if not self.cur.frames:
            self.rt.ctx_returned(self, v)
            return
        self.ret_value(v)

    def call(self, fr, ins):
        name = ins[2]
        env = fr.env
        if name is not None:
            h = self.intr.get(name)
            if h is None:
                F = self.mod.fn_by_name[name]
                if F.decl:
                    h = self.rt.lookup(name)
                    if h is None:
                        raise Unsupported("external function " + name)
                    self.intr[name] = h
        else:
            t = env[ins[3]]
            if type(t) is tuple and t and t[0] == 'asm':
                r = self.rt.inline_asm(self, t, [env[a] for a in ins[4]])
                self.done_call(fr, ins, r)
                return
            F = self.fn_at(t)
            h = self.intr.get(F.name) if F.decl or F.name in self.rt.OVERRIDE else None
            if h is None and F.decl:
                h = self.rt.lookup(F.name)
                if h is None: raise Unsupported("external function " + F.name)
        args = [env[a] for a in ins[4]]
        if h is not None:
            r = h(self, args, ins)
            if r is not CTRL:
                self.done_call(fr, ins, r)
            return
        byv = ins[5]
        nf = None
        if byv:
            cps = []
            for k, sz in byv:
                o = self.new_obj(sz, "local", "byval")
                self.memcpy(o.base, args[k], sz)
                args[k] = o.base
                cps.append(o.id)
        n = F.nargs
        if len(args) > n:
            args = args[:n]
        elif len(args) < n:
            args += [0] * (n - len(args))
        nf = self.push(F, args)
        if byv: nf.allocs.extend(cps)

    def done_call(self, fr, ins, r):
        fr.pending = None
        fr.env[ins[1]] = r
        if ins[0] == 5:
            self.jump(fr, ins[8])

    # ------------------------------------------------------------------ exceptions
    def ti_match(self, thrown, catch):
        if catch == 0 or thrown == catch: return True
        return catch in self.ti_bases(thrown)

    def ti_bases(self, ti, seen=None):
        r = set()
        G = self.mod.by_addr.get(ti)
        if G is None: return r
        if G.decl:
            names = self.rt.STD_BASES.get(G.name, ())
            for n in names:
                g2 = self.mod.globals.get(n)
                if g2: r.add(g2.addr)
            return r
        for off, sz, v in G.init:
            if off >= 16 and off % 8 == 0:
                g2 = self.mod.by_addr.get(v)
                if g2 is not None and hasattr(g2, "name") and g2.name.startswith("_ZTI"):
                    r.add(v); r |= self.ti_bases(v)
        return r

    def typeid_for(self, ti):
        return (ti >> OBJ_SHIFT) & 0x7fffffff if ti else 0x7ffffff0

    def match_lpad(self, fr, exc):
        """-> (kind, selector) of the landing pad of the pending invoke in fr, or None"""
        ins = fr.pending
        if ins is None or ins[0] != 5: return None
        b = ins[9]
        for li in fr.fn.blocks[b]:
            if li[0] == 59: break
        else:
            raise Unsupported("no landingpad")
        for kind, c in li[2]:
            if kind == 'catch':
                if self.ti_match(exc.ti, c):
                    return ('catch', self.typeid_for(c), li)
            else:
                if not any(self.ti_match(exc.ti, t) for t in c):
                    return ('catch', M64 & 0xffffffff, li)
        if li[3]:
            return ('cleanup', 0, li)
        return ('none', 0, li)

    def throw(self, exc):
        """raise exc in the current context"""
        frames = self.cur.frames
        found = None
        for k in range(len(frames) - 1, -1, -1):
            fr = frames[k]
            m = self.match_lpad(fr, exc)
            if m and m[0] == 'catch':
                found = k; break
            if fr.bar:
                break
        if found is None:
            self.rt.terminate(self, "uncaught exception " + self.tiname(exc.ti))
            return CTRL
        exc.inflight = True
        self.unwind(exc)
        return CTRL

    def tiname(self, ti):
        G = self.mod.by_addr.get(ti)
        return G.name if G is not None else hex(ti)

    def unwind(self, exc):
        frames = self.cur.frames
        while True:
            fr = frames[-1]
            m = self.match_lpad(fr, exc)
            if m and m[0] != 'none':
                ins = fr.pending
                fr.pending = None
                li = m[2]
                fr.env[li[1]] = (exc.addr, m[1])
                self.jump(fr, ins[9])
                return
            self.popframe()
            if not frames:
                raise Unsupported("unwound off the stack")

    def resume_exc(self, fr, e):
        exc = self.exc.get(e[0])
        if exc is None:
            self.fail("exception", "resume of an unknown exception")
        self.popframe()
        if not self.cur.frames:
            raise Unsupported("unwound off the stack")
        # search again from here (phase 1 was done at throw time)
        frames = self.cur.frames
        for k in range(len(frames) - 1, -1, -1):
            m = self.match_lpad(frames[k], exc)
            if m and m[0] == 'catch': break
            if frames[k].bar: 
                self.rt.terminate(self, "uncaught exception"); return
        else:
            self.rt.terminate(self, "uncaught exception"); return
        self.unwind(exc)

def vars_of(e):
    seen = set(); st = [e]; out = []
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if x.num_args() == 0:
            out.append(i)
        else:
            st.extend(x.children())
    return out
