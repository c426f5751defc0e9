"""Symbolic machine for the assembled switch code: memory, state, solver access, path exploration.
Addresses are always (variable + constant); everything else is abstracted into fresh variables that stay constrained in the solver."""
import z3, time

class Violation(Exception):
    def __init__(self, tags, msg, model=None, st=None):
        Exception.__init__(self, msg); self.tags = tags; self.msg = msg; self.model = model
class Unsupported(Exception): pass
class Derailed(Exception): pass

def bv(v, w): return z3.BitVecVal(v, w) if isinstance(v, int) else v
def const(e):
    if isinstance(e, int): return e
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else None

def free_ids(e):
    out = set(); todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(str(x))
        todo.extend(x.children())
    return out

class Ctx:
    """one path: solver, decisions, statistics"""
    def __init__(self, decisions):
        self.cons = []; self.comp = {}; self.members = {}; self.solvers = {}; self.solver = None; self.ids = {}
        self.dec = list(decisions); self.nd = 0; self.alts = []
        self.queries = 0; self.time = 0.0; self.checks = 0; self.steps = 0; self.n = 0; self.fns = set(); self.fails = []; self.named = []
        self.cache = {}; self.ors = []; self.wins = []; self.wcache = {}; self.mcache = {}; self.origin = {}
    def fresh(self, name, w):
        self.n += 1
        v = z3.BitVec("%s!%d" % (name, self.n), w); self.named.append(v); return v
    # the path condition is kept in groups of constraints that share variables; a question is put to the groups it mentions
    # (the other groups are satisfiable by themselves, so they cannot change the answer)
    def idsof(self, e):
        k = e.get_id()
        if k not in self.ids: self.ids[k] = (frozenset(free_ids(e)), e)
        return self.ids[k][0]
    def add(self, c):
        n = len(self.cons); vs = self.idsof(c); self.cons.append(c); self.cache.clear()
        old = {self.comp[v] for v in vs if v in self.comp}
        if len(old) == 1:
            g = old.pop(); self.members[g].append(n)
            if g in self.solvers: self.solvers[g].add(c)
        else:
            g = "g%d" % n; self.members[g] = sorted(x for o in old for x in self.members.pop(o)) + [n]
            for o in old: self.solvers.pop(o, None)
            for v, o in list(self.comp.items()):
                if o in old: self.comp[v] = g
        for v in vs: self.comp[v] = g
    def make(self, groups):
        s = z3.Solver(); s.set("timeout", 60000)
        for g in groups:
            for n in self.members[g]: s.add(self.cons[n])
        return s
    def sat(self, *c):
        t = time.time(); vs = set()
        for x in c: vs |= self.idsof(x)
        gs = sorted({self.comp[v] for v in vs if v in self.comp}) if c else sorted(self.members)
        if len(gs) == 1:
            if gs[0] not in self.solvers: self.solvers[gs[0]] = self.make(gs)
            s = self.solvers[gs[0]]
        else: s = self.make(gs)
        r = s.check(*c); self.time += time.time() - t; self.queries += 1; self.solver = s
        if r == z3.unknown: raise Unsupported("solver gave up: " + s.reason_unknown())
        return r == z3.sat
    def model(self, *c):
        """a model of the whole path condition"""
        s = self.make(sorted(self.members))
        if s.check(*c) != z3.sat: raise Unsupported("no model of the whole path")
        return s.model()
    def valid(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return not self.sat()
        k = c.get_id()
        if k in self.cache: return self.cache[k][0]
        r = not self.sat(z3.Not(c))
        if not r and self.ors:        # only then look at which memory ranges are apart from which
            r = not self.sat(z3.Not(c), *self.ors)
        self.cache[k] = (r, c); return r
    def close(self, ids):
        out = set(ids)
        for _ in range(4):
            for x in list(out): out |= self.origin.get(x, set())
        return out
    def derive(self, v, src): self.origin[str(v)] = free_ids(src)
    def split(self, a):
        if z3.is_add(a) and z3.is_bv_value(a.arg(0)):
            r = a.children()[1:]; base = r[0]
            for x in r[1:]: base = base + x
            return base, a.arg(0).as_signed_long()
        return a, 0
    def margins(self, base):
        """window of a base address and how far the window reaches below and above it (proved once)"""
        k = base.get_id()
        if k in self.mcache: return self.mcache[k][0]
        vs = self.close(free_ids(base)); r = None; w = base.size()
        for i, (lo, hi, ids) in sorted(enumerate(self.wins), key=lambda x: (-len(vs & x[1][2]), x[0])):
            if not self.sat(z3.Not(z3.And(z3.ULE(lo, base), z3.ULE(base, hi)))):
                L = U = 0
                for c in (8192, 4096, 2048, 1024, 512, 256):
                    if not self.sat(z3.Not(z3.UGE(base - lo, bv(c, w)))): L = c; break
                for c in (8192, 4096, 2048, 1024, 512, 256):
                    if not self.sat(z3.Not(z3.UGE(hi - base, bv(c, w)))): U = c; break
                r = (i, L, U); break
        if r is not None or True: self.mcache[k] = (r, base, len(self.wins))
        return r
    def window_of(self, a, n):
        """the memory range (one owner each, apart from all others) that holds [a,a+n)"""
        base, off = self.split(a)
        k = base.get_id()
        if k in self.mcache and self.mcache[k][0] is None and self.mcache[k][2] != len(self.wins): del self.mcache[k]
        m = self.margins(base)
        if m is not None:
            if -m[1] <= off and off + n <= m[2]: return m[0]
        k = (a.get_id(), n)
        if k in self.wcache and (self.wcache[k][0] is not None or self.wcache[k][2] == len(self.wins)): return self.wcache[k][0]
        vs = self.close(free_ids(a)); r = None
        for i, (lo, hi, ids) in sorted(enumerate(self.wins), key=lambda x: (-len(vs & x[1][2]), x[0])):
            if not self.sat(z3.Not(z3.And(z3.ULE(lo, a), z3.ULE(a, a + n), z3.ULE(a + n, hi)))): r = i; break
        self.wcache[k] = (r, a, len(self.wins)); return r
    def decide(self, c):
        """branch: follow the recorded decision, otherwise whatever is feasible"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.valid(c): return True
        if self.valid(z3.Not(c)): return False
        if self.nd < len(self.dec): d = self.dec[self.nd]
        else:
            d = True; self.alts.append(self.dec[:self.nd] + [False]); self.dec.append(True)
        self.nd += 1
        self.add(c if d else z3.Not(c)); return d
    def must(self, c, tags, msg):
        """an assertion: recorded as failed when the solver finds a counterexample"""
        self.checks += 1
        if isinstance(c, bool): c = z3.BoolVal(c)
        if self.valid(c): return True
        m = self.model(z3.Not(c), *self.ors)
        self.fails.append((tuple(tags.split()), msg, {str(d): m[d].as_long() for d in m.decls() if z3.is_bv_value(m[d])}, c))
        return False

class Mem:
    """byte addressed memory: entries (addr, size, value) in write order; unknown content becomes a fresh variable on first use"""
    def __init__(self, cx, aw, big):
        self.cx = cx; self.aw = aw; self.big = big; self.ent = []; self.log = []; self.image = {}
    def split(self, a):
        a = z3.simplify(bv(a, self.aw))
        if z3.is_bv_value(a): return (None, a.as_long())
        if z3.is_add(a) and z3.is_bv_value(a.arg(0)):
            rest = a.children()[1:]
            off = a.arg(0).as_signed_long()
            base = rest[0]
            for r in rest[1:]: base = base + r
            return (base, off)
        return (a, 0)
    def rel(self, a, b):
        """difference a-b if it is a constant"""
        d = z3.simplify(bv(a, self.aw) - bv(b, self.aw))
        if z3.is_bv_value(d): return d.as_signed_long()
        return None
    def apart(self, a, n, b, m):
        k = self.rel(a, b)
        if k is not None: return k >= m or -k >= n
        x, y = self.cx.window_of(a, n), self.cx.window_of(b, m)
        if x is not None and y is not None and x != y: return True
        d = a - b
        return self.cx.valid(z3.And(z3.UGE(d, bv(m, self.aw)), z3.UGE(-d, bv(n, self.aw))))
    def write(self, a, n, v, who=""):
        a = z3.simplify(bv(a, self.aw)); self.log.append(("w", a, n, who))
        self.ent.append((a, n, z3.simplify(v)))
    def read(self, a, n, who="", note=True):
        a = z3.simplify(bv(a, self.aw))
        if note: self.log.append(("r", a, n, who))
        if z3.is_bv_value(a):
            x = [self.image.get(a.as_long() + i) for i in range(n)]
            if None not in x: return z3.BitVecVal(int.from_bytes(bytes(x), "big" if self.big else "little"), 8 * n)
        for (b, m, v) in reversed(self.ent):
            k = self.rel(a, b)
            if k is None:
                if self.apart(a, n, b, m): continue
                if self.cx.valid(a == b): k = 0
                else: raise Derailed("cannot tell whether %s and %s are the same memory" % (a, b))
            if k >= m or -k >= n: continue
            if k >= 0 and k + n <= m:
                if k == 0 and n == m: return v
                lo = (m - k - n if self.big else k) * 8
                return z3.simplify(z3.Extract(lo + 8 * n - 1, lo, v))
            # partly covered: byte by byte
            bs = [self.read(a + i, 1, note=False) for i in range(n)]
            return z3.simplify(z3.Concat(*(bs if self.big else bs[::-1])))
        v = self.cx.fresh("mem", 8 * n)
        self.ent.insert(0, (a, n, v)); return v
    def havoc(self, keep):
        """everything outside the (lo, hi) ranges in keep takes arbitrary content"""
        out = []
        for (a, n, v) in self.ent:
            for lo, hi in keep:
                k = self.rel(a, lo); j = self.rel(hi, a)
                if k is not None and j is not None: ok = k >= 0 and j >= n
                else: ok = self.cx.valid(z3.And(z3.ULE(bv(lo, self.aw), a), z3.ULE(a + n, bv(hi, self.aw)), z3.ULE(a, a + n)))
                if ok: out.append((a, n, v)); break
        self.ent = out; self.log = []
    def kill_below(self, lim):
        """memory below the running stack pointer (minus red zone) may be overwritten by a signal handler at any time"""
        self.ent = [(a, n, v) for (a, n, v) in self.ent if not self._below(a, n, lim)]
    def _below(self, a, n, lim):
        k = self.rel(a, lim)
        return k is not None and -65536 < k < 0

class State:
    def __init__(self, cx, mem):
        self.cx = cx; self.mem = mem; self.r = {}; self.pc = None; self.flags = None; self.event = None
