"""The switching contract as a program over the assembled functions.

  A makes a context F; A switches to F (F enters its function); F switches back to A with op1; A switches to F with op2;
  F switches back with op3.  op1..op3 range over {jump, ontop}.  Whenever control leaves the assembler code, every
  register and every byte of memory outside the frames of the suspended contexts takes an arbitrary value."""
import z3
from .core import *

K = 4096      # room for a frame below a stack pointer, and what we look at above it

class Run:
    def __init__(self, abi, img, decisions, ops, opts):
        self.abi = abi; self.img = img; self.ops = ops; self.o = opts
        self.cx = Ctx(decisions); self.st = None; self.wins = []; self.ss = opts.get("ss"); self.trail = []
        self.w = abi.w; self.bias = getattr(abi, "bias", 0); self.fnread = []
    # ---------------------------------------------------------------- basics
    def sym(self, n): return self.cx.fresh(n, self.w)
    def must(self, c, tags, msg): return self.cx.must(c, tags, "%s: %s" % (self.phase, msg))
    def window(self, lo, hi):
        """the memory range [lo,hi) belongs to one owner: apart from all the others"""
        M = 1 << (31 if self.w == 32 else 47)
        self.cx.add(z3.And(z3.UGE(lo, 0x200000), z3.ULT(hi, bv(M - 0x10000, self.w)), z3.ULE(lo, hi)))
        for a, b, _ in self.cx.wins: self.cx.ors.append(z3.Or(z3.ULE(hi, a), z3.ULE(b, lo)))
        self.cx.wins.append((lo, hi, free_ids(lo) | free_ids(hi))); self.cx.cache.clear()
    def fresh_regs(self, who):
        st = self.st; keep = {k: v for k, v in st.r.items() if k.startswith("seg_") or k == "ssp"}
        st.r = dict(keep); self.abi.init_regs(self.cx, st, who); st.flags = None
    def thread(self):
        """the state of the thread that runs now (thread local block, guard)"""
        st = self.st
        for s in self.abi.segs: st.r["seg_" + s] = self.tls[s]
    def guardv(self):
        s, off, n = self.abi.guard
        return self.st.mem.read(self.st.r["seg_" + s] + off, n, note=False)
    def tib(self): return [self.st.mem.read(self.st.r["seg_" + s] + off, n, note=False) for (s, off, n) in self.abi.tibslots]
    def run(self, func, stop, sp_track=True):
        """execute until control reaches one of the stop addresses (terms) or leaves the code"""
        st = self.st; cx = self.cx; abi = self.abi
        if isinstance(func, str):
            a = abi.entry(self.img, abi.prefix + func) if hasattr(abi, "entry") else self.img.syms[abi.prefix + func]
            if hasattr(abi, "at_entry"): abi.at_entry(st, a)
            func = a
        st.pc = bv(func, self.w) if isinstance(func, int) else func
        st.event = None
        lastsp = None; seen = {}
        for _ in range(4000):
            a = const(st.pc)
            if a is None or a not in self.img.code or a in self.stops: return
            i = self.img.code[a]
            seen[a] = seen.get(a, 0) + 1
            if seen[a] > 64: raise Derailed("endless loop at %s" % self.img.where(a))
            cx.steps += 1; self.trail.append(str(i))
            abi.m.step(st, i)
            if st.event: return
            sp = st.r[abi.sp]
            if lastsp is None or lastsp is not sp:
                st.mem.kill_below(z3.simplify(sp - abi.redzone)); lastsp = sp
        raise Derailed("too many steps")
    def where(self):
        a = const(self.st.pc)
        return str(z3.simplify(self.st.pc)) if a is None else self.img.where(a)
    # ---------------------------------------------------------------- footprint
    def footprint(self, tags, allowed_w, allowed_r, what):
        seen = set()
        for k, a, n, who in self.st.mem.log:
            if who in ("call", "argument", "fn result", "fn return address", "fn argument", "fn result pointer", "havoc"): continue
            if const(a) is not None:
                if all(x in self.img.bytes for x in range(const(a), const(a) + n)) and k == "r": continue
            key = (k, a.get_id(), n)
            if key in seen: continue
            seen.add(key)
            if self.ss and ("ssp" in who.split(": ")[-1].split(" ")[0] or who.startswith("shadow")):
                ok = [z3.And(z3.ULE(lo, a), z3.ULE(a + n, hi)) for lo, hi in self.sswin.values()]
                self.must(z3.Or(*ok), tags + " C30", "a shadow stack instruction touches only the shadow stacks (%s)" % who); continue
            ok = [z3.And(z3.ULE(lo, a), z3.ULE(a, a + (n - 1)), z3.ULE(a + n, hi)) for lo, hi in (allowed_w if k == "w" else allowed_r + self.fnread)]
            self.must(z3.Or(*ok), tags, "%s touches only %s (%s: %s)" % ("writing" if k == "w" else "reading", what, who, "store" if k == "w" else "load"))
        self.st.mem.log = []
    def independent(self, e, who, names, msg):
        """the value e must not depend on the registers of the context `who` other than `names`"""
        bad = [v for v in self.freevars(e) if str(v).split("!")[0].startswith(who + ".") and str(v).split("!")[0].split(".")[1] not in names]
        if not bad: return
        e2 = z3.substitute(e, *[(v, self.cx.fresh("other", v.size())) for v in bad])
        self.must(e == e2, "C04", msg)
    def freevars(self, e):
        out = {}; todo = [e]; seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.get_id()] = x
            todo.extend(x.children())
        return list(out.values())
    # ---------------------------------------------------------------- suspended contexts
    def keeplist(self): return [(c.h, c.hi) for c in self.susp.values()] + [x for c in self.susp.values() for x in c.extra] + self.extra_keep()
    def extra_keep(self):
        return [(c.ssh, c.sshi) for c in self.susp.values() if getattr(c, "ssh", None) is not None]
    def leave(self, who):
        """control is outside the library: arbitrary code runs, then context `who` is about to call in"""
        self.st.mem.havoc(self.keeplist()); self.fresh_regs(who)
        if self.o.get("threads", True):
            self.tls = {s: self.sym("tls_" + s) for s in self.abi.segs}
            for s in self.abi.segs: self.window(self.tls[s], self.tls[s] + 8192); self.cx.add(self.tls[s] & 7 == 0)
        self.thread()
        for (s, off, n, f) in getattr(self.abi, "tibself", []):
            self.st.mem.write(self.st.r["seg_" + s] + off, n, self.st.r["seg_" + s], "havoc")
    def spaligned(self, sp): self.cx.add(sp & (self.abi.align - 1) == 0)

    def check_return(self, c, who, tags="C01"):
        """the suspended call of context c returns now"""
        st = self.st
        ok = self.must(st.pc == c.ra, tags + " C02", "the suspended call returns to its own return address (now at %s)" % self.where())
        self.must(self.abi.returned(self.cx, st, c), tags, "the stack pointer is exactly as at the switch")
        for r, v in c.regs.items():
            if r == self.abi.sp or "on-top" in self.phase and r in getattr(self.abi, "jumponly", []): continue
            self.must(self.reg(r) == v, tags, "%s is exactly as at the switch" % r)
            if ok: self.independent(self.reg(r), who, ("_",), "%s does not depend on registers of the resumer" % r)
        if self.abi.guard and c.guard is not None:
            self.must(self.guardv() == c.guard, "C05", "the stack guard is the one at suspension")
        for k, (x, y) in enumerate(zip(self.tib(), c.tib or ())):
            self.must(x == y, tags, "thread information block field %d is the one at suspension" % k)
        self.ss_check(c)
        return ok
    def ss_check(self, c):
        if self.ss: self.must(self.st.r["ssp"] == c.ssp, "C30", "the shadow stack pointer is exactly as at the switch")
    def reg(self, r):
        return self.abi.reg(self.st, r) if hasattr(self.abi, "reg") else self.st.r[r]
    def below(self, h, spe, msg):
        self.must(z3.And(z3.UGE(spe - h, 0), z3.ULE(spe - h, K // 2), z3.ULE(h, spe)), "C04 C01", msg)
    def do_call(self, who, sp, args, transfer):
        """context `who` calls into the library with stack pointer sp and arbitrary registers"""
        st = self.st; st.mem.log = []
        sret = None
        if transfer and getattr(self.abi, "needs_sret", True):
            sret = self.sym("sret"); self.cx.derive(sret, sp); self.cx.add(z3.And(z3.ULE(sp + 256, sret), z3.ULE(sret, sp + 1024), sret & (self.w // 8 - 1) == 0))
        st.transfer = transfer; c = self.abi.call(self.cx, st, sp, args, sret); c.who = who
        if self.ss:
            c.ssp = st.r["ssp"]; st.r["ssp"] = z3.simplify(st.r["ssp"] - 8); st.mem.write(st.r["ssp"], 8, c.ra, "call")
        c.guard = self.guardv() if self.abi.guard else None
        c.tib = self.tib(); c.callsp = sp; c.extra = []
        if c.sret is not None: c.extra.append((c.sret, c.sret + 2 * (self.w // 8)))
        c.hi = z3.simplify(sp + 2048)
        return c
    def own_w(self, c): return (c.spe - K, c.spe + getattr(self.abi, "ownabove", 0))
    def allowed(self, c, t):
        """what a switch from c to t may write / read"""
        tl = [(self.st.r["seg_" + s] + off, self.st.r["seg_" + s] + off + n) for (s, off, n) in ([self.abi.guard] if self.abi.guard else []) + list(self.abi.tibslots) + [x[:3] for x in getattr(self.abi, "tibself", [])]]
        ta = (t.h - K, t.argtop)
        w = [self.own_w(c), ta] + tl + ([(t.sret, t.sret + 2 * (self.w // 8))] if t.sret is not None else [])
        r = [(c.spe - K, c.callsp + 256), (t.h, t.hi)] + tl + ([(t.sret, t.sret + 2 * (self.w // 8))] if t.sret is not None else [])
        if t.argtop is not None: r.append(ta if t.fresh else (t.h, t.argtop))
        return w, r
    def suspend(self, c, h):
        c.h = h; c.fresh = False
        c.argtop = z3.simplify(c.callsp + self.abi.argarea)
        if self.ss: self.ss_suspend(c)
        self.susp[c.who] = c
    # ---------------------------------------------------------------- the program
    def switch(self, op, src, dst, sp):
        """context src (running, stack pointer sp) resumes dst with op; checks everything up to the return of dst's call"""
        cx = self.cx; st = self.st; abi = self.abi
        self.phase = "%s resumes %s by %s" % (src, dst, op)
        t = self.susp.pop(dst)
        data = self.sym("data"); fn = self.sym("onfn"); cx.add(z3.Or(z3.ULT(fn, 0x1000), z3.UGT(fn, 0x180000)) if self.w == 32 else z3.UGT(fn, 0x180000))
        self.susp[dst] = t
        self.leave(src); del self.susp[dst]
        if self.ss: self.ss_running(src)
        c = self.do_call(src, sp, [t.h - self.bias, data] + ([fn] if op == "ontop" else []), True)
        self.st0ss = st.r.get("ssp")
        self.fnread = []; fentry = abi.fn_pointer(cx, self, st, fn) if hasattr(abi, "fn_pointer") else fn
        self.stops = {self.exit_addr}
        self.run(op + "_fcontext", None)
        w, r = self.allowed(c, t)
        who = src
        if op == "jump":
            self.footprint("C04", w, r, "the suspended frame, the resumed frame and their results")
            if self.check_return(t, who):
                h, d = abi.transfer_result(cx, st, t); h = h + self.bias
                self.must(d == data, "C02", "the data pointer arrives unchanged")
                self.below(h, c.spe, "the handle of the suspended peer denotes a frame just below its stack pointer")
                self.independent(h, who, (abi.sp,), "the handle depends on nothing but the stack pointer")
                self.suspend(c, self.name("h" + src, h)); return True
            return False
        # on-top: the function runs on dst's stack first
        ok = self.must(st.pc == fentry, "C02", "control enters the on-top function (now at %s)" % self.where())
        if not ok: return False
        e = abi.enter_fn(cx, st, True)
        self.footprint("C04", w, r, "the suspended frame, the resumed frame and their results")
        self.must(e.aligned, "C02", "the on-top function is entered with an aligned stack")
        if self.ss: self.ss_entered(e, dst)
        self.must(e.args[1] == data, "C02", "the on-top function receives the data pointer")
        h = self.name("h" + src, e.args[0] + self.bias)
        self.below(h, c.spe, "the on-top function receives the handle of the suspended peer")
        self.must(z3.And(z3.ULE(t.h, e.sp), z3.ULE(e.sp, t.callsp)), "C02", "the on-top function runs on the target's stack")
        if abi.tail:
            self.must(e.ra == t.ra, "C02", "the on-top function is called as if by the suspended call")
            for rr, v in t.regs.items():
                if rr in abi.saved and rr not in getattr(abi, "jumponly", []): self.must(self.reg(rr) == v, "C01 C02", "%s is the target's when the on-top function starts" % rr)
        for rr in abi.fpctl: self.must(self.reg(rr) == t.regs[rr], "C01 C02", "%s is the target's when the on-top function starts" % rr)
        if abi.guard: self.must(self.guardv() == t.guard, "C05", "the guard is the target's when the on-top function starts")
        for k, (x, y) in enumerate(zip(self.tib(), t.tib or ())): self.must(x == y, "C01", "thread information block field %d is the target's" % k)
        self.suspend(c, h)
        # the function runs: arbitrary effects outside the frames, below its own stack pointer and on its caller-saved registers
        t.h = e.sp if not hasattr(e, "keep") else e.keep; gv = self.guardv() if self.abi.guard else None; tb = self.tib(); tl = dict(st.r)
        self.susp[dst] = t; st.mem.havoc(self.keeplist() + [(self.tls[s], self.tls[s] + 8192) for s in self.abi.segs] + (self.ss_keep_running(t) if self.ss else [])); del self.susp[dst]
        rv = (self.sym("rv0"), self.sym("rv1"))
        if self.ss: self.ss_fn_return(e)
        abi.leave_fn(cx, st, e, rv, None)
        self.thread() if not self.ss else [st.r.__setitem__("seg_" + s, self.tls[s]) for s in self.abi.segs]
        if self.ss: st.r["ssp"] = self.ssp_after_fn
        self.run(st.pc, None)
        self.phase += ", after the on-top function"
        if self.check_return(t, who + "?"):
            x, y = abi.transfer_result(cx, st, t)
            self.must(z3.And(x == rv[0], y == rv[1]), "C02", "the suspended call returns what the on-top function returned")
            return True
        return False
    def name(self, n, e):
        """a variable for a value whose relation to the stack pointer is a constant keeps addresses simple"""
        return z3.simplify(e)
    def go(self):
        cx = self.cx; abi = self.abi
        st = self.st = State(cx, Mem(cx, self.w, abi.big)); st.img = self.img; st.mem.image = self.img.bytes
        self.susp = {}; self.stops = set(); self.exit_addr = self.img.syms.get(abi.prefix + "_exit")
        self.tls = {s: self.sym("tls_" + s) for s in abi.segs}
        for s in abi.segs: self.window(self.tls[s], self.tls[s] + 8192); self.cx.add(self.tls[s] & 7 == 0)
        spA = self.sym("spA"); self.spaligned(spA); self.window(spA - 2 * K, spA + 2 * K)
        top = self.sym("top"); size = self.sym("size"); bottom = self.sym("bottom"); cx.add(bottom == top - size); cx.add(z3.UGE(size, self.o.get("minsize", 1024)))
        if self.o.get("aligned_top"): cx.add(top & (self.o["aligned_top"] - 1) == 0)
        self.window(bottom, top); self.top = top; self.bottom = bottom; self.spA = spA
        if self.ss: self.ss_init()
        cfn = self.sym("ctxfn"); cx.add(z3.UGT(cfn, 0x180000))
        # 1. make
        self.phase = "make_fcontext"
        self.leave("A")
        if self.ss: self.ss_running("A"); self.ss_fresh()
        c = self.do_call("A", spA, [top, size, cfn], False); st0 = st.r.get("ssp"); self.st0ss = st0
        centry = abi.fn_pointer(cx, self, st, cfn) if hasattr(abi, "fn_pointer") else cfn
        if hasattr(abi, "seh"): abi.seh(self, st)
        self.stops = {self.exit_addr}
        self.run("make_fcontext", None)
        g0 = c.guard
        rng = [(bottom, top), self.own_w(c)]
        extra_r = [(c.spe - K, c.callsp + 256)] + [(st.r["seg_" + s] + off, st.r["seg_" + s] + off + n) for (s, off, n) in ([abi.guard] if abi.guard else []) + list(abi.tibslots) + [x[:3] for x in getattr(abi, "tibself", [])]]
        self.footprint("C04 C03", rng, rng + extra_r, "the given region")
        if abi.guard: self.must(self.guardv() == c.guard, "C05", "making a context leaves the thread's guard alone")
        ok = self.must(st.pc == c.ra, "C03", "make_fcontext returns to its caller (now at %s)" % self.where())
        if not ok: return
        self.must(abi.returned(cx, st, c), "C03", "the stack pointer is unchanged")
        for r, v in c.regs.items(): self.must(self.reg(r) == v, "C03", "%s is unchanged" % r)
        self.ss_check(c)
        h = abi.ptr_result(cx, st, c) + self.bias
        self.must(z3.And(z3.ULE(bottom, h), z3.ULE(h, top)), "C03", "the new handle lies inside the region")
        F = Call_(); F.h = z3.simplify(h); F.hi = top; F.extra = []; F.sret = None; F.argtop = top; F.fresh = True; F.who = "F"
        if self.ss: self.ss_made(F)
        self.susp["F"] = F
        maker = {r: v for r, v in c.regs.items() if r in abi.fpctl}
        # 2. first switch
        self.phase = "first switch"
        self.leave("A")
        if self.ss: self.ss_running("A")
        if self.o.get("same_thread_guard") and abi.guard: pass
        data = self.sym("data")
        c = self.do_call("A", spA, [F.h - self.bias, data], True); self.st0ss = st.r.get("ssp")
        del self.susp["F"]
        self.run("jump_fcontext", None)
        ok = self.must(st.pc == centry, "C03", "the context enters its function (now at %s)" % self.where())
        if not ok: return
        e = abi.enter_fn(cx, st, False)
        w, r = self.allowed(c, F); w = [self.own_w(c), (bottom, top)] + w[2:]; r = r + [(bottom, top)]
        self.footprint("C04 C03", w, r, "the suspended frame and the new stack")
        self.must(e.aligned, "C03", "the function is entered with an aligned stack")
        if self.ss: self.ss_entered(e, "F"); self.ssent = st.r["ssp"]
        self.must(z3.And(z3.ULE(bottom, e.sp), z3.ULE(e.sp, top), z3.ULE(e.spx, top)), "C03", "the stack pointer at entry is inside the region")
        self.must(e.args[1] == data, "C03 C02", "the function receives the data pointer")
        self.below(e.args[0] + self.bias, c.spe, "the function receives the handle of the switching context")
        self.must(z3.ULE(c.spe - (e.args[0] + self.bias), K // 2), "C03 C02", "the function receives the handle of the switching context")
        for rr in abi.fpctl: self.must(self.reg(rr) == maker[rr], "C03", "%s at entry is the maker's" % rr)
        if abi.guard: self.must(self.guardv() == g0, "C05", "the new context starts with its creator's guard")
        for f in getattr(abi, "entry_checks", []): f(self, st, e, top, size, bottom)
        self.suspend(c, z3.simplify(e.args[0] + self.bias))
        if self.ops == "return":
            # 3'. the function returns: the process ends with status 0
            self.phase = "the context function returns"
            keepF = Call_(); keepF.h = e.sp if not hasattr(e, "keep") else e.keep; keepF.hi = top; keepF.extra = []; self.susp["F"] = keepF
            self.st.mem.havoc(self.keeplist() + (self.ss_keep_running(F) if self.ss else [])); del self.susp["F"]
            if self.ss: self.ss_fn_return(e)
            segs = {k: v for k, v in st.r.items() if k.startswith("seg_")}
            abi.leave_fn(cx, st, e, None, None); st.r.update(segs)
            if self.ss: st.r["ssp"] = self.ssp_after_fn
            self.run(st.pc, None)
            a = const(st.pc)
            ok = self.must(a == self.exit_addr, "C03", "returning from the function ends the process (now at %s)" % self.where())
            if ok: self.must(abi.exit_arg(st) == 0, "C03", "the exit status is 0")
            self.reach = True; return
        # 3. F runs, then F and A keep switching
        spF = self.sym("spF"); cx.derive(spF, bottom); self.spaligned(spF)
        slack = self.o.get("entry_slack", 0)
        cx.add(z3.And(z3.ULE(bottom + K, spF), z3.ULE(bottom, bottom + K), z3.ULE(spF + 4096, abi.after_call_sp(e) + slack), z3.ULE(spF, spF + 4096)))
        if self.ss: self.ss_fresh_running()
        self.reach = cx.sat()
        sp = {"A": spA, "F": spF}
        who = "F"
        for k, op in enumerate(self.ops.split(",")):
            dst = "A" if who == "F" else "F"
            if not self.switch(op, who, dst, sp[who]): return
            who = dst
            # the next call of that context may come from anywhere on its stack
            if who == "A":
                n = self.sym("spA"); cx.derive(n, spA); self.spaligned(n); cx.add(z3.And(z3.ULE(spA - K, n), z3.ULE(n, spA))); sp["A"] = n
    # ---------------------------------------------------------------- hardware shadow stacks (x86-64)
    def ss_init(self):
        """A runs on its own shadow stack; F's was mapped by the caller of make_fcontext, which hands it over in the word below the stack top"""
        cx = self.cx
        self.ssA = self.sym("ssA"); cx.add(self.ssA & 7 == 0); self.window(self.ssA - 2 * K, self.ssA + 2 * K)
        self.sstop = self.sym("sstop"); self.sslo = self.sym("sslo"); cx.add(z3.And(self.sstop & 7 == 0, z3.UGE(self.sstop - self.sslo, 4096))); self.window(self.sslo, self.sstop)
        self.ssF = self.sstop; self.sswin = {"A": (self.ssA - 2 * K, self.ssA + 2 * K), "F": (self.sslo, self.sstop)}
    def ss_fresh(self):
        self.st.mem.write(self.sstop - 8, 8, self.sstop | 1, "havoc"); self.st.mem.write(self.top - 8, 8, self.sstop, "havoc")
    def ss_running(self, who):
        """context `who` is about to call in, its shadow stack pointer anywhere on its shadow stack"""
        n = self.sym("ssp" + who); self.cx.add(n & 7 == 0)
        if who == "A": self.cx.derive(n, self.ssA); self.cx.add(z3.And(z3.ULE(self.ssA - K, n), z3.ULE(n, self.ssA)))
        else: self.cx.derive(n, self.sslo); self.cx.add(z3.And(z3.ULE(self.sslo + 512, n), z3.ULE(n, self.ssent)))
        self.st.r["ssp"] = n
    def ss_made(self, F): F.ssh = self.sstop - 64; F.sshi = self.sstop
    def ss_fresh_running(self): pass
    def ss_entered(self, e, who):
        """a function was entered: its return address must be on top of the shadow stack of the context"""
        ssp = self.st.r["ssp"]; lo, hi = self.sswin[who]
        self.must(z3.And(z3.ULE(lo, ssp), z3.ULE(ssp + 8, hi)), "C30", "the shadow stack installed is the context's own")
        self.must(self.st.mem.read(ssp, 8, note=False) == e.ra, "C30", "the return address of the function entered is on the shadow stack")
    def ss_suspend(self, c):
        c.ssh = z3.simplify(c.ssp - 16); c.sshi = c.ssp       # restore token and the return address of the suspended call
    def ss_keep_running(self, t):
        s = self.st.r["ssp"]; return [(s, s + 8)]
    def ss_fn_return(self, e):
        s = self.st.r["ssp"]
        self.must(self.st.mem.read(s, 8, note=False) == e.ra, "C30", "the function's return address agrees with the shadow stack")
        self.ssp_after_fn = z3.simplify(s + 8)
class Call_: pass
