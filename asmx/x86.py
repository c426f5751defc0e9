"""x86-64 and i386: instruction semantics (AT&T disassembly) and the SysV / Windows calling conventions"""
import re, z3
from .core import *
R64 = "rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15".split()
SUB = {}
for r in "abcd":
    for n, w, l in (("r%sx" % r, 64, 0), ("e%sx" % r, 32, 0), ("%sx" % r, 16, 0), ("%sl" % r, 8, 0), ("%sh" % r, 8, 8)): SUB[n] = ("r%sx" % r, w, l)
for r in ("si", "di", "bp", "sp"):
    for n, w in (("r" + r, 64), ("e" + r, 32), (r, 16), (r + "l", 8)): SUB[n] = ("r" + r, w, 0)
for k in range(8, 16):
    for n, w in (("r%d" % k, 64), ("r%dd" % k, 32), ("r%dw" % k, 16), ("r%db" % k, 8)): SUB[n] = ("r%d" % k, w, 0)
WID = {"b": 8, "w": 16, "l": 32, "q": 64}

class X86:
    big = False
    def __init__(self, bits): self.w = bits; self.sp = "rsp" if bits == 64 else "esp"
    def names(self):
        g = R64 if self.w == 64 else ["e" + r[1:] for r in R64[:8]]
        return [(r, self.w) for r in g] + [("xmm%d" % k, 128) for k in range(16 if self.w == 64 else 8)] + [("mxcsr", 32), ("x87cw", 16)]
    def canon(self, n):
        b, w, l = SUB[n]
        return (b if self.w == 64 else "e" + b[1:]), w, l
    def get(self, st, n):
        if n.startswith("xmm"): return st.r[n]
        b, w, l = self.canon(n)
        return st.r[b] if w == self.w else z3.Extract(l + w - 1, l, st.r[b])
    def put(self, st, n, v):
        if n.startswith("xmm"): st.r[n] = v; return
        b, w, l = self.canon(n)
        v = z3.simplify(v)
        if w == self.w: st.r[b] = v
        elif w == 32: st.r[b] = z3.simplify(z3.ZeroExt(32, v))
        else:
            o = st.r[b]; p = [v]
            if l + w < self.w: p.insert(0, z3.Extract(self.w - 1, l + w, o))
            if l: p.append(z3.Extract(l - 1, 0, o))
            st.r[b] = z3.simplify(z3.Concat(*p))
    # operands
    def ea(self, st, i, s):
        s = s.strip()
        base = bv(0, self.w)
        m = re.match(r"^%([a-z]s):(.*)$", s)
        if m:
            seg = m.group(1)
            if seg in ("fs", "gs"): base = st.r["seg_" + seg]
            s = m.group(2)
        m = re.match(r"^([^()]*)(?:\(([^)]*)\))?$", s)
        if not m: raise Unsupported("operand %s in %s" % (s, i))
        d = m.group(1).strip(); a = base
        p = [x.strip() for x in m.group(2).split(",")] if m.group(2) is not None else []
        if p and p[0] == "%rip":
            for (t, sym) in i.reloc:
                sy = re.sub(r"[-+]0x.*$", "", sym)
                if sy in st.img.syms: return bv(st.img.syms[sy], self.w)
                raise Unsupported("relocation %s" % sym)
            return bv((i.next + (int(d, 0) if d else 0)) & ((1 << self.w) - 1), self.w)
        if d and int(d, 0) == 0:      # an absolute address the linker fills in
            for (t, sym) in i.reloc:
                if t.endswith(("ADDR32", "DIR32", "32S")) and sym in st.img.syms: a = a + bv(st.img.syms[sym], self.w)
        if d: a = a + bv(int(d, 0) & ((1 << self.w) - 1), self.w)
        if p and p[0]: a = a + self.get(st, p[0][1:])
        if len(p) > 1 and p[1]: a = a + self.get(st, p[1][1:]) * bv(int(p[2]) if len(p) > 2 else 1, self.w)
        return z3.simplify(a)
    def rd(self, st, i, o, w):
        if o[0] == "$":
            for (t, sym) in i.reloc:
                if "DIR32" in t and int(o[1:], 0) == 0 and sym in st.img.syms: return bv(st.img.syms[sym], w)
            return bv(int(o[1:], 0) & ((1 << w) - 1), w)
        if o[0] == "%" and ":" not in o:
            v = self.get(st, o[1:])
            if v.size() != w: raise Unsupported("operand size in %s" % i)
            return v
        return st.mem.read(self.ea(st, i, o), w // 8, str(i))
    def wr(self, st, i, o, w, v):
        if o[0] == "%" and ":" not in o: self.put(st, o[1:], v)
        else: st.mem.write(self.ea(st, i, o), w // 8, v, str(i))
    def setsp(self, st, v):
        st.r[self.sp] = z3.simplify(v)
    def push(self, st, i, v):
        self.setsp(st, st.r[self.sp] - self.w // 8); st.mem.write(st.r[self.sp], self.w // 8, v, str(i))
    def pop(self, st, i):
        v = st.mem.read(st.r[self.sp], self.w // 8, str(i)); self.setsp(st, st.r[self.sp] + self.w // 8); return v
    def cond(self, st, c):
        if st.flags is None: raise Unsupported("flags")
        k, a, b, r = st.flags
        w = r.size(); zero = r == 0
        lt = ult = None
        if k == "sub": lt = a < b; ult = z3.ULT(a, b)
        elif k == "logic": lt = r < 0; ult = z3.BoolVal(False)
        elif c not in ("e", "z", "ne", "nz", "s", "ns"): raise Unsupported("flags of " + k)
        if c in ("e", "z"): return zero
        if c in ("ne", "nz"): return z3.Not(zero)
        if c == "s": return r < 0
        if c == "ns": return r >= 0
        t = {} if c not in "l ge le g b c ae nc be a".split() else {"l": lt, "ge": z3.Not(lt), "le": z3.Or(lt, zero), "g": z3.Not(z3.Or(lt, zero)), "b": ult, "c": ult, "ae": z3.Not(ult), "nc": z3.Not(ult), "be": z3.Or(ult, zero), "a": z3.Not(z3.Or(ult, zero))}
        if c not in t: raise Unsupported("condition " + c)
        return t[c]
    def target(self, st, i, o):
        for (t, sym) in i.reloc:
            sy = re.sub(r"[-+]0x.*$", "", sym)
            if sy in st.img.syms: return st.img.syms[sy]
            raise Unsupported("relocation %s" % sym)
        return int(o.split()[0], 0) + i.base
    def step(self, st, i):
        mn = i.mn; o = []; depth = 0; cur = ""
        for ch in i.ops:
            if ch == "(": depth += 1
            if ch == ")": depth -= 1
            if ch == "," and depth == 0: o.append(cur.strip()); cur = ""
            else: cur += ch
        if cur.strip(): o.append(cur.strip())
        nxt = i.next
        st.pc = nxt
        if mn in ("nop", "nopw", "nopl", "endbr64", "endbr32", "data16", "pause", "lfence", "mfence", "sfence", "cld", "emms", "cs", "lock", "rep"): return
        if mn in ("hlt", "int3", "ud2"): st.event = (mn,); return
        if mn in ("stmxcsr", "vstmxcsr"): st.mem.write(self.ea(st, i, o[0]), 4, st.r["mxcsr"], str(i)); return
        if mn in ("ldmxcsr", "vldmxcsr"):
            v = st.mem.read(self.ea(st, i, o[0]), 4, str(i))
            st.cx.must(z3.Extract(31, 16, v) == 0, "C01 C03 C06", "the SSE control word that is loaded is valid")
            st.r["mxcsr"] = v; return
        if mn in ("fnstcw", "fstcw"): st.mem.write(self.ea(st, i, o[0]), 2, st.r["x87cw"], str(i)); return
        if mn == "fldcw": st.r["x87cw"] = st.mem.read(self.ea(st, i, o[0]), 2, str(i)); return
        if mn in ("fnclex", "fwait"): return
        if mn in ("rdsspq", "rdsspd", "incsspq", "incsspd", "rstorssp", "saveprevssp"): return self.shadow(st, i, mn, o)
        if mn in ("retq", "retl", "ret"):
            ra = self.pop(st, i)
            if o: self.setsp(st, st.r[self.sp] + int(o[0][1:], 0))
            self.ss_ret(st, ra); st.pc = ra; return
        if mn in ("callq", "calll", "call"):
            t = self.rd(st, i, o[0][1:], self.w) if o[0][0] == "*" else bv(self.target(st, i, o[0]), self.w)
            self.push(st, i, bv(nxt, self.w)); self.ss_call(st, nxt); st.pc = t; return
        if mn in ("jmpq", "jmpl", "jmp"):
            st.pc = self.rd(st, i, o[0][1:], self.w) if o[0][0] == "*" else bv(self.target(st, i, o[0]), self.w); return
        if mn in ("leave", "leaveq", "leavel"):
            self.setsp(st, st.r["rbp" if self.w == 64 else "ebp"]); st.r["rbp" if self.w == 64 else "ebp"] = self.pop(st, i); return
        m = re.match(r"^(push|pop)([lqw])?$", mn)
        if m:
            if m.group(1) == "push": self.push(st, i, self.rd(st, i, o[0], self.w))
            else:
                v = self.pop(st, i); self.wr(st, i, o[0], self.w, v)
            return
        if mn in ("movaps", "movups", "movdqa", "movdqu", "movapd", "movupd"):
            v = self.rd(st, i, o[0], 128)
            for x in o:
                if x[0] != "%" and mn in ("movaps", "movdqa", "movapd"): st.cx.must(self.ea(st, i, x) & 15 == 0, "C01 C03 C06", "aligned vector access (%s)" % i)
            self.wr(st, i, o[1], 128, v); return
        if mn == "movsd" or mn == "movq" and any("xmm" in x for x in o):
            if o[0].startswith("%xmm") and not o[1].startswith("%xmm"): self.wr(st, i, o[1], 64, z3.Extract(63, 0, st.r[o[0][1:]])); return
            if o[1].startswith("%xmm") and not o[0].startswith("%xmm"): st.r[o[1][1:]] = z3.ZeroExt(64, self.rd(st, i, o[0], 64)); return
            raise Unsupported(str(i))
        m = re.match(r"^j([a-z]+)$", mn)
        if m:
            if st.cx.decide(self.cond(st, m.group(1))): st.pc = bv(self.target(st, i, o[0]), self.w)
            return
        m = re.match(r"^set([a-z]+)$", mn)
        if m:
            self.wr(st, i, o[0], 8, z3.If(self.cond(st, m.group(1)), bv(1, 8), bv(0, 8))); return
        m = re.match(r"^cmov([a-z]+?)[lq]?$", mn)
        if m:
            w = self.canon(o[1][1:])[1]; v = self.rd(st, i, o[0], w); self.put(st, o[1][1:], z3.If(self.cond(st, m.group(1)), v, self.get(st, o[1][1:]))); return
        m = re.match(r"^mov(z|s)(b|w)(w|l|q)$|^mov(s)(l)(q)$", mn)
        if m:
            g = [x for x in m.groups() if x]; a, b = WID[g[1]], WID[g[2]]; v = self.rd(st, i, o[0], a)
            self.wr(st, i, o[1], b, (z3.ZeroExt if g[0] == "z" else z3.SignExt)(b - a, v)); return
        m = re.match(r"^(mov|movabs|lea|add|sub|and|or|xor|cmp|test|xchg|neg|not|inc|dec|shl|sal|shr|sar|bt|xadd|cmpxchg)([bwlq])$", mn)
        if not m: raise Unsupported("instruction %s" % i)
        k = m.group(1); w = WID[m.group(2)]
        if k in ("mov", "movabs"): self.wr(st, i, o[1], w, self.rd(st, i, o[0], w)); return
        if k == "lea":
            a = self.ea(st, i, o[0])
            self.wr(st, i, o[1], w, a if w == self.w else z3.Extract(w - 1, 0, a)); return
        if k in ("neg", "not", "inc", "dec"):
            a = self.rd(st, i, o[0], w); r = {"neg": -a, "not": ~a, "inc": a + 1, "dec": a - 1}[k]
            self.wr(st, i, o[0], w, r)
            if k != "not": st.flags = ("arith", a, a, z3.simplify(r))
            return
        if k == "xchg":
            a, b = self.rd(st, i, o[0], w), self.rd(st, i, o[1], w); self.wr(st, i, o[0], w, b); self.wr(st, i, o[1], w, a); return
        if k in ("shl", "sal", "shr", "sar"):
            if len(o) == 1: o = ["$1"] + o
            c = self.rd(st, i, o[0], 8) if o[0][0] == "$" else self.get(st, "cl"); b = self.rd(st, i, o[1], w)
            c = z3.ZeroExt(w - 8, c) & (w - 1) if w > 8 else c & 31
            r = b << c if k in ("shl", "sal") else (z3.LShR(b, c) if k == "shr" else b >> c)
            st.flags = ("arith", b, b, z3.simplify(r)); self.wr(st, i, o[1], w, r); return
        a = self.rd(st, i, o[0], w); b = self.rd(st, i, o[1], w)
        if k == "cmp": st.flags = ("sub", b, a, z3.simplify(b - a)); return
        if k == "test": st.flags = ("logic", a, b, z3.simplify(a & b)); return
        r = {"add": lambda: b + a, "sub": lambda: b - a, "and": lambda: b & a, "or": lambda: b | a, "xor": lambda: b ^ a}.get(k)
        if r is None: raise Unsupported(str(i))
        r = z3.simplify(r())
        st.flags = ("sub" if k == "sub" else "logic" if k in ("and", "or", "xor") else "arith", b, a, r)
        if k == "and" and w == self.w and z3.is_bv_value(z3.simplify(a)) and not z3.is_bv_value(r):
            t = st.cx.fresh("and", w); st.cx.add(t == r); st.cx.derive(t, r); r = t      # keeps addresses of the form variable + constant
        self.wr(st, i, o[1], w, r)
    # hardware shadow stack: off unless st.r has "ssp"
    def ss_call(self, st, ra):
        if "ssp" not in st.r: return
        st.r["ssp"] = z3.simplify(st.r["ssp"] - 8); st.mem.write(st.r["ssp"], 8, bv(ra, 64), "shadow push")
    def ss_ret(self, st, ra):
        if "ssp" not in st.r: return
        v = st.mem.read(st.r["ssp"], 8, "shadow pop"); st.r["ssp"] = z3.simplify(st.r["ssp"] + 8)
        st.cx.must(v == ra, "C30", "a return address agrees with the shadow stack")
    def shadow(self, st, i, mn, o):
        if "ssp" not in st.r: return       # without shadow stacks these are no-ops (rdssp leaves its operand)
        ssp = st.r["ssp"]
        if mn == "rdsspq": self.put(st, o[0][1:], ssp); return
        if mn == "incsspq":
            n = self.get(st, o[0][1:]); st.r["ssp"] = z3.simplify(ssp + 8 * (n & 0xff)); return
        if mn == "rstorssp":
            a = self.ea(st, i, o[0]); t = st.mem.read(a, 8, str(i))
            # a restore token holds the address just above it, bit 0 set in 64 bit mode
            st.cx.must(t == ((a + 8) | 1), "C30", "the shadow stack that is entered carries a valid restore token (%s)" % i)
            tok = z3.simplify(ssp | 2); st.prev = getattr(st, "prev", {}); st.prev[tok.get_id()] = (ssp, tok)
            st.mem.write(a, 8, tok, str(i)); st.r["ssp"] = a       # previous-ssp token
            return
        if mn == "saveprevssp":
            t = st.mem.read(ssp, 8, str(i)); st.cx.must(t & 3 == 2, "C30", "saveprevssp finds a previous-ssp token")
            old = z3.simplify(t & bv(~3 & (1 << 64) - 1, 64))
            if t.get_id() in getattr(st, "prev", {}): old = st.prev[t.get_id()][0]
            elif const(old & 7) is None:
                v = st.cx.fresh("oldssp", 64); st.cx.add(v == old); old = v
            st.mem.write(z3.simplify(old - 8), 8, old | 1, str(i)); st.r["ssp"] = z3.simplify(ssp + 8); return
        raise Unsupported(str(i))

class Call: pass

class SysV64:
    """x86-64 System V (ELF, Mach-O)"""
    def __init__(self, fp=True, guard=False, x32=False, prefix=""):
        self.m = X86(64); self.w = 64; self.big = False; self.sp = "rsp"; self.redzone = 128; self.argarea = 0; self.align = 16
        self.saved = ["rbx", "rbp", "r12", "r13", "r14", "r15"]; self.fpctl = ["mxcsr", "x87cw"] if fp else []
        self.guard = ("fs", 0x28, 8) if guard else None; self.prefix = prefix; self.tail = True; self.segs = ["fs", "gs"]; self.tibslots = []
    def init_regs(self, cx, st, who):
        for n, w in self.m.names(): st.r[n] = cx.fresh("%s.%s" % (who, n), w)
        cx.add(z3.Extract(31, 16, st.r["mxcsr"]) == 0)
    def call(self, cx, st, sp, args, sret=None):
        c = Call(); c.ra = cx.fresh("ra", 64); c.sp = sp
        st.mem.write(sp - 8, 8, c.ra, "call"); st.r["rsp"] = z3.simplify(sp - 8); c.spe = st.r["rsp"]
        for r, v in zip(("rdi", "rsi", "rdx", "rcx"), args): st.r[r] = v
        c.sret = None
        c.regs = {r: st.r[r] for r in self.saved + self.fpctl}
        return c
    def returned(self, cx, st, c): return st.r["rsp"] == c.sp
    def ptr_result(self, cx, st, c): return st.r["rax"]
    def transfer_result(self, cx, st, c): return st.r["rax"], st.r["rdx"]
    def enter_fn(self, cx, st, sret):
        e = Call(); e.sp = st.r["rsp"]; e.args = (st.r["rdi"], st.r["rsi"]); e.aligned = (e.sp + 8) & 15 == 0
        e.ra = st.mem.read(e.sp, 8, "fn return address"); e.spx = e.sp; e.sret = None
        return e
    def leave_fn(self, cx, st, e, rv, regs):
        """the function returns: caller-saved registers arbitrary, callee-saved as at its entry"""
        keep = {r: st.r[r] for r in self.saved + self.fpctl}
        self.init_regs(cx, st, "fnret"); st.r.update(keep)
        st.r["rsp"] = z3.simplify(e.sp + 8); st.pc = e.ra
        if rv is not None: st.r["rax"], st.r["rdx"] = rv
    def exit_arg(self, st): return z3.Extract(31, 0, st.r["rdi"])
    def after_call_sp(self, e): return z3.simplify(e.sp + 8)

class SysV32:
    """i386 System V ELF: transfer_t is returned through a hidden pointer which the callee pops"""
    def __init__(self, fp=True, guard=False, regret=False, prefix=""):
        self.m = X86(32); self.w = 32; self.big = False; self.sp = "esp"; self.redzone = 0; self.argarea = 16; self.align = 16
        self.saved = ["ebx", "ebp", "esi", "edi"]; self.fpctl = ["mxcsr", "x87cw"] if fp else []
        self.guard = ("gs", 0x14, 4) if guard else None; self.prefix = prefix; self.tail = True; self.segs = ["fs", "gs"]; self.regret = regret; self.tibslots = []
    def init_regs(self, cx, st, who):
        for n, w in self.m.names(): st.r[n] = cx.fresh("%s.%s" % (who, n), w)
        cx.add(z3.Extract(31, 16, st.r["mxcsr"]) == 0)
    def call(self, cx, st, sp, args, sret=None):
        c = Call(); c.ra = cx.fresh("ra", 32); a = ([sret] if sret is not None and not self.regret else []) + list(args); c.nargs = len(a)
        for k, v in enumerate(a): st.mem.write(sp + 4 * k, 4, v, "argument")
        st.mem.write(sp - 4, 4, c.ra, "call"); st.r["esp"] = z3.simplify(sp - 4); c.spe = st.r["esp"]
        c.sret = sret if not self.regret else None
        c.sp = z3.simplify(sp + (4 if c.sret is not None else 0))
        c.regs = {r: st.r[r] for r in self.saved + self.fpctl}
        return c
    def returned(self, cx, st, c): return z3.And(st.r["esp"] == c.sp, st.r["eax"] == c.sret) if c.sret is not None else st.r["esp"] == c.sp
    def ptr_result(self, cx, st, c): return st.r["eax"]
    def transfer_result(self, cx, st, c):
        if self.regret: return st.r["eax"], st.r["edx"]
        return st.mem.read(c.sret, 4, note=False), st.mem.read(c.sret + 4, 4, note=False)
    def enter_fn(self, cx, st, sret):
        e = Call(); e.sp = st.r["esp"]; e.ra = st.mem.read(e.sp, 4, "fn return address"); e.aligned = (e.sp + 4) & (self.align - 1) == 0
        k = 4
        e.sret = None
        if sret and not self.regret: e.sret = st.mem.read(e.sp + 4, 4, "fn result pointer"); k = 8
        e.args = (st.mem.read(e.sp + k, 4, "fn argument"), st.mem.read(e.sp + k + 4, 4, "fn argument")); e.spx = z3.simplify(e.sp + k + 4)
        return e
    def leave_fn(self, cx, st, e, rv, regs):
        keep = {r: st.r[r] for r in self.saved + self.fpctl}
        self.init_regs(cx, st, "fnret"); st.r.update(keep)
        st.r["esp"] = z3.simplify(e.sp + (8 if e.sret is not None else 4)); st.pc = e.ra
        if rv is not None:
            if self.regret: st.r["eax"], st.r["edx"] = rv
            else:
                st.mem.write(e.sret, 4, rv[0], "fn result"); st.mem.write(e.sret + 4, 4, rv[1], "fn result"); st.r["eax"] = e.sret
    def exit_arg(self, st): return st.mem.read(st.r["esp"] + 4, 4, note=False)
    def after_call_sp(self, e): return z3.simplify(e.sp + (8 if e.sret is not None else 4))
