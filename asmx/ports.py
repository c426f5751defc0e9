"""The other processors: instruction semantics of the assembled ports and their calling conventions (C06)"""
import re, z3
from .core import *
from .x86 import X86, Call, SysV32

def ops_of(i):
    s = re.sub(r"\s*<[^>]*>", "", i.ops); out = []; d = 0; cur = ""
    for ch in s:
        if ch in "([{": d += 1
        if ch in ")]}": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def num(s): return int(s.strip().lstrip("#").replace("0X", "0x"), 0)

class Machine:
    big = False; zero = (); fpw = {}
    def ld(self, st, a, n, i): return st.mem.read(z3.simplify(a), n, str(i))
    def sto(self, st, a, n, v, i): st.mem.write(z3.simplify(a), n, v, str(i))
    def put(self, st, r, v):
        if r in self.zero: return
        st.r[r] = z3.simplify(v)
    def get(self, st, r):
        if r in self.zero: return bv(0, self.w)
        return st.r[r]
    def imm(self, n): return bv(n & ((1 << self.w) - 1), self.w)
    def masked(self, st, v, of=None):
        """an aligned address becomes a variable of its own, so that addresses keep the form variable + constant"""
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v
        if of is not None and any(of.eq(st.r["seg_" + s]) for s in ("tp",) if "seg_" + s in st.r) and not st.cx.sat(of != v): return of
        t = st.cx.fresh("and", v.size()); st.cx.add(t == v); st.cx.derive(t, v); return t
    def unsup(self, i): raise Unsupported("instruction %s" % i)
    def ext(self, v, w, signed=False):
        d = w - v.size()
        return v if d == 0 else z3.Extract(w - 1, 0, v) if d < 0 else (z3.SignExt if signed else z3.ZeroExt)(d, v)
    def step(self, st, i):
        st.pc = bv(i.next, self.w); self.ex(st, i, i.mn, ops_of(i))
    def flagcond(self, st, c):
        if st.flags is None: raise Unsupported("flags")
        a, b = st.flags
        return {"eq": a == b, "ne": a != b, "lt": a < b, "ge": a >= b, "gt": a > b, "le": a <= b, "lo": z3.ULT(a, b), "cc": z3.ULT(a, b), "hs": z3.UGE(a, b), "cs": z3.UGE(a, b), "hi": z3.UGT(a, b), "ls": z3.ULE(a, b)}[c]

class A64(Machine):
    w = 64; sp = "sp"; zero = ("xzr",)
    def names(self): return [("x%d" % k, 64) for k in range(31)] + [("sp", 64)] + [("v%d" % k, 128) for k in range(32)] + [("fpcr", 64)]
    def reg(self, o):
        """operand -> (register, width)"""
        o = {"lr": "x30", "fp": "x29", "wsp": "sp"}.get(o, o)
        if o == "sp": return o, 64
        m = re.match(r"^([xwqdshv])(\d+|zr)$", o)
        if not m: raise Unsupported("register " + o)
        k, n = m.groups()
        if k in "xw": return "x" + n, 64 if k == "x" else 32
        return "v" + n, {"q": 128, "v": 128, "d": 64, "s": 32, "h": 16}[k]
    def rd(self, st, o):
        r, w = self.reg(o); v = self.get(st, r)
        return v if v.size() == w else z3.Extract(w - 1, 0, v)
    def wr(self, st, o, v):
        r, w = self.reg(o); full = 128 if r[0] == "v" else 64
        self.put(st, r, self.ext(v, full))
    def val(self, st, o, w):
        """a register, an immediate, or a shifted register given as list"""
        v = bv(num(o[0]) & ((1 << w) - 1), w) if o[0][0] == "#" else self.rd(st, o[0])
        for x in o[1:]:
            k, n = x.split()
            if k == "lsl": v = v << num(n)
            elif k == "lsr": v = z3.LShR(v, num(n))
            else: raise Unsupported(x)
        return v
    def addr(self, st, o, k):
        """memory operand o[k:] with its writeback"""
        m = re.match(r"^\[([^\]]*)\](!?)$", o[k])
        if not m: raise Unsupported("address %s" % o[k])
        p = [x.strip() for x in m.group(1).split(",")]
        b = self.rd(st, p[0]); a = b + self.val(st, p[1:], 64) if len(p) > 1 else b
        if m.group(2): self.put(st, self.reg(p[0])[0], a)
        if len(o) > k + 1: self.put(st, self.reg(p[0])[0], b + self.val(st, o[k + 1:], 64))
        return a
    def ex(self, st, i, mn, o):
        if mn in ("nop", "bti", "paciasp", "autiasp", "hint", "isb", "dsb", "dmb"): return
        if mn in ("add", "sub", "and", "orr", "eor", "bic", "adds", "subs"):
            w = self.reg(o[0])[1]; a, b = self.rd(st, o[1]), self.val(st, o[2:], w)
            if mn in ("adds", "subs"): st.flags = (a, b if mn == "subs" else -b)
            r = {"add": a + b, "sub": a - b, "and": a & b, "orr": a | b, "eor": a ^ b, "bic": a & ~b}[mn.rstrip("s") if mn in ("adds", "subs") else mn]
            self.wr(st, o[0], self.masked(st, r) if mn in ("and", "bic") else r); return
        if mn in ("mov", "movz"): self.wr(st, o[0], self.val(st, o[1:], self.reg(o[0])[1])); return
        if mn == "fmov":
            a, b = self.reg(o[0]), self.rd(st, o[1]); self.wr(st, o[0], b); return
        if mn in ("adr", "adrp"): self.wr(st, o[0], self.imm(symtarget(st, i, o[1]))); return
        if mn in ("str", "stur", "ldr", "ldur"):
            w = self.reg(o[0])[1]
            if mn[0] == "s": v = self.rd(st, o[0]); self.sto(st, self.addr(st, o, 1), w // 8, v, i)
            else: v = self.ld(st, self.addr(st, o, 1), w // 8, i); self.wr(st, o[0], v)
            return
        if mn in ("stp", "ldp"):
            w = self.reg(o[0])[1]
            if mn == "stp":
                v = [self.rd(st, x) for x in o[:2]]; a = self.addr(st, o, 2)
                for k in (0, 1): self.sto(st, a + k * w // 8, w // 8, v[k], i)
            else:
                a = self.addr(st, o, 2); v = [self.ld(st, a + k * w // 8, w // 8, i) for k in (0, 1)]
                for k in (0, 1): self.wr(st, o[k], v[k])
            return
        if mn == "ret": st.pc = self.rd(st, o[0] if o else "x30"); return
        if mn == "br": st.pc = self.rd(st, o[0]); return
        if mn == "blr": t = self.rd(st, o[0]); self.put(st, "x30", self.imm(i.next)); st.pc = t; return
        if mn in ("bl", "b"):
            if mn == "bl": self.put(st, "x30", self.imm(i.next))
            st.pc = self.imm(self.sym(st, i, o[0])); return
        if mn == "cmp": w = self.reg(o[0])[1]; st.flags = (self.rd(st, o[0]), self.val(st, o[1:], w)); return
        if mn.startswith("b."):
            if st.cx.decide(self.flagcond(st, mn[2:])): st.pc = self.imm(num(o[0]) + i.base)
            return
        if mn in ("cbz", "cbnz"):
            v = self.rd(st, o[0]) == 0
            if st.cx.decide(v if mn == "cbz" else z3.Not(v)): st.pc = self.imm(num(o[1]) + i.base)
            return
        if mn in ("mrs", "msr"):
            r = [x for x in o if x.lower() in ("fpcr", "fpsr")]
            if r:
                if mn == "mrs": self.wr(st, o[0], self.get(st, "fpcr") if r[0].lower() == "fpcr" else st.cx.fresh("fpsr", 64))
                elif r[0].lower() == "fpcr": self.put(st, "fpcr", self.rd(st, o[1]))
                return
        self.unsup(i)
    def sym(self, st, i, o): return symtarget(st, i, o)

def symtarget(st, i, o, rel=False):
    for (t, s) in i.reloc:
        s = re.sub(r"[-+]0x.*$", "", s.split()[0])
        if s in st.img.syms: return st.img.syms[s]
        raise Unsupported("relocation %s" % s)
    n = num(o.split()[0]); return i.addr + n if rel else n + i.base

class RV64(Machine):
    w = 64; sp = "sp"; zero = ("zero",)
    def names(self): return [(r, 64) for r in ["ra", "sp", "gp", "tp"] + ["t%d" % k for k in range(7)] + ["s%d" % k for k in range(12)] + ["a%d" % k for k in range(8)] + ["fs%d" % k for k in range(12)] + ["fa%d" % k for k in range(8)] + ["ft%d" % k for k in range(12)]]
    def mem(self, st, o):
        m = re.match(r"^(-?\w*)\((\w+)\)$", o)
        if not m: raise Unsupported("address " + o)
        return self.get(st, m.group(2)) + self.imm(num(m.group(1) or "0"))
    def ex(self, st, i, mn, o):
        mn = re.sub(r"^c\.", "", mn)
        if mn in ("nop", "fence"): return
        if mn in ("addi", "andi", "ori", "xori", "add", "sub", "and", "or", "xor"):
            if len(o) == 2: o = [o[0]] + o
            a = self.get(st, o[1]); b = self.imm(num(o[2])) if mn.endswith("i") else self.get(st, o[2]); k = mn.rstrip("i")
            r = {"add": lambda: a + b, "sub": lambda: a - b, "and": lambda: self.masked(st, a & b), "or": lambda: a | b, "or": lambda: a | b, "xor": lambda: a ^ b}[k if k else mn]()
            self.put(st, o[0], r); return
        if mn in ("slli", "srli"):
            if len(o) == 2: o = [o[0]] + o
            a = self.get(st, o[1]); r = a << num(o[2]) if mn == "slli" else z3.LShR(a, num(o[2])); self.put(st, o[0], r); return
        if mn in ("mv", "fmv.d"): self.put(st, o[0], self.get(st, o[1])); return
        if mn == "li": self.put(st, o[0], self.imm(num(o[1]))); return
        if mn == "lui": self.put(st, o[0], z3.SignExt(32, bv((num(o[1]) << 12) & 0xffffffff, 32))); return
        if mn == "auipc": self.put(st, o[0], self.imm(i.addr + self.sx20(num(o[1])))); return
        if mn in ("sd", "fsd", "sdsp", "fsdsp"): self.sto(st, self.mem(st, o[1]), 8, self.get(st, o[0]), i); return
        if mn in ("ld", "fld", "ldsp", "fldsp"): self.put(st, o[0], self.ld(st, self.mem(st, o[1]), 8, i)); return
        if mn == "sw": self.sto(st, self.mem(st, o[1]), 4, z3.Extract(31, 0, self.get(st, o[0])), i); return
        if mn in ("lw", "lwu"): self.put(st, o[0], self.ext(self.ld(st, self.mem(st, o[1]), 4, i), 64, mn == "lw")); return
        if mn == "ret": st.pc = self.get(st, "ra"); return
        if mn == "jr":
            st.pc = self.mem(st, o[0]) if "(" in o[0] else self.get(st, o[0]); return
        if mn == "jalr":
            t = self.mem(st, o[-1]) if "(" in o[-1] else self.get(st, o[-1]); self.put(st, o[0] if len(o) > 1 else "ra", self.imm(i.next)); st.pc = t; return
        if mn in ("j", "call", "jal", "tail"):
            if mn in ("jal", "call"): self.put(st, o[0] if len(o) > 1 else "ra", self.imm(i.next))
            st.pc = self.imm(symtarget(st, i, o[-1])); return
        m = re.match(r"^b(eq|ne|lt|ge|ltu|geu)(z?)$", mn)
        if m:
            a = self.get(st, o[0]); b = bv(0, 64) if m.group(2) else self.get(st, o[1])
            c = {"eq": a == b, "ne": a != b, "lt": a < b, "ge": a >= b, "ltu": z3.ULT(a, b), "geu": z3.UGE(a, b)}[m.group(1)]
            if st.cx.decide(c): st.pc = self.imm(num(o[-1]))
            return
        self.unsup(i)
    def sx20(self, n): n &= 0xfffff; return (n - (1 << 20) if n >> 19 else n) << 12

class LA64(Machine):
    w = 64; sp = "sp"; zero = ("zero",)
    def names(self): return [(r, 64) for r in ["ra", "tp", "sp", "fp", "r21"] + ["a%d" % k for k in range(8)] + ["t%d" % k for k in range(9)] + ["s%d" % k for k in range(9)] + ["fa%d" % k for k in range(8)] + ["ft%d" % k for k in range(16)] + ["fs%d" % k for k in range(8)]]
    def ex(self, st, i, mn, o):
        o = [x.lstrip("$") for x in o]; g = lambda k: self.get(st, o[k])
        if mn == "nop": return
        if mn in ("addi.d", "andi", "ori", "xori"):
            a, b = g(1), self.imm(num(o[2])); self.put(st, o[0], {"addi.d": a + b, "ori": a | b, "xori": a ^ b}[mn] if mn != "andi" else self.masked(st, a & b)); return
        if mn in ("add.d", "sub.d", "and", "or", "xor", "andn"):
            a, b = g(1), g(2); self.put(st, o[0], {"add.d": a + b, "sub.d": a - b, "or": a | b, "xor": a ^ b, "and": a & b, "andn": a & ~b}[mn]); return
        if mn in ("bstrins.d", "bstrpick.d"):
            hi, lo = num(o[2]), num(o[3]); a = g(0) if mn == "bstrins.d" else None; b = g(1)
            if mn == "bstrpick.d": self.put(st, o[0], self.ext(z3.Extract(hi, lo, b), 64)); return
            p = []
            if hi < 63: p.append(z3.Extract(63, hi + 1, a))
            p.append(z3.Extract(hi - lo, 0, b))
            if lo: p.append(z3.Extract(lo - 1, 0, a))
            self.put(st, o[0], self.masked(st, z3.Concat(*p) if len(p) > 1 else p[0])); return
        if mn in ("slli.d", "srli.d"): self.put(st, o[0], g(1) << num(o[2]) if mn[1] == "l" else z3.LShR(g(1), num(o[2]))); return
        if mn in ("st.d", "fst.d", "stptr.d"): self.sto(st, g(1) + self.imm(num(o[2])), 8, g(0), i); return
        if mn in ("ld.d", "fld.d", "ldptr.d"): self.put(st, o[0], self.ld(st, g(1) + self.imm(num(o[2])), 8, i)); return
        if mn in ("move", "fmov.d"): self.put(st, o[0], g(1)); return
        if mn == "pcalau12i": self.put(st, o[0], self.imm((i.addr & ~0xfff) + (num(o[1]) << 12))); return
        if mn == "pcaddu12i": self.put(st, o[0], self.imm(i.addr + (num(o[1]) << 12))); return
        if mn in ("pcaddi",): self.put(st, o[0], self.imm(i.addr + (num(o[1]) << 2))); return
        if mn in ("b", "bl"):
            if mn == "bl": self.put(st, "ra", self.imm(i.next))
            st.pc = self.imm(symtarget(st, i, o[0], True)); return
        if mn == "jr": st.pc = g(0); return
        if mn == "ret": st.pc = self.get(st, "ra"); return
        if mn == "jirl":
            t = g(1) + self.imm(num(o[2])); self.put(st, o[0], self.imm(i.next)); st.pc = t; return
        if mn in ("beqz", "bnez", "beq", "bne"):
            a = g(0); b = bv(0, 64) if mn[-1] == "z" else g(1); c = a == b
            if st.cx.decide(c if mn.startswith("beq") else z3.Not(c)): st.pc = self.imm(i.addr + num(o[-1]))
            return
        self.unsup(i)

class MIPS(Machine):
    zero = ("0",); sp = "29"
    def __init__(self, bits): self.w = bits
    def names(self): return [("%d" % k, self.w) for k in range(1, 32)] + [("f%d" % k, 64) for k in range(32)]
    def rn(self, s):
        s = s.lstrip("$"); return {"zero": "0", "sp": "29", "fp": "30", "ra": "31", "gp": "28", "s8": "30"}.get(s, s)
    def mem(self, st, o):
        m = re.match(r"^(-?\w*)\((\$\w+)\)$", o)
        if not m: raise Unsupported("address " + o)
        return self.get(st, self.rn(m.group(2))) + self.imm(num(m.group(1) or "0"))
    def delay(self, st, i, target):
        s = st.img.code.get(i.next)
        if s is None: raise Unsupported("delay slot of %s" % i)
        st.pc = bv(s.next, self.w); mn = s.mn
        if mn in ("j", "jr", "jal", "jalr", "b", "bal") or re.match(r"^b(eq|ne)", mn): raise Unsupported("branch in delay slot %s" % s)
        self.ex(st, s, s.mn, ops_of(s)); st.pc = target; st.cx.steps += 1
    def ex(self, st, i, mn, o):
        r = [self.rn(x) if x.startswith("$") and "(" not in x else x for x in o]; g = lambda k: self.get(st, r[k])
        if mn in ("nop", "ssnop", "ehb"): return
        if mn in ("addiu", "daddiu", "andi", "ori", "xori", "addi", "daddi"):
            if len(r) == 2: r = [r[0]] + r
            n = num(r[2]); a, b = g(1), self.imm(n if mn not in ("andi", "ori", "xori") else n & 0xffff)
            if mn == "addiu" and self.w == 64: v = z3.SignExt(32, z3.Extract(31, 0, a + b))
            else: v = {"a": a + b, "d": a + b, "o": a | b, "x": a ^ b}[mn[0]] if mn != "andi" else self.masked(st, a & b)
            self.put(st, r[0], v); return
        if mn in ("addu", "daddu", "subu", "dsubu", "and", "or", "xor"):
            a, b = g(1), g(2)
            v = {"addu": a + b, "daddu": a + b, "subu": a - b, "dsubu": a - b, "and": a & b, "or": a | b, "xor": a ^ b}[mn]
            self.put(st, r[0], self.masked(st, v) if mn == "and" else v); return
        if mn == "lui":
            v = bv((num(r[1]) << 16) & 0xffffffff, 32); self.put(st, r[0], v if self.w == 32 else z3.SignExt(32, v)); return
        if mn == "li": self.put(st, r[0], self.imm(num(r[1]))); return
        if mn in ("sll", "dsll", "srl", "dsrl"): self.put(st, r[0], g(1) << num(r[2]) if mn.endswith("sll") else z3.LShR(g(1), num(r[2]))); return
        if mn == "move": self.put(st, r[0], g(1)); return
        if mn == "mov.d": self.put(st, r[0], g(1)); return
        if mn == "sw": self.sto(st, self.mem(st, o[1]), 4, z3.Extract(31, 0, g(0)), i); return
        if mn == "lw": self.put(st, r[0], self.ext(self.ld(st, self.mem(st, o[1]), 4, i), self.w, True)); return
        if mn == "sd" or mn == "sdc1": self.sto(st, self.mem(st, o[1]), 8, g(0), i); return
        if mn == "ld" or mn == "ldc1": self.put(st, r[0], self.ld(st, self.mem(st, o[1]), 8, i)); return
        if mn == "jr": self.delay(st, i, g(0)); return
        if mn == "jalr":
            t = g(-1); self.put(st, r[0] if len(r) > 1 else "31", self.imm(i.next + 4)); self.delay(st, i, t); return
        if mn in ("b", "j"): self.delay(st, i, self.imm(symtarget(st, i, o[0]))); return
        if mn in ("bal", "jal"): self.put(st, "31", self.imm(i.next + 4)); self.delay(st, i, self.imm(symtarget(st, i, o[0]))); return
        if mn in ("beq", "bne", "beqz", "bnez"):
            a = g(0); b = bv(0, self.w) if mn[-1] == "z" else g(1); c = a == b
            t = st.cx.decide(c if mn.startswith("beq") else z3.Not(c)); self.delay(st, i, self.imm(num(o[-1])) if t else self.imm(i.next + 4)); return
        self.unsup(i)

class PPC(Machine):
    sp = "1"
    def __init__(self, bits, big=True): self.w = bits; self.big = big
    def names(self): return [("%d" % k, self.w) for k in range(32)] + [("f%d" % k, 64) for k in range(32)] + [("v%d" % k, 128) for k in range(32)] + [("lr", self.w), ("ctr", self.w), ("cr", 32), ("fpscr", 32), ("vrsave", 32)]
    def mem(self, st, o):
        m = re.match(r"^(-?\w+)\((\w+)\)$", o)
        if not m: raise Unsupported("address " + o)
        b = m.group(2)
        return (bv(0, self.w) if b == "0" else st.r[b]) + self.imm(num(m.group(1)))
    def ex(self, st, i, mn, o):
        R = lambda k: st.r[o[k]]; W = self.w
        if mn in ("nop", "ori") and (not o or o[:2] == ["0", "0"]): return
        if mn in ("mflr", "mfctr"): self.put(st, o[0], st.r[mn[2:]]); return
        if mn in ("mtlr", "mtctr"): st.r[mn[2:]] = R(0); return
        if mn in ("mr",): self.put(st, o[0], R(1)); return
        if mn == "fmr": st.r["f" + o[0]] = st.r["f" + o[1]]; return
        if mn == "li": self.put(st, o[0], self.imm(num(o[1]))); return
        if mn == "lis": self.put(st, o[0], self.imm(num(o[1]) << 16)); return
        if mn in ("addi", "subi"): self.put(st, o[0], (bv(0, W) if o[1] == "0" else R(1)) + self.imm(num(o[2]) * (1 if mn == "addi" else -1))); return
        if mn in ("addis",): self.put(st, o[0], (bv(0, W) if o[1] == "0" else R(1)) + self.imm(num(o[2]) << 16)); return
        if mn in ("add", "and", "or", "xor", "andc", "sub", "subf"):
            a, b = R(1), R(2); v = {"add": a + b, "and": a & b, "or": a | b, "xor": a ^ b, "andc": a & ~b, "sub": a - b, "subf": b - a}[mn]
            self.put(st, o[0], self.masked(st, v) if mn in ("and", "andc") else v); return
        if mn == "rlwinm":
            sh, mb, me = num(o[2]), num(o[3]), num(o[4]); a = self.ext(R(1), 32)
            mask = 0
            k = mb
            while True:
                mask |= 1 << (31 - k)
                if k == me: break
                k = (k + 1) % 32
            self.put(st, o[0], self.masked(st, self.ext(z3.RotateLeft(a, sh) & bv(mask, 32), W))); return
        if mn in ("rldicr", "clrrdi"):
            sh, me = (num(o[2]), num(o[3])) if mn == "rldicr" else (0, 63 - num(o[2]))
            mask = ((1 << 64) - 1) ^ ((1 << (63 - me)) - 1)
            self.put(st, o[0], self.masked(st, z3.RotateLeft(R(1), sh) & bv(mask, 64))); return
        if mn in ("clrrwi",):
            self.put(st, o[0], self.masked(st, R(1) & self.imm(-(1 << num(o[2]))))); return
        m = re.match(r"^(st|l)(w|d|fd|b|h)(z?)(u?)(x?)$", mn)
        if m and not (m.group(1) == "l" and m.group(2) in ("w", "b", "h") and not m.group(3)):
            k = m.group(2); n = {"w": 4, "d": 8, "fd": 8, "b": 1, "h": 2}[k]; rn = ("f" if k == "fd" else "") + o[0]
            a = self.mem(st, o[1]) if not m.group(5) else ((bv(0, W) if o[1] == "0" else st.r[o[1]]) + st.r[o[2]])
            if m.group(1) == "st": self.sto(st, a, n, self.ext(st.r[rn], 8 * n), i)
            else: st.r[rn] = self.ext(self.ld(st, a, n, i), 64 if k == "fd" else W)
            if m.group(4): self.put(st, re.search(r"\((\w+)\)", o[1]).group(1) if not m.group(5) else o[1], a)
            return
        if mn in ("stvx", "lvx", "stxvd2x", "lxvd2x"):
            a = (bv(0, W) if o[1] == "0" else st.r[o[1]]) + st.r[o[2]]; v = mn.endswith("vx") and "v" + o[0] or "v%d" % (int(o[0]) - 32)
            st.cx.must(a & 15 == 0, "C06", "aligned vector access (%s)" % i)
            if mn[0] == "s": self.sto(st, a, 16, st.r[v], i)
            else: st.r[v] = self.ld(st, a, 16, i)
            return
        if mn == "mffs": st.r["f" + o[0]] = z3.Concat(st.cx.fresh("fpscrhi", 32), st.r["fpscr"]); return
        if mn == "mtfsf":
            v = z3.Extract(31, 0, st.r["f" + o[1]]); k = num(o[0])
            mask = sum(0xf << (28 - 4 * b) for b in range(8) if k >> (7 - b) & 1)
            st.r["fpscr"] = z3.simplify((st.r["fpscr"] & bv(~mask & 0xffffffff, 32)) | (v & bv(mask, 32))); return
        if mn in ("mfcr",): self.put(st, o[0], self.ext(st.r["cr"], W)); return
        if mn in ("mtcr", "mtcrf"):
            k = 255 if mn == "mtcr" else num(o[0]); v = self.ext(R(-1), 32); mask = sum(0xf << (28 - 4 * b) for b in range(8) if k >> (7 - b) & 1)
            st.r["cr"] = z3.simplify((st.r["cr"] & bv(~mask & 0xffffffff, 32)) | (v & bv(mask, 32))); return
        if mn in ("mfspr", "mtspr", "mfvrsave", "mtvrsave"):
            if "vrsave" in mn or "256" in o:
                if mn[1] == "f": self.put(st, o[0], self.ext(st.r["vrsave"], W))
                else: st.r["vrsave"] = self.ext(R(-1), 32)
                return
        m = re.match(r"^cmpl?([wd])i$", mn)
        if m:
            f = 0
            if len(o) == 3: f = num(o[0].replace("cr", "")); o = o[1:]
            a = self.ext(R(0), 32) if m.group(1) == "w" else R(0); b = bv(num(o[1]) & ((1 << a.size()) - 1), a.size())
            lt, gt = (z3.ULT(a, b), z3.UGT(a, b)) if "l" in mn else (a < b, a > b)
            one = lambda c, s: z3.If(c, bv(1 << s, 32), bv(0, 32))
            v = one(lt, 31) | one(gt, 30) | one(a == b, 29); so = bv(1 << 28, 32) & st.cx.fresh("so", 32)
            st.r["cr"] = z3.simplify((st.r["cr"] & bv(~(0xf << (28 - 4 * f)) & 0xffffffff, 32)) | z3.LShR(v | so, 4 * f)); return
        if mn in ("bt", "bf", "beq", "bne"):
            if mn in ("bt", "bf"): bit = num(o[0]); t = o[1]
            else: f = num(o[0].replace("cr", "")) if len(o) > 1 else 0; bit = 4 * f + 2; t = o[-1]
            c = z3.Extract(31 - bit, 31 - bit, st.r["cr"]) == 1
            if st.cx.decide(c if mn in ("bt", "beq") else z3.Not(c)): st.pc = self.imm(num(t))
            return
        if mn in ("b", "bl"):
            if mn == "bl": st.r["lr"] = self.imm(i.next)
            st.pc = self.imm(symtarget(st, i, o[0])); return
        if mn == "bcl": st.r["lr"] = self.imm(i.next); st.pc = self.imm(symtarget(st, i, o[-1])); return
        if mn == "blr": st.pc = st.r["lr"]; return
        if mn == "bctr": st.pc = st.r["ctr"]; return
        if mn == "bctrl": st.pc = st.r["ctr"]; st.r["lr"] = self.imm(i.next); return
        self.unsup(i)

class S390(Machine):
    w = 64; big = True; sp = "r15"
    def names(self): return [("r%d" % k, 64) for k in range(16)] + [("f%d" % k, 64) for k in range(16)] + [("fpc", 32)]
    def mem(self, st, o):
        m = re.match(r"^(-?\w+)(?:\(([^)]*)\))?$", o)
        if not m: raise Unsupported("address " + o)
        a = self.imm(num(m.group(1)))
        for x in (m.group(2) or "").split(","):
            x = x.strip().lstrip("%")
            if x and x not in ("0", "r0"): a = a + st.r[x]
        return a
    def ex(self, st, i, mn, o):
        r = [x.lstrip("%") for x in o]; R = lambda k: st.r[r[k]]
        if mn in ("nop", "nopr", "bcr", "bc") and (not o or r[0] in ("0", "r0") or mn.startswith("nop")): return
        if mn in ("nill", "nilh", "nilf"):
            n = num(o[1]); m = {"nill": 0xffffffffffff0000 | n & 0xffff, "nilh": 0xffffffff0000ffff | (n & 0xffff) << 16, "nilf": 0xffffffff00000000 | n & 0xffffffff}[mn]
            self.put(st, r[0], self.masked(st, R(0) & bv(m, 64))); return
        if mn in ("aghi", "agfi"): self.put(st, r[0], R(0) + self.imm(num(o[1]))); return
        if mn in ("aghik",): self.put(st, r[0], R(1) + self.imm(num(o[2]))); return
        if mn in ("agr", "sgr", "ngr", "ogr", "xgr"): a, b = R(0), R(1); self.put(st, r[0], {"a": a + b, "s": a - b, "n": a & b, "o": a | b, "x": a ^ b}[mn[0]]); return
        if mn in ("lay", "la"): self.put(st, r[0], self.mem(st, o[1])); return
        if mn in ("lghi", "lgfi"): self.put(st, r[0], self.imm(num(o[1]))); return
        if mn == "lgr": self.put(st, r[0], R(1)); return
        if mn in ("ldr",): self.put(st, r[0], R(1)); return
        if mn == "larl": self.put(st, r[0], self.imm(symtarget(st, i, o[1]))); return
        if mn == "mvghi": self.sto(st, self.mem(st, o[0]), 8, self.imm(num(o[1])), i); return
        if mn in ("stfpc",): self.sto(st, self.mem(st, o[0]), 4, st.r["fpc"], i); return
        if mn in ("lfpc",): st.r["fpc"] = self.ld(st, self.mem(st, o[0]), 4, i); return
        if mn in ("stg", "std", "stdy"): self.sto(st, self.mem(st, o[1]), 8, R(0), i); return
        if mn in ("lg", "ld", "ldy", "ltg"):
            v = self.ld(st, self.mem(st, o[1]), 8, i); self.put(st, r[0], v)
            if mn == "ltg": st.flags = (v, bv(0, 64))
            return
        if mn == "ltgr": v = R(1); self.put(st, r[0], v); st.flags = (v, bv(0, 64)); return
        if mn == "cghi": st.flags = (R(0), self.imm(num(o[1]))); return
        if mn in ("stmg", "lmg"):
            a, b = int(r[0][1:]), int(r[1][1:]); base = self.mem(st, o[2]); n = (b - a) % 16 + 1
            if mn == "stmg":
                for k in range(n): self.sto(st, base + 8 * k, 8, st.r["r%d" % ((a + k) % 16)], i)
            else:
                v = [self.ld(st, base + 8 * k, 8, i) for k in range(n)]
                for k in range(n): self.put(st, "r%d" % ((a + k) % 16), v[k])
            return
        if mn == "br": st.pc = R(0); return
        if mn == "basr":
            t = R(1) if r[1] != "r0" else bv(i.next, 64); self.put(st, r[0], self.imm(i.next)); st.pc = t; return
        if mn in ("brasl", "bras"): self.put(st, r[0], self.imm(i.next)); st.pc = self.imm(symtarget(st, i, o[1])); return
        if mn in ("j", "jg"): st.pc = self.imm(symtarget(st, i, o[0])); return
        m = re.match(r"^jg?(e|ne|z|nz|lh|nlh)$", mn)
        if m:
            c = self.flagcond(st, "eq" if m.group(1) in ("e", "z", "nlh") else "ne")
            if st.cx.decide(c): st.pc = self.imm(num(o[0]))
            return
        self.unsup(i)

class ARM(Machine):
    w = 32; sp = "sp"
    N = ["r%d" % k for k in range(13)] + ["sp", "lr"]
    def names(self): return [(r, 32) for r in self.N] + [("d%d" % k, 64) for k in range(32)] + [("fpscr", 32)]
    def val(self, st, i, o, w=32):
        if o[0][0] == "#": v = self.imm(num(o[0]))
        else: v = self.gr(st, i, o[0])
        for x in o[1:]:
            k, n = x.split(); v = v << num(n) if k == "lsl" else z3.LShR(v, num(n)) if k == "lsr" else self.unsup(i)
        return v
    def gr(self, st, i, r): return self.imm(i.addr + self.pcoff) if r == "pc" else st.r[r]
    pcoff = 8
    def rlist(self, o):
        out = []
        for x in o.strip("{} ").split(","):
            x = x.strip()
            m = re.match(r"^([a-z])(\d+)\s*-\s*[a-z](\d+)$", x)
            if m: out += ["%s%d" % (m.group(1), k) for k in range(int(m.group(2)), int(m.group(3)) + 1)]
            elif x: out.append(x)
        return out
    def addr(self, st, i, o, k):
        m = re.match(r"^\[([^\]]*)\](!?)$", o[k]); p = [x.strip() for x in m.group(1).split(",")]
        b = self.gr(st, i, p[0])
        if p[0] == "pc": b = b & self.imm(-4)
        a = b + self.val(st, i, p[1:]) if len(p) > 1 else b
        if m.group(2): st.r[p[0]] = z3.simplify(a)
        if len(o) > k + 1: st.r[p[0]] = z3.simplify(b + self.val(st, i, o[k + 1:]))
        return a
    def setr(self, st, r, v):
        if r == "pc": st.pc = z3.simplify(v)
        else: st.r[r] = z3.simplify(v)
    def ex(self, st, i, mn, o):
        mn = mn.replace(".w", "")
        if mn in ("nop", "bti"): return
        m = re.match(r"^(add|sub|bic|and|orr|eor|rsb|mvn|mov|movw|movt|cmp|addw|subw)(s?)$", mn)
        if m:
            k = m.group(1).rstrip("w") if m.group(1) in ("addw", "subw") else m.group(1)
            if k == "cmp": st.flags = (self.gr(st, i, o[0]), self.val(st, i, o[1:])); return
            if k in ("mov", "mvn", "movw"): v = self.val(st, i, o[1:]); r = ~v if k == "mvn" else v
            elif k == "movt": r = (st.r[o[0]] & self.imm(0xffff)) | self.imm(num(o[1]) << 16)
            else:
                if len(o) == 2: o = [o[0]] + o
                a, b = self.gr(st, i, o[1]), self.val(st, i, o[2:]); r = {"add": a + b, "sub": a - b, "bic": a & ~b, "and": a & b, "orr": a | b, "eor": a ^ b, "rsb": b - a}[k]
                if o[1] == "pc" and k in ("add", "sub") and self.pcoff == 4: r = (a & self.imm(-4)) + (b if k == "add" else -b)
                if k in ("bic", "and"): r = self.masked(st, r, a)
                if m.group(2): st.flags = (a, b)
            self.setr(st, o[0], r); return
        if mn == "adr": self.setr(st, o[0], self.val(st, i, o[1:]) + ((i.addr + self.pcoff) & ~3)); return
        if mn in ("str", "ldr"):
            if mn == "str": v = self.gr(st, i, o[0]); self.sto(st, self.addr(st, i, o, 1), 4, v, i)
            else: v = self.ld(st, self.addr(st, i, o, 1), 4, i); self.setr(st, o[0], v)
            return
        if mn in ("strd", "ldrd"):
            if mn == "strd":
                v = [st.r[x] for x in o[:2]]; a = self.addr(st, i, o, 2)
                for k in (0, 1): self.sto(st, a + 4 * k, 4, v[k], i)
            else:
                a = self.addr(st, i, o, 2); v = [self.ld(st, a + 4 * k, 4, i) for k in (0, 1)]
                for k in (0, 1): self.setr(st, o[k], v[k])
            return
        if mn in ("push", "pop", "vpush", "vpop"):
            o = ["sp!", o[0]]; mn = {"push": "stmdb", "pop": "ldm", "vpush": "vstmdb", "vpop": "vldmia"}[mn]
        m = re.match(r"^(v?)(stm|ldm)(ia|db|fd|ea)?$", mn)
        if m:
            if len(o) == 1: o = ["sp!"] + o
            wb = o[0].endswith("!"); b = o[0].rstrip("!"); L = self.rlist(o[1]); n = 8 if m.group(1) else 4; base = st.r[b]
            k = m.group(3) or "ia"
            if k == "fd": k = "db" if m.group(2) == "stm" else "ia"
            if k == "ea": k = "ia" if m.group(2) == "stm" else "db"
            lo = base - n * len(L) if k == "db" else base
            if not m.group(1):
                order = self.N + ["pc"]; L = sorted(L, key=order.index)
            if m.group(2) == "stm":
                v = [st.r[x] for x in L]
                if wb: st.r[b] = z3.simplify(base + (n if k == "ia" else -n) * len(L))
                for j, x in enumerate(v): self.sto(st, lo + n * j, n, x, i)
            else:
                v = [self.ld(st, lo + n * j, n, i) for j in range(len(L))]
                if wb: st.r[b] = z3.simplify(base + (n if k == "ia" else -n) * len(L))
                for x, y in zip(L, v): self.setr(st, x, y)
            return
        if mn in ("vstr", "vldr"):
            if mn == "vstr": self.sto(st, self.addr(st, i, o, 1), 8, st.r[o[0]], i)
            else: st.r[o[0]] = self.ld(st, self.addr(st, i, o, 1), 8, i)
            return
        if mn == "mrc" and o[0] == "p15" and o[3:] == ["c13", "c0", "#0x3"] and "seg_tp" in st.r:
            st.r[o[2]] = st.r["seg_tp"]; return       # thread pointer (the low bits, which hold the cpu number, are cleared by the code)
        if mn in ("vmrs", "vmsr"):
            if mn == "vmrs": st.r[o[0]] = st.r["fpscr"]
            else: st.r["fpscr"] = st.r[o[1]]
            return
        if mn in ("bx",): st.pc = self.gr(st, i, o[0]); return
        if mn in ("blx", "bl"):
            t = st.r[o[0]] if o[0] in st.r else self.imm(symtarget(st, i, o[0])); st.r["lr"] = self.imm(i.next | (1 if self.pcoff == 4 else 0)); st.pc = t; return
        if mn == "b": st.pc = self.imm(symtarget(st, i, o[0])); return
        m = re.match(r"^b(eq|ne|lt|ge|gt|le|lo|hs|hi|ls)$", mn)
        if m:
            if st.cx.decide(self.flagcond(st, m.group(1))): st.pc = self.imm(num(o[0]))
            return
        self.unsup(i)

class SPARC(Machine):
    """register windows: the window stack holds what the processor has not written out; flushw writes it out"""
    w = 64; big = True; sp = "o6"; zero = ("g0",)
    def names(self): return [("%s%d" % (c, k), 64) for c in "goli" for k in range(8) if (c, k) != ("g", 0)] + [("f%d" % k, 64) for k in range(0, 64, 2)]
    def rn(self, s): s = s.lstrip("%"); return {"sp": "o6", "fp": "i6"}.get(s, s)
    def val(self, st, o):
        o = o.strip()
        if o.startswith("%"): return self.get(st, self.rn(o))
        return self.imm(num(o))
    def mem(self, st, o):
        m = re.match(r"^\[?(%\w+)(?:\s*([+-])\s*(-?\w+|%\w+))?\]?$", o)
        if not m: raise Unsupported("address " + o)
        a = self.val(st, m.group(1))
        if m.group(3): b = self.val(st, m.group(3)); a = a + b if m.group(2) == "+" else a - b
        return a
    def save(self, st, i, o):
        v = self.val(st, o[0]) + self.val(st, o[1]) if o else None
        st.wins = getattr(st, "wins", []) + [{r: st.r[r] for r in ["l%d" % k for k in range(8)] + ["i%d" % k for k in range(8)]}]
        for k in range(8): st.r["i%d" % k] = st.r["o%d" % k]
        for k in range(8):
            if k != 6: st.r["o%d" % k] = st.cx.fresh("win.o%d" % k, 64)
            st.r["l%d" % k] = st.cx.fresh("win.l%d" % k, 64)
        if o: self.put(st, self.rn(o[2]), v)
    def restore(self, st, i, o):
        v = self.val(st, o[0]) + self.val(st, o[1]) if o else None
        for k in range(8): st.r["o%d" % k] = st.r["i%d" % k]
        if getattr(st, "wins", []):
            st.r.update(st.wins[-1]); st.wins = st.wins[:-1]
        else:
            base = st.r["o6"] + 2047
            for k in range(8): st.r["l%d" % k] = self.ld(st, base + 8 * k, 8, "window fill")
            for k in range(8): st.r["i%d" % k] = self.ld(st, base + 64 + 8 * k, 8, "window fill")
        if o: self.put(st, self.rn(o[2]), v)
    def flush(self, st, i):
        ws = getattr(st, "wins", []); newer = {r: st.r[r] for r in ["i%d" % k for k in range(8)]}
        for wd in reversed(ws):
            base = newer["i6"] + 2047
            for k in range(8): self.sto(st, base + 8 * k, 8, wd["l%d" % k], "window spill")
            for k in range(8): self.sto(st, base + 64 + 8 * k, 8, wd["i%d" % k], "window spill")
            newer = wd
        st.wins = []
    def delay(self, st, i, target):
        s = st.img.code.get(i.next)
        if s is None or s.mn in ("call", "jmp", "ret", "retl", "ba", "b", "jmpl"): raise Unsupported("delay slot of %s" % i)
        st.pc = bv(s.next, 64); self.ex(st, s, s.mn, ops_of(s)); st.pc = target; st.cx.steps += 1
    def ex(self, st, i, mn, o):
        if mn == "nop": return
        if mn == "save": self.save(st, i, o); return
        if mn == "restore": self.restore(st, i, o); return
        if mn == "flushw": self.flush(st, i); return
        if mn in ("add", "sub", "and", "or", "xor", "andn"):
            a, b = self.val(st, o[0]), self.val(st, o[1]); v = {"add": a + b, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b, "andn": a & ~b}[mn]
            self.put(st, self.rn(o[2]), self.masked(st, v) if mn in ("and", "andn") else v); return
        if mn in ("mov", "set"): self.put(st, self.rn(o[1]), self.val(st, o[0])); return
        if mn == "clr": self.put(st, self.rn(o[0]), bv(0, 64)); return
        if mn == "inc": self.put(st, self.rn(o[-1]), self.val(st, o[-1]) + (num(o[0]) if len(o) > 1 else 1)); return
        if mn == "stx": self.sto(st, self.mem(st, o[1]), 8, self.val(st, o[0]), i); return
        if mn == "ldx": self.put(st, self.rn(o[1]), self.ld(st, self.mem(st, o[0]), 8, i)); return
        if mn == "rd":
            if o[0] == "%pc": self.put(st, self.rn(o[1]), self.imm(i.addr)); return
        if mn in ("ret", "retl"): self.delay(st, i, self.get(st, "i7" if mn == "ret" else "o7") + 8); return
        if mn == "jmp": self.delay(st, i, z3.simplify(self.mem(st, o[0]))); return
        if mn == "jmpl":
            t = z3.simplify(self.mem(st, o[0])); self.put(st, self.rn(o[1]), self.imm(i.addr)); self.delay(st, i, t); return
        if mn == "call":
            t = self.val(st, o[0]) if o[0].startswith("%") else self.imm(symtarget(st, i, o[0], True)); self.put(st, "o7", self.imm(i.addr)); self.delay(st, i, t); return
        if mn in ("ba", "b"): self.delay(st, i, self.imm(symtarget(st, i, o[-1], True))); return
        self.unsup(i)

# ------------------------------------------------------------------------------------------------ calling conventions
class Risc:
    """arguments in registers, return address in a register; the variations are parameters"""
    guard = None; prefix = ""; tail = True; segs = []; tibslots = []; redzone = 0; argarea = 0; align = 16; retptr = None; byref = False
    sret = None; fpctl = []; ownabove = 0; bias = 0; entryroom = 0; jumponly = []; masks = {}; fixed = {}; tibreg = None; tibself = []
    def __init__(self, m, saved, args, ret, lr, **kw):
        self.m = m; self.w = m.w; self.big = m.big; self.sp = m.sp; self.saved = saved; self.args = args; self.ret = ret; self.lr = lr
        self.__dict__.update(kw); self.needs_sret = self.sret is not None
    def init_regs(self, cx, st, who):
        for n, w in self.m.names(): st.r[n] = cx.fresh("%s.%s" % (who, n), w)
        st.flags = None; st.wins = []
    def at_entry(self, st, addr):
        for r in getattr(self, "target_regs", []): st.r[r] = bv(addr, self.w)
    def reg(self, st, r):
        v = st.r[r]
        return v & self.masks[r] if r in self.masks else v
    def raof(self, v): return v
    def setra(self, st, ra): st.r[self.lr] = ra
    def getra(self, st): return st.r[self.lr]
    def setsp(self, st, sp): st.r[self.sp] = z3.simplify(sp - self.bias)
    def getsp(self, st): return z3.simplify(st.r[self.sp] + self.bias)
    def call(self, cx, st, sp, args, sret=None):
        c = Call(); c.ra = cx.fresh("ra", self.w); c.sp = sp; c.sret = sret; self.setsp(st, sp); c.spe = sp; self.setra(st, c.ra); st.wins = []
        for r, y in (self.fixed.items() if not getattr(st, "transfer", True) else ()): st.r[r] = bv(st.img.syms[y], self.w)
        if self.tibreg: st.r[self.tibreg] = st.r["seg_" + self.segs[0]]
        a = list(self.args)
        if sret is not None: st.r[a.pop(0)] = sret
        for r, v in zip(a, args): st.r[r] = v
        c.regs = {r: self.reg(st, r) for r in self.saved + self.fpctl}
        return c
    def returned(self, cx, st, c):
        ok = self.getsp(st) == c.sp
        return z3.And(ok, st.r[self.retptr] == c.sret) if self.retptr and c.sret is not None else ok
    def ptr_result(self, cx, st, c): return st.r[self.ret[0]]
    def transfer_result(self, cx, st, c):
        n = self.w // 8
        if self.needs_sret: return st.mem.read(c.sret, n, note=False), st.mem.read(c.sret + n, n, note=False)
        return st.r[self.ret[0]], st.r[self.ret[1]]
    def enter_fn(self, cx, st, ontop):
        n = self.w // 8
        e = Call(); e.sp = self.getsp(st); e.ra = self.getra(st); e.aligned = e.sp & (self.align - 1) == 0; e.spx = z3.simplify(e.sp + self.entryroom); e.sret = None; e.ontop = ontop
        a = list(self.args)
        if ontop and self.needs_sret: e.sret = st.r[a.pop(0)]
        if self.byref:
            p = st.r[a[0]]; e.args = (st.mem.read(p, n, "fn argument"), st.mem.read(p + n, n, "fn argument"))
        else: e.args = (st.r[a[0]], st.r[a[1]])
        return e
    def leave_fn(self, cx, st, e, rv, regs):
        keep = {r: st.r[r] for r in self.saved + self.fpctl + self.jumponly + [self.sp] if r in st.r}
        self.init_regs(cx, st, "fnret")
        for r, v in keep.items(): st.r[r] = v if r not in self.masks else z3.simplify((v & self.masks[r]) | (st.r[r] & ~self.masks[r]))
        if self.tibreg: keep[self.tibreg] = st.r[self.tibreg] = st.r.get("seg_" + self.segs[0], keep.get(self.tibreg, st.r[self.tibreg]))
        self.setsp(st, e.sp); st.pc = e.ra; n = self.w // 8
        if rv is not None:
            if self.needs_sret:
                st.mem.write(e.sret, n, rv[0], "fn result"); st.mem.write(e.sret + n, n, rv[1], "fn result")
                if self.retptr: st.r[self.retptr] = e.sret
            else: st.r[self.ret[0]], st.r[self.ret[1]] = rv
    def exit_arg(self, st): return z3.Extract(31, 0, st.r[self.args[0]])
    def after_call_sp(self, e): return e.sp

class Sparc64(Risc):
    def setra(self, st, ra): st.r["o7"] = z3.simplify(ra - 8)
    def getra(self, st): return z3.simplify(st.r["o7"] + 8)

class Ppc64v1(Risc):
    """functions are denoted by descriptors: entry address, TOC pointer, environment"""
    def entry(self, img, name):
        d = img.syms[name]; return int.from_bytes(bytes(img.bytes[d + k] for k in range(8)), "big")
    def fn_pointer(self, cx, run, st, fn):
        e = cx.fresh("entry", 64); cx.add(z3.UGT(e, 0x180000)); t = cx.fresh("toc", 64)
        run.window(fn, fn + 24); run.fnread.append((fn, fn + 24))
        st.mem.write(fn, 8, e, "havoc"); st.mem.write(fn + 8, 8, t, "havoc")
        st.fntoc = t; return e
    def enter_fn(self, cx, st, ontop):
        cx.must(st.r["2"] == st.fntoc, "C06", "the function is entered with the TOC pointer of its descriptor")
        return Risc.enter_fn(self, cx, st, ontop)

class Win64:
    """x86-64 Windows: transfer_t is passed and returned by reference; the thread information block holds the stack limits"""
    def __init__(self):
        self.m = X86(64); self.w = 64; self.big = False; self.sp = "rsp"; self.redzone = 0; self.argarea = 32; self.align = 16; self.needs_sret = True
        self.saved = ["rbx", "rbp", "rdi", "rsi", "r12", "r13", "r14", "r15"]; self.xmm = ["xmm%d" % k for k in range(6, 16)]; self.saved = self.saved + self.xmm; self.fpctl = ["mxcsr", "x87cw"]
        self.guard = None; self.prefix = ""; self.tail = True; self.segs = ["gs"]; self.tibslots = [("gs", o, 8) for o in (0x8, 0x10, 0x20, 0x1478)]; self.tibself = [("gs", 0x30, 8, None)]
        self.entry_checks = [tibcheck(8, 0x10, 0x1478)]; self.entryroom = 40
    def init_regs(self, cx, st, who):
        for n, w in self.m.names(): st.r[n] = cx.fresh("%s.%s" % (who, n), w)
        cx.add(z3.Extract(31, 16, st.r["mxcsr"]) == 0)
    def call(self, cx, st, sp, args, sret=None):
        c = Call(); c.ra = cx.fresh("ra", 64); c.sp = sp; c.sret = sret
        st.mem.write(sp - 8, 8, c.ra, "call"); st.r["rsp"] = z3.simplify(sp - 8); c.spe = z3.simplify(sp - 8)
        a = ([sret] if sret is not None else []) + list(args)
        for r, v in zip(("rcx", "rdx", "r8", "r9"), a): st.r[r] = v
        c.regs = {r: st.r[r] for r in self.saved + self.fpctl}
        return c
    def returned(self, cx, st, c): return z3.And(st.r["rsp"] == c.sp, st.r["rax"] == c.sret) if c.sret is not None else st.r["rsp"] == c.sp
    def ptr_result(self, cx, st, c): return st.r["rax"]
    def transfer_result(self, cx, st, c): return st.mem.read(c.sret, 8, note=False), st.mem.read(c.sret + 8, 8, note=False)
    def enter_fn(self, cx, st, ontop):
        e = Call(); e.sp = st.r["rsp"]; e.ra = st.mem.read(e.sp, 8, "fn return address"); e.aligned = (e.sp + 8) & 15 == 0; e.spx = z3.simplify(e.sp + 40); e.sret = None
        p = st.r["rcx"]
        if ontop: e.sret = st.r["rcx"]; p = st.r["rdx"]
        e.args = (st.mem.read(p, 8, "fn argument"), st.mem.read(p + 8, 8, "fn argument"))
        return e
    def leave_fn(self, cx, st, e, rv, regs):
        keep = {r: st.r[r] for r in self.saved + self.fpctl}
        self.init_regs(cx, st, "fnret"); st.r.update(keep); st.r["rsp"] = z3.simplify(e.sp + 8); st.pc = e.ra
        if rv is not None:
            st.mem.write(e.sret, 8, rv[0], "fn result"); st.mem.write(e.sret + 8, 8, rv[1], "fn result"); st.r["rax"] = e.sret
    def exit_arg(self, st): return z3.Extract(31, 0, st.r["rcx"])
    def after_call_sp(self, e): return z3.simplify(e.sp + 8)

def tibcheck(base, limit, dealloc):
    def f(run, st, e, top, size, bottom):
        seg = st.r["seg_" + run.abi.segs[-1]]; n = run.w // 8; rd = lambda o: st.mem.read(seg + o, n, note=False)
        b, l, d = rd(base), rd(limit), rd(dealloc)
        run.must(b == top, "C06", "the thread's stack base at entry is the top of the new stack")
        run.must(l == bottom, "C06", "the thread's stack limit at entry is the bottom of the new stack")
        run.must(z3.And(z3.ULE(d, bottom), z3.ULE(bottom - d, 65536)) if dealloc else True, "C06", "the thread's deallocation stack at entry is the bottom of the new stack")
    return f

class Win32(SysV32):
    """i386 Windows: transfer_t in eax:edx; the thread information block holds the exception chain and the stack limits"""
    def __init__(self, prefix="_"):
        SysV32.__init__(self, regret=True, prefix=prefix); self.segs = ["fs"]; self.tibslots = [("fs", o, 4) for o in (0x0, 0x4, 0x8, 0xe0c, 0x10)]; self.tibself = [("fs", 0x18, 4, None)]
        self.entry_checks = [tibcheck(4, 8, 0xe0c), sehcheck]; self.align = 4; self.fnalign = 4
    def seh(self, run, st):
        """the exception chain of the thread that makes the context: one or two records on its stack"""
        cx = run.cx; r1, r2 = z3.simplify(run.spA + 128), z3.simplify(run.spA + 144); last = bv(0xffffffff, 32); self.handler = cx.fresh("lasthandler", 32)
        w = lambda a, v: st.mem.write(a, 4, v, "havoc")
        w(st.r["seg_fs"], r1)
        if cx.decide(cx.fresh("onerecord", 1) == 1): w(r1, last); w(r1 + 4, self.handler)
        else: w(r1, r2); w(r1 + 4, cx.fresh("handler", 32)); w(r2, last); w(r2 + 4, self.handler)
def sehcheck(run, st, e, top, size, bottom):
    rd = lambda a: st.mem.read(a, 4, note=False); r = rd(st.r["seg_fs"])
    run.must(z3.And(z3.ULE(e.sp, r), z3.ULE(r, top - 8), z3.ULE(r, r + 8)), "C06", "the exception chain at entry starts on the new stack")
    run.must(rd(r) == 0xffffffff, "C06", "the exception chain at entry has one record"); run.must(rd(r + 4) == run.abi.handler, "C06", "the exception record at entry names the last handler of the maker")
