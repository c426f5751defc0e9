"""C01-C06 (and the machine side of C30): which builds, which programs, which assertions"""
import itertools, multiprocessing as mp, time, traceback, os, concurrent.futures as cf
from . import obj, x86, scen, run, native
from .core import *
G = "-DBOOST_CONTEXT_TLS_STACK_PROTECTOR"; T = "-DBOOST_USE_TSX"
P_RET = ["return"]
P4 = ["jump,jump,jump", "ontop,ontop,ontop", "jump,ontop,jump", "ontop,jump,ontop"]
P8 = [",".join(p) for p in itertools.product(("jump", "ontop"), repeat=3)]
P16 = [",".join(p) for p in itertools.product(("jump", "ontop"), repeat=4)]
class Cfg:
    def __init__(self, name, target, stem, abi, flags=(), fmt="elf", nat=None, opts=None, **kw):
        self.name = name; self.target = target; self.stem = stem; self.abi = abi; self.flags = tuple(flags); self.fmt = fmt; self.nat = nat; self.opts = opts or {}; self.kw = kw
X64 = "x86_64-linux-gnu"; X32 = "i386-linux-gnu"; S64 = "x86_64_sysv_elf_gas"; S32 = "i386_sysv_elf_gas"
X86 = [
    Cfg("x86-64 ELF", X64, S64, lambda: x86.SysV64(), nat=64),
    Cfg("x86-64 ELF CET", X64, S64, lambda: x86.SysV64(), ("-fcf-protection=full",), nat=64),
    Cfg("x86-64 ELF TSX", X64, S64, lambda: x86.SysV64(fp=False), (T,), nat=64),
    Cfg("i386 ELF", X32, S32, lambda: x86.SysV32(), nat=32),
    Cfg("i386 ELF TSX", X32, S32, lambda: x86.SysV32(fp=False), (T,), nat=32),
]
GUARD = [
    Cfg("x86-64 ELF guard", X64, S64, lambda: x86.SysV64(guard=True), (G,), nat=64),
    Cfg("x86-64 ELF guard TSX", X64, S64, lambda: x86.SysV64(guard=True, fp=False), (G, T), nat=64),
    Cfg("i386 ELF guard", X32, S32, lambda: x86.SysV32(guard=True), (G,), nat=32),
]
SHST = [Cfg("x86-64 ELF shadow stack", X64, S64, lambda: x86.SysV64(), ("-fcf-protection=full", "-DSHADOW_STACK_SYSCALL=1"), opts=dict(ss=True))]
_IMG = {}
_CFG = []
def _one(a):
    ci, ops = a
    c = _CFG[ci]
    try:
        t = time.time()
        f, S = run.explore(c.abi(), _IMG[ci], ops, c.opts)
        return ci, ops, [(x[0], x[1], x[2]) for x in f], S, None
    except Unsupported as x: return ci, ops, [], {}, "unsupported: %s" % x
    except Exception: return ci, ops, [], {}, traceback.format_exc()[-1500:]
def decide(pid, cfgs, programs, tmp, ncpu, deadline):
    out = dict(queries=0, solver=0.0, paths=0, steps=0, checks=0, fns=[], samples=[], validated=0, info={}, errs=[], viols=[], late_errs=[])
    global _CFG
    _CFG = cfgs; _IMG.clear()
    with cf.ThreadPoolExecutor(ncpu) as ex:
        fut = [ex.submit(obj.build, tmp, "%d" % i, c.target, c.stem, c.flags, c.fmt, **c.kw) for i, c in enumerate(cfgs)]
        for i, f in enumerate(fut):
            try: _IMG[i] = f.result()
            except obj.AsmError as e: out["errs"].append("%s: cannot assemble: %s" % (cfgs[i].name, str(e)[-1200:]))
    if out["errs"]: return out
    work = sorted([(i, p) for i in range(len(cfgs)) for p in programs], key=lambda x: -len(x[1]))
    progs = []
    for c in cfgs:
        out["fns"] += ["%s_%s" % (f, c.stem) for f in ("make", "jump", "ontop")]
    with mp.get_context("fork").Pool(ncpu) as pool:
        try:
            for ci, ops, fails, S, err in pool.imap_unordered(_one, work):
                c = cfgs[ci]
                if err: out["errs"].append("%s, %s: %s" % (c.name, ops, err)); continue
                for k, n in (("queries", "queries"), ("solver", "time"), ("paths", "paths"), ("steps", "steps"), ("checks", "checks")): out[k] += S[n]
                mine = [f for f in fails if pid in f[0] or pid == "C06"]
                progs.append(dict(build=c.name, program=ops, paths=S["paths"], queries=S["queries"], solver_s=round(S["time"], 2), assertions=S["checks"], machine_instructions=S["steps"]))
                if not fails and not S["reach"]: out["errs"].append("%s, %s: vacuous, the program never reached its goal" % (c.name, ops))
                for tags, msg, model in mine[:1]:
                    v = dict(kind="machine code", msg=msg, where=c.name, job=c.name + "/" + ops, inputs=sorted(model.items())[:80], events=[], detail="program: make, first switch, then " + ops)
                    if c.nat:
                        ok, txt = native.replay(tmp, "v%d%s" % (ci, ops), c.nat, c.stem, c.flags, model, ops, guard=G in c.flags, tsx=T in c.flags)
                        v["native"] = "native replay: " + ("could not run: " + txt if ok is None else "not observable natively: " + txt if ok else "REPRODUCED: " + txt)
                    out["viols"].append(v)
                if not fails and c.nat:
                    ok, txt = native.replay(tmp, "s%d%s" % (ci, ops), c.nat, c.stem, c.flags, S.get("model") or {}, ops, guard=G in c.flags, tsx=T in c.flags)
                    if ok: out["validated"] += 1
                    elif ok is False: out["late_errs"].append("%s, %s: the solver finds no violation but the native run reports: %s" % (c.name, ops, txt))
                    if len(out["samples"]) < 4: out["samples"].append(dict(build=c.name, program=ops, model=sorted((S.get("model") or {}).items())[:24], native=txt))
                if out["viols"] or out["errs"]: break
                if time.time() > deadline: out["errs"].append("time budget exhausted"); break
        finally: pool.terminate()
    out["info"] = dict(programs=progs, builds=["%s (%s, %s %s)" % (c.name, c.target, c.stem, " ".join(c.flags)) for c in cfgs])
    if out["viols"]: out["errs"] = []
    if not out["samples"]: out["samples"] = [dict(build=p["build"], program=p["program"]) for p in progs[:3]]
    return out
# ---------------------------------------------------------------- C06: the other processors and object formats
from . import ports as P
def _r(n, a, b): return ["%s%d" % (n, k) for k in range(a, b + 1)]
M64L = z3.BitVecVal((1 << 64) - 1, 128); CRM = z3.BitVecVal(0x00fff000, 32)
def aarch64(prefix=""): 
    v = _r("v", 8, 15); return P.Risc(P.A64(), _r("x", 19, 29) + v, ["x0", "x1", "x2"], ["x0", "x1"], "x30", masks={r: M64L for r in v}, prefix=prefix)
def riscv(): return P.Risc(P.RV64(), _r("s", 0, 11) + _r("fs", 0, 11), ["a0", "a1", "a2"], ["a0", "a1"], "ra")
def loong(): return P.Risc(P.LA64(), _r("s", 0, 8) + ["fp"] + _r("fs", 0, 7), ["a0", "a1", "a2"], ["a0", "a1"], "ra")
def o32(): return P.Risc(P.MIPS(32), _r("", 16, 23) + ["30"] + ["f%d" % k for k in range(20, 32, 2)], ["4", "5", "6", "7"], ["2", "3"], "31", sret=1, retptr="2", align=8, argarea=16, ownabove=16, entryroom=16, target_regs=["25"])
def n64(): return P.Risc(P.MIPS(64), _r("", 16, 23) + ["28", "30"] + _r("f", 24, 31), ["4", "5", "6"], ["2", "3"], "31", fixed={"28": "_gp"}, target_regs=["25"])
def ppc32(): return P.Risc(P.PPC(32), _r("", 14, 31) + _r("f", 14, 31) + ["cr"], ["3", "4", "5", "6"], ["3"], "lr", sret=1, byref=True, masks={"cr": CRM}, fpctl=["fpscr"], argarea=8, ownabove=8, entryroom=8, tail=False)
def ppc64v2(): return P.Risc(P.PPC(64, False), _r("", 14, 31) + _r("f", 14, 31) + ["cr"], ["3", "4", "5"], ["3", "4"], "lr", masks={"cr": CRM}, redzone=288, ownabove=32, entryroom=32, target_regs=["12"])
def ppc64v1(): return P.Ppc64v1(P.PPC(64), _r("", 14, 31) + _r("f", 14, 31) + ["cr", "2"], ["3", "4", "5", "6"], ["3"], "lr", sret=1, masks={"cr": CRM}, jumponly=["2"], redzone=288, ownabove=112, entryroom=64)
def s390x(): return P.Risc(P.S390(), _r("r", 6, 13) + _r("f", 8, 15), ["r2", "r3", "r4", "r5"], ["r2"], "r14", sret=1, byref=True, fpctl=["fpc"], align=8, argarea=160, ownabove=160, entryroom=160)
def sparc(): return P.Sparc64(P.SPARC(), _r("l", 0, 7) + _r("i", 0, 7), ["o0", "o1", "o2"], ["o0", "o1"], "o7", bias=2047, redzone=-2047, ownabove=176, entryroom=176)
def arm(prefix=""): return P.Risc(P.ARM(), _r("r", 4, 11) + _r("d", 8, 15), ["r0", "r1", "r2", "r3"], ["r0"], "lr", sret=1, align=8, prefix=prefix)
def aarch64pe():
    a = aarch64(); a.segs = ["tp"]; a.tibreg = "x18"; a.tibslots = [("tp", o, 8) for o in (0x8, 0x10, 0x1478, 0x20)]; a.entry_checks = [P.tibcheck(8, 0x10, 0x1478)]; return a
def armios():
    a = arm("_"); a.saved = [r for r in a.saved if r != "r9"]; a.align = 4; a.segs = ["tp"]; a.tibslots = [("tp", 0x48, 4)]; return a
PORTS = [
    Cfg("aarch64 ELF", "aarch64-linux-gnu", "arm64_aapcs_elf_gas", aarch64),
    Cfg("aarch64 Mach-O", "arm64-apple-macos", "arm64_aapcs_macho_gas", lambda: aarch64("_"), fmt="macho"),
    Cfg("arm ELF", "armv7-linux-gnueabihf", "arm_aapcs_elf_gas", arm),
    Cfg("riscv64 ELF", "riscv64-linux-gnu", "riscv64_sysv_elf_gas", riscv),
    Cfg("loongarch64 ELF", "loongarch64-linux-gnu", "loongarch64_sysv_elf_gas", loong),
    Cfg("mips o32 ELF", "mipsel-linux-gnu", "mips32_o32_elf_gas", o32),
    Cfg("mips n64 ELF", "mips64el-linux-gnu", "mips64_n64_elf_gas", n64),
    Cfg("ppc32 ELF", "powerpc-linux-gnu", "ppc32_sysv_elf_gas", ppc32, tail="src/asm/tail_ontop_ppc32_sysv.cpp"),
    Cfg("ppc64 ELFv2", "powerpc64le-linux-gnu", "ppc64_sysv_elf_gas", ppc64v2),
    Cfg("ppc64 ELFv1", "powerpc64-linux-gnu", "ppc64_sysv_elf_gas", ppc64v1),
    Cfg("s390x ELF", "s390x-linux-gnu", "s390x_sysv_elf_gas", s390x),
    Cfg("sparc64 ELF", "sparc64-linux-gnu", "sparc64_sysv_elf_gas", sparc),
    Cfg("aarch64 PE", "aarch64-pc-windows-msvc", "arm64_aapcs_pe_armclang", aarch64pe, fmt="coff"),
    Cfg("arm Mach-O", "armv7-apple-ios", "arm_aapcs_macho_gas", armios, fmt="macho", oflags=("--triple=armv7-apple-ios",)),
    Cfg("i386 Mach-O", "i386-apple-macos", "i386_sysv_macho_gas", lambda: x86.SysV32(regret=True, prefix="_"), fmt="macho"),
    Cfg("i386 PE", "i386-pc-windows-msvc", "i386_ms_pe_clang_gas", P.Win32, fmt="coff"),
    Cfg("i386 PE masm", "i386-pc-windows-msvc", "i386_ms_pe_masm", lambda: P.Win32(""), fmt="coff", ext=".asm"),
    Cfg("x86-64 PE masm", "x86_64-pc-windows-msvc", "x86_64_ms_pe_masm", P.Win64, fmt="coff", ext=".asm"),
    Cfg("x86-64 Mach-O", "x86_64-apple-macos", "x86_64_sysv_macho_gas", lambda: x86.SysV64(prefix="_"), fmt="macho"),
    Cfg("i386 PE mingw", "i386-w64-mingw32", "i386_ms_pe_gas", P.Win32, fmt="coff", ext=".asm"),
    Cfg("x86-64 PE mingw", "x86_64-w64-mingw32", "x86_64_ms_pe_gas", P.Win64, fmt="coff", ext=".asm"),
    Cfg("x86-64 PE", "x86_64-pc-windows-msvc", "x86_64_ms_pe_clang_gas", P.Win64, fmt="coff"),
]
