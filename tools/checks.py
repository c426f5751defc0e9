"""Which harness configurations decide which property."""
from runner import Job, HARN
import os
FC = ("src/fcontext.cpp",)
UF = ("src/fiber.cpp",)
UC = ("src/continuation.cpp",)
WF = ("-DBOOST_USE_WINFIB", "-D_WIN32_WINNT=0x0A00")
UCTX = ("-DBOOST_USE_UCONTEXT",)
OP = dict(RESUME=1, RETURN=2, DESTROY=4, WITH=8, WITH_EMPTY=16, WITH_THROW=32, WITH_SWITCH=64, WITH_OTHER=128, NEST=256, CREATE=512, ASSIGN=1024, LVALUE=4096, ESCAPE=8192)
def ops(s):
    return sum(OP[x] for x in s.split())

VARIANTS = {   # name -> (flags, libs)
    "fiber": ((), FC),
    "cont": (("-DVP_CONT",), FC),
    "ufiber": (UCTX, UF),
    "ucont": (UCTX + ("-DVP_CONT",), UC),
    "wfiber": (WF, UF),
    "wcont": (WF + ("-DVP_CONT",), UC),
}
MAIN4 = ("fiber", "cont", "ufiber", "ucont")
COMMON_ASSUMPTIONS = [
    "LLVM IR of clang -O0 + mem2reg for x86-64 Linux represents the source; the C++ runtime, libc, kernel calls and (except in C01-C06) the switch primitives are stubs with their documented contracts (irx/rt.py)",
    "everything outside the stated bounds (number of contexts, operations, nesting) is outside the claim",
]
def world(name, tag, o, q, std="c++17", ndebug=True, covers=("end",), n=2, depth=0, pre=1, symregion=0, validate=6, flags=(), native=True):
    fl, libs = VARIANTS[name]
    return Job("%s/%s" % (name, tag), "world.cpp", tuple(fl) + tuple(flags), libs, stubs=name[0] == "w", params=dict(n=n, steps=q, ops=ops(o), depth=depth, precreate=pre, symregion=symregion),
               std=std, ndebug=ndebug, covers=covers, validate=validate, native=native)


CONFIGS = (("c++17", True), ("c++11", False))     # language level, NDEBUG
ST = ("src/posix/stack_traits.cpp",)
def both(f, variants=VARIANTS, configs=CONFIGS):
    return [x for v in variants for (std, nd) in configs for x in f(v, std, nd)]
def tag(t, std, nd): return "%s %s%s" % (t, std, "" if nd else " asserts")
def W_(t, o, q, covers=("end",), variants=VARIANTS, configs=CONFIGS, **kw):
    return both(lambda v, std, nd: [world(v, tag(t, std, nd), o, q, std=std, ndebug=nd, covers=covers, **kw)], variants, configs)
def H_(t, src, params, covers=("end",), variants=VARIANTS, configs=CONFIGS, flags=(), native=True, libs=(), **kw):
    def mk(v, std, nd):
        fl, li = VARIANTS[v]
        return [Job("%s/%s" % (v, tag(t, std, nd)), src, tuple(fl) + tuple(flags), tuple(li) + tuple(libs), params=params, std=std, ndebug=nd, covers=covers,
                    stubs=v[0] == "w", native=native, **kw)]
    return both(mk, variants, configs)
ONE = (("c++17", True),)
C11 = (("c++11", False),)
C14 = (("c++14", True),)
WIN = ("wfiber", "wcont")
SWITCH = "RESUME RETURN DESTROY"
def Q(tier, a, b): return a if tier == "quick" else b

OTHEROS = ("-include", "otheros.hpp", "-Wno-macro-redefined")
def c07(t):
    return (W_("switch, macOS and FreeBSD parts", SWITCH, Q(t, 3, 5), ("end", "resume", "return"), variants=UX, flags=OTHEROS, configs=C11) +
            W_("switch", SWITCH, Q(t, 5, 7), ("end", "resume", "return")) +
            W_("switch3", "RESUME RETURN", Q(t, 5, 7), ("end", "resume", "return"), n=3, configs=ONE) +
            W_("with", "RESUME RETURN WITH WITH_EMPTY WITH_OTHER", Q(t, 3, 4), ("end", "resume", "return", "ontop"), configs=ONE))
def c08(t):
    return (H_("handles", "handle.cpp", dict(steps=Q(t, 1, 2), init=1), ("end", "ended"), libs=ST) +
            H_("handles, Embarcadero", "handle.cpp", dict(steps=1, init=1), ("end", "ended"), libs=ST, configs=C11, flags=("-DBOOST_EMBTC",)) +
            H_("sequences", "handle.cpp", dict(steps=Q(t, 2, 3), init=0), ("end", "ended", "resume"), libs=ST, configs=ONE))
def c09(t):
    return (W_("return", "RESUME RETURN", Q(t, 6, 9), ("end", "resume", "return")) +
            W_("return3", "RESUME RETURN", Q(t, 5, 7), ("end", "resume", "return"), n=3, configs=C11) +
            W_("finish on-top", "RETURN WITH WITH_EMPTY WITH_OTHER", Q(t, 4, 5), ("end", "ontop", "return"), configs=C14))
def c10(t):
    return (W_("nest", "RESUME RETURN DESTROY ASSIGN NEST", Q(t, 5, 6), ("end", "destroy-started"), depth=2) +
            H_("dtor", "dtor.cpp", Q(t, dict(depth=1, acts=2), dict(depth=2, acts=3))) +
            W_("destroy3", "RESUME DESTROY ASSIGN", Q(t, 5, 6), ("end", "destroy-started"), n=3, configs=C11))
FIB = ("fiber", "ufiber", "wfiber")
def c11(t):
    return (W_("fresh", "DESTROY ASSIGN RESUME RETURN", Q(t, 5, 6), ("end", "destroy-fresh"), variants=FIB, n=2) +
            W_("fresh3", "DESTROY ASSIGN RESUME", Q(t, 5, 6), ("end", "destroy-fresh"), variants=FIB, n=3, configs=C11) +
            H_("dtor", "dtor.cpp", dict(depth=1, acts=2), variants=FIB))
def c12(t):
    return (W_("with", "RESUME RETURN WITH WITH_EMPTY WITH_OTHER LVALUE", Q(t, 3, 5), ("end", "ontop")) +
            W_("withswitch", "RESUME RETURN WITH_SWITCH", Q(t, 4, 6), ("end", "ontop-switched")) +
            W_("with3", "WITH WITH_SWITCH LVALUE", Q(t, 3, 4), ("end", "ontop"), n=3, configs=C14))
def c13(t):
    return (W_("throw", "RESUME RETURN WITH_THROW DESTROY", Q(t, 4, 6), ("end", "ontop")) +
            W_("throw3", "RESUME WITH_THROW", Q(t, 4, 6), ("end", "ontop"), n=3, configs=C11) +
            W_("throwswitch", "RESUME WITH_THROW WITH_SWITCH WITH", Q(t, 4, 5), ("end", "ontop"), configs=C14))
def c14(t):
    return (W_("escape", "RESUME RETURN ESCAPE DESTROY", Q(t, 4, 6), ("end", "terminate")) +
            H_("kinds", "escape.cpp", {}, ("on-top", "unwinding", "function", "inner")) +
            W_("escape3", "RESUME WITH ESCAPE NEST", Q(t, 4, 5), ("end", "terminate"), n=2, depth=1, configs=C11))
def place(pl, al, pre, flags=(), variants=VARIANTS, native=True, configs=CONFIGS, **kw):
    return H_("place payload %d align %d%s" % (pl, al, " preallocated" if pre else ""), "place.cpp", dict(dict(pre=pre, min=8192, max=1 << 20, align=1, maxuser=2048), **kw), libs=ST,
              flags=("-DPAYLOAD=%d" % pl, "-DALIGN=%d" % al) + tuple(flags), variants=variants, native=native, configs=configs)
def c15(t):
    J = place(8, 8, 0) + place(700, 64, 0)
    if t != "quick": J += place(8, 64, 0, max=1 << 30) + place(700, 8, 0, max=1 << 30)
    return J
def c16(t):
    J = place(8, 8, 1)
    if t != "quick": J += place(700, 64, 1) + place(8, 64, 1, max=1 << 30, maxuser=4096)
    return J
def c17(t):
    return H_("fail", "fail.cpp", dict(mask=255, budget=Q(t, 1, 3), op=1), ("end", "failed", "prepare-failed", "no-failure", "copy-failed", "user-error"), libs=ST) + \
        H_("first", "failfirst.cpp", {}, ("end", "failed", "switch-failed", "no-failure", "system-error"), variants=UX + WIN)
def c18(t):
    return H_("value", "value.cpp", {}, ("end", "fn-form", "alloc-form", "ontop-form"), libs=ST)
OLDW = ("-U_WIN32_WINNT", "-D_WIN32_WINNT=0x0600")
WTC = ("end", "finished", "destroyed", "resumed", "left-behind", "own-fiber", "twice")
def c29(t):
    s = Q(t, 4, 5)
    return (W_("switch", SWITCH, Q(t, 5, 7), ("end", "resume", "return"), variants=WIN) +
            W_("with", "RESUME RETURN WITH WITH_EMPTY WITH_OTHER LVALUE WITH_THROW WITH_SWITCH DESTROY", Q(t, 3, 4), ("end", "ontop"), variants=WIN) +
            W_("nest", "RESUME RETURN DESTROY ASSIGN NEST", s, ("end", "destroy-started"), depth=1, variants=WIN) +
            W_("escape", "RESUME ESCAPE", s, ("end", "terminate"), variants=WIN) +
            H_("kinds", "escape.cpp", {}, ("on-top", "unwinding", "function", "inner"), variants=WIN) +
            H_("dtor", "dtor.cpp", dict(depth=1, acts=2), variants=WIN) +
            H_("late", "late.cpp", {}, LTC, variants=WIN) +
            H_("thread state", "winthr.cpp", {}, WTC, variants=WIN) + H_("thread state, old Windows", "winthr.cpp", {}, WTC, variants=WIN, flags=OLDW) +
            H_("first", "failfirst.cpp", {}, ("end", "failed", "switch-failed", "no-failure", "system-error"), variants=WIN) +
            H_("first, old Windows", "failfirst.cpp", {}, ("end", "failed", "switch-failed", "no-failure", "system-error"), variants=WIN, flags=OLDW) +
            H_("fail", "fail.cpp", dict(mask=255, budget=1, op=1), ("end", "failed", "prepare-failed", "no-failure", "copy-failed", "user-error"), variants=WIN, libs=ST))
LTC = ("end", "closed", "resumed", "twice", "on-top", "made", "thread", "main", "exit")
THC = ("end", "made", "finished", "destroyed", "ontop", "caught", "migrated")
def c19(t):
    return (H_("threads", "thread.cpp", dict(n=1, threads=3, steps=Q(t, 3, 5), exits=1), THC + ("thread-ended",), configs=ONE if t == "quick" else CONFIGS) +
            H_("two", "thread.cpp", dict(n=2, threads=Q(t, 2, 3), steps=Q(t, 3, 4), exits=1), THC + ("thread-ended",), configs=ONE) +
            H_("inner", "thread.cpp", dict(n=2, threads=2, steps=Q(t, 3, 5), exits=0), ("end", "inner", "made", "finished", "migrated"), configs=C11 if t == "quick" else CONFIGS) +
            H_("at once", "parrun.cpp", dict(switches=Q(t, 3, 6)), configs=CONFIGS, native=False, libs=ST))
def c31(t):
    kw = dict(variants=UX, native=False)
    return (H_("late", "late.cpp", dict(others=1), LTC + ("others",)) + H_("late, AddressSanitizer", "late.cpp", {}, LTC, flags=("-DBOOST_USE_ASAN",), **kw) +
            H_("late, ThreadSanitizer", "late.cpp", {}, LTC, flags=("-DBOOST_USE_TSAN",), variants=("ufiber",), native=False) + H_("late, segmented", "late.cpp", {}, LTC, flags=SEG, **kw))
UX = ("ufiber", "ucont")
def san(t, fl):
    kw = dict(variants=UX, flags=(fl,), native=False)
    return (W_("switch", SWITCH, Q(t, 5, 7), ("end", "resume", "return"), **kw) + W_("nest", "RESUME RETURN DESTROY ASSIGN NEST", Q(t, 4, 6), ("end", "destroy-started"), depth=1, configs=ONE, **kw) +
            W_("with", "RESUME RETURN WITH WITH_EMPTY WITH_OTHER WITH_THROW WITH_SWITCH DESTROY", Q(t, 3, 5), ("end", "ontop"), configs=ONE, **kw) +
            W_("three", "RESUME RETURN DESTROY", Q(t, 4, 6), n=3, configs=C11, **kw) +
            H_("threads", "thread.cpp", dict(n=1, threads=2, steps=Q(t, 3, 5), exits=1), THC + ("thread-ended",), configs=C11, **kw) +
            H_("dtor", "dtor.cpp", dict(depth=1, acts=2), configs=ONE, **kw) +
            place(8, 8, 0, configs=ONE, min=65536, max=65536, align=4096, **kw) + place(8, 8, 1, configs=ONE, min=65536, max=65536, align=4096, maxuser=600, **kw))
SEG = ("-DBOOST_USE_SEGMENTED_STACKS",)
def c23(t):
    kw = dict(variants=UX, flags=SEG, native=False)
    return (A_("allocator", "split.cpp", dict(n=Q(t, 2, 3), split_extra=1 << 16), ("end", "allocated", "bad_alloc", "usable"), SEG, native=False) +
            W_("switch", SWITCH, Q(t, 5, 7), ("end", "resume", "return"), **kw) + W_("nest", "RESUME RETURN DESTROY ASSIGN NEST", Q(t, 4, 6), ("end", "destroy-started"), depth=1, configs=ONE, **kw) +
            W_("with", "RESUME RETURN WITH WITH_EMPTY WITH_OTHER WITH_THROW WITH_SWITCH DESTROY", Q(t, 3, 5), ("end", "ontop"), configs=ONE, **kw) +
            W_("three", "RESUME RETURN DESTROY", Q(t, 4, 6), n=3, configs=C11, **kw) +
            H_("threads", "thread.cpp", dict(n=1, threads=2, steps=Q(t, 3, 5), exits=1), THC + ("thread-ended",), configs=C11, **kw) +
            H_("dtor", "dtor.cpp", dict(depth=1, acts=2), configs=ONE, **kw) +
            actx(t, "segmented_stack", SEG, variants=UX, faults=1 | 32, native=False))
def c26(t): return san(t, "-DBOOST_USE_ASAN")
def c27(t): return [j for j in san(t, "-DBOOST_USE_TSAN") if "ufiber" in j.label]     # continuations have no ThreadSanitizer support
SHF = ("-fcf-protection=full", "-DSHADOW_STACK_SYSCALL=1")
def c30(t):
    kw = dict(variants=("fiber", "cont"), flags=SHF, native=False)
    return (W_("switch", SWITCH, Q(t, 5, 7), ("end", "resume", "return"), **kw) + W_("nest", "RESUME RETURN DESTROY ASSIGN NEST", Q(t, 4, 6), ("end", "destroy-started"), depth=1, configs=ONE, **kw) +
            W_("with", "RESUME RETURN WITH WITH_EMPTY WITH_OTHER WITH_THROW WITH_SWITCH DESTROY", Q(t, 3, 5), ("end", "ontop"), configs=ONE, **kw) +
            W_("three", "RESUME RETURN DESTROY", Q(t, 4, 6), n=3, configs=C11, **kw) +
            H_("dtor", "dtor.cpp", dict(depth=1, acts=2), configs=ONE, **kw) +
            H_("fail", "fail.cpp", dict(mask=255, budget=Q(t, 1, 3), op=1), ("end", "failed", "prepare-failed", "no-failure", "copy-failed", "user-error"), libs=ST, **kw) +
            place(8, 8, 0, **kw) + place(8, 8, 1, maxuser=600, **kw) + (place(700, 64, 0, max=1 << 30, **kw) if t != "quick" else []))
WST = ("src/windows/stack_traits.cpp",)
WA = dict(stubs=True, native=False)
def A_(t, src, params, covers, flags=(), libs=ST, configs=CONFIGS, **kw):      # a harness without contexts
    return [Job(tag(t, std, nd), src, flags, libs, params=params, std=std, ndebug=nd, covers=covers, **kw) for std, nd in configs]
MAPST = ("-DBOOST_CONTEXT_USE_MAP_STACK",)
VG = ("-DBOOST_USE_VALGRIND",)
VGN = dict(nat_flags=("-I" + os.path.join(HARN, "stubs_vg"),))
ALCOV = ("end", "allocated", "bad_alloc", "usable")
def blocks(t, name, flags, **kw):
    n = Q(t, 2, 3)
    # replayed natively: sizes a machine can really provide
    return (A_(name + " <=256M", "alloc.cpp", dict(n=n, pages=Q(t, 3, 5), maxsize=1 << 28), ALCOV, flags, configs=ONE if kw else CONFIGS, **kw) +
            A_(name + " any size", "alloc.cpp", dict(n=n, pages=Q(t, 5, 10)), ALCOV, flags, native=False, configs=ONE if t == "quick" else CONFIGS))
def actx(t, al, flags=(), variants=VARIANTS, faults=1 | 4 | 8, budget=1, configs=ONE, covers=("end", "made", "failed", "finished", "destroyed", "allocator-gone"), libs=ST, size=65536, **kw):
    J = []
    for byref, pre in (((1, 0), (0, 1)) if t == "quick" else ((0, 0), (1, 0), (0, 1))):
        J += H_("%s%s%s" % (al, " by ref" if byref else "", " preallocated" if pre else ""), "actx.cpp", dict(n=2, steps=Q(t, 4, 6), size=size, faults=faults, budget=budget, byref=byref, pre=pre), covers,
                variants=variants, configs=configs, flags=("-DAL=" + al,) + flags, libs=libs, **kw)
    return J
def c20(t):
    return (blocks(t, "fixed", ()) + blocks(t, "fixed mmap", MAPST) + A_("fixed windows", "alloc.cpp", dict(n=2, pages=3), ALCOV, ("-DVP_WIN",), WST, **WA) +
            actx(t, "fixedsize_stack"))
def c21(t):
    return (blocks(t, "protected", ("-DVP_PROT",)) + blocks(t, "protected mapstack", ("-DVP_PROT",) + MAPST) +
            A_("protected windows", "alloc.cpp", dict(n=Q(t, 2, 3), pages=Q(t, 5, 10)), ALCOV, ("-DVP_PROT", "-DVP_WIN"), WST, **WA) +
            actx(t, "protected_fixedsize_stack", ("-DVP_MAPPED",)))
def pool(t, name, flags=(), **kw):
    P = dict(steps=Q(t, 3, 5), n=Q(t, 2, 3), minsize=4096, maxsize=1 << 20, maxnext=2, maxmax=1, copies=2)
    C = dict(P, steps=Q(t, 5, 7), n=3, maxnext=3, maxmax=2, copies=Q(t, 2, 3))
    cov = ("end", "taken", "returned", "copied", "dropped", "bad_alloc")
    return (A_(name + " any size", "pool.cpp", P, cov, flags, configs=ONE, **dict(kw, native=False)) +
            A_(name + " size 8192", "pool.cpp", dict(C, minsize=8192, maxsize=8192), cov, flags, configs=ONE, **kw) +
            A_(name + " size 5003", "pool.cpp", dict(C, minsize=5003, maxsize=5003, steps=Q(t, 4, 6)), cov, flags, configs=C11, **kw))
def c22(t):
    return (pool(t, "pool") + pool(t, "pool mapstack", MAPST) +
            A_("pool two threads", "parpool.cpp", dict(switches=Q(t, 3, 8), fibers=0), ("end",), configs=CONFIGS, native=False, libs=VARIANTS["fiber"][1] + ST) +
            H_("pool two threads", "parpool.cpp", dict(switches=Q(t, 3, 5), fibers=1), configs=ONE, native=False, libs=ST) +
            actx(t, "pooled_fixedsize_stack", budget=2))
def c24(t):
    P = dict(queries=Q(t, 3, 4), change=1)
    return (A_("posix", "traits.cpp", P, ("end", "page", "bounded", "unbounded", "maximum", "changed")) +
            A_("two threads", "partraits.cpp", dict(switches=Q(t, 3, 5)), ("end",), native=False) +
            A_("windows", "traits.cpp", dict(queries=Q(t, 3, 5), change=0), ("end", "page"), ("-DVP_WIN",), WST, **WA))
def c25(t):
    return A_("helpers", "helpers.cpp", dict(throws=Q(t, 5, 9)), ("end", "threw", "invoke", "apply", "exchange", "head", "tail"), libs=(), configs=(("c++11", True), ("c++14", True), ("c++17", False))) + \
        A_("copyable", "helpers.cpp", dict(throws=Q(t, 5, 9)), ("end", "threw", "invoke", "apply", "exchange", "head", "tail"), ("-DNO_MOVE_ONLY",), libs=(), configs=C11)
def c32(t):
    return A_("prefetch", "prefetch.cpp", dict(strides=Q(t, 6, 16)), ("end", "one", "range", "empty", "long"), libs=(), configs=(("c++11", True), ("c++17", False)))
def c28(t):
    return (blocks(t, "fixed", VG, **VGN) + blocks(t, "protected", VG + ("-DVP_PROT",), **VGN) + pool(t, "pool", VG, **VGN) +
            actx(t, "fixedsize_stack", VG, **VGN) + actx(t, "protected_fixedsize_stack", ("-DVP_MAPPED",) + VG, **VGN) + actx(t, "pooled_fixedsize_stack", VG, budget=2, **VGN))
def asm(pid, cfgs, programs):
    def extra(tier, tmp, ncpu, deadline):
        from asmx import decide as D
        return D.decide(pid, cfgs(D, tier), programs(D, tier), tmp, ncpu, deadline)
    return extra
N_PORTS = ("For all register and memory contents; instruction semantics and calling conventions are those of the executor's own machine models (asmx/ports.py), the assembler is clang's or llvm-ml. "
           "No emulator is installed: counterexamples are concrete register and memory contents that the executor, not hardware, runs to the violation.")
NOJOBS = lambda t: []
def switching(pid): return dict(engine="asm", jobs=NOJOBS, extra=asm(pid, lambda D, t: D.X86 if t == "quick" else D.X86 + D.GUARD, lambda D, t: D.P4 + D.P_RET if t == "quick" else D.P8 + D.P16 + D.P_RET))
CHECKS = {
    "C01": switching("C01"), "C02": switching("C02"), "C03": switching("C03"), "C04": switching("C04"),
    "C05": dict(engine="asm", jobs=NOJOBS, extra=asm("C05", lambda D, t: D.GUARD, lambda D, t: D.P4 + D.P_RET if t == "quick" else D.P8 + D.P16 + D.P_RET)),
    "C06": dict(engine="asm", jobs=NOJOBS, note=N_PORTS, extra=asm("C06", lambda D, t: D.PORTS, lambda D, t: D.P_RET + ["jump,ontop,ontop,jump"] + ([] if t == "quick" else D.P8)),
                assumptions=["the machine models of asmx/ports.py represent the processors: no emulator is installed, so nothing here is replayed natively; the calling conventions written there are those of the platforms' ABI documents",
                             "not covered: PowerPC vector registers, the ppc64 TOC register after an on-top function of another module, x32, the armasm, Mach-O PowerPC and XCOFF variants (no assembler for them here)"]),
    "C07": dict(jobs=c07),
    "C08": dict(jobs=c08), "C09": dict(jobs=c09), "C10": dict(jobs=c10), "C11": dict(jobs=c11), "C12": dict(jobs=c12), "C13": dict(jobs=c13), "C14": dict(jobs=c14),
    "C15": dict(jobs=c15), "C16": dict(jobs=c16), "C17": dict(jobs=c17), "C18": dict(jobs=c18), "C29": dict(jobs=c29), "C31": dict(jobs=c31), "C32": dict(jobs=c32),
    "C30": dict(jobs=c30, extra=asm("C30", lambda D, t: D.SHST, lambda D, t: D.P4 + D.P_RET if t == "quick" else D.P8 + D.P16 + D.P_RET)),
    "C19": dict(jobs=c19), "C20": dict(jobs=c20), "C21": dict(jobs=c21), "C22": dict(jobs=c22), "C23": dict(jobs=c23), "C24": dict(jobs=c24), "C25": dict(jobs=c25), "C26": dict(jobs=c26), "C27": dict(jobs=c27), "C28": dict(jobs=c28),
}
NA = {}
