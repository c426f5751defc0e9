"""run a model's register values through the real code on this machine"""
import os, subprocess, re
from .obj import REPO, sh, AsmError
HERE = os.path.dirname(os.path.abspath(__file__))
N64 = ["rbx", "rbp", "r12", "r13", "r14", "r15"]; N32 = ["ebx", "ebp", "esi", "edi"]
def vals(model, who, names, bits):
    out = []
    for i, n in enumerate(names):
        c = sorted((k for k in model if k.startswith("%s.%s!" % (who, n))), key=lambda k: int(k.split("!")[1]))
        v = model[c[-1]] if c else 0
        out.append(v or (0x1000 + 16 * i + (0 if who == "A" else 0x800000)))
    return out
def replay(tmp, tag, bits, stem, flags, model, ops, guard=False, tsx=False):
    """-> (ok, text): ok None when it could not be run"""
    d = os.path.join(tmp, "nat_" + re.sub(r"\W", "_", tag)); os.makedirs(d, exist_ok=True)
    names = N64 if bits == 64 else N32
    def one(k, who, mask, dflt):
        c = sorted((x for x in model if x.startswith("%s.%s!" % (who, k))), key=lambda x: int(x.split("!")[1]))
        v = model[c[-1]] if c else dflt
        return v & mask | (0x1f80 if k == "mxcsr" else 0x37f & 0x3f)     # exceptions stay masked
    top = [v for k, v in model.items() if k.startswith("top!")]
    L = ["#define REGS_%s {%s}" % (w, ",".join("0x%xUL" % v for v in vals(model, w, names, bits))) for w in "AF"]
    L += ["#define MXCSR_A 0x%x" % (one("mxcsr", "A", 0xe000, 0x6000)), "#define MXCSR_F 0x%x" % (one("mxcsr", "F", 0xe000, 0x2000)),
          "#define CW_A 0x%x" % (one("x87cw", "A", 0xf3f & ~0xc0, 0xc3f)), "#define CW_F 0x%x" % (one("x87cw", "F", 0xf3f, 0x43f))]
    ret = ops == "return"
    L += ['#define OPS "%s"' % ("" if ret else "".join("o" if x == "ontop" else "j" for x in ops.split(","))), "#define MODE_RETURN %d" % ret, "#define TOPOFF %d" % ((top[0] & 255) if top else 0), "#define SIZE 8192"]
    if guard: L.append("#define GUARD 1")
    if tsx: L.append("#define TSX 1")
    open(os.path.join(d, "vals.h"), "w").write("\n".join(L) + "\n")
    exe = os.path.join(d, "x")
    try:
        objs = []
        for f in ("make", "jump", "ontop"):
            o = os.path.join(d, f + ".o"); sh(["clang", "-m%d" % bits, "-x", "assembler-with-cpp", "-c", os.path.join(REPO, "src/asm/%s_%s.S" % (f, stem)), "-o", o] + list(flags)); objs.append(o)
        sh(["clang", "-m%d" % bits, "-O1", "-w", "-I" + d, "-ffreestanding", "-fno-stack-protector", "-fno-pic", "-no-pie", "-static", "-nostdlib", "-fcf-protection=none", os.path.join(HERE, "native_x86.c")] + objs + ["-o", exe])
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
    except (AsmError, subprocess.TimeoutExpired) as x:
        return None, str(x)[-300:]
    out = r.stdout.decode("latin1")
    ok = r.returncode == 0 and "BAD" not in out and (not ret or "RETURNING" in out)
    return ok, "exit status %s: %s" % (r.returncode, " / ".join(out.split("\n")[:4]))
