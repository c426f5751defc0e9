"""assemble /repo/src/asm files with clang, link the ELF ones with lld, disassemble with llvm-objdump"""
import subprocess, os, re, struct
REPO = os.environ.get("VP_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
HOSTINC = [x for d in sorted(__import__("glob").glob("/usr/include/c++/*"))[-1:] for x in ("-isystem", d, "-isystem", "/usr/include/x86_64-linux-gnu/c++/" + os.path.basename(d))] + ["-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", "/usr/include"]
class AsmError(Exception): pass
def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise AsmError("$ " + " ".join(cmd) + "\n" + r.stdout.decode("utf8", "replace")[-3000:])
    return r.stdout.decode("utf8", "replace")
class Insn:
    __slots__ = ("addr", "next", "mn", "ops", "text", "reloc", "file", "base")
    def __repr__(self): return "%x: %s %s" % (self.addr, self.mn, self.ops)
LINE = re.compile(r"^\s*([0-9a-f]+):\s+(.*)$")
SYM = re.compile(r"^([0-9a-f]+) <(.*)>:$")
class Image:
    def __init__(self): self.code = {}; self.syms = {}; self.bytes = {}; self.names = {}
    def where(self, a):
        best = None
        for n, v in self.syms.items():
            if v <= a and (best is None or v > best[1]): best = (n, v)
        return "%s+0x%x" % (best[0], a - best[1]) if best else hex(a)
def parse(txt, img, base=0):
    cur = None; sec = []; last = None
    for l in txt.split("\n"):
        m = SYM.match(l.strip())
        if m: img.syms[m.group(2)] = int(m.group(1), 16) + base; continue
        m = re.match(r"^\s+([0-9a-f]+):\s+([A-Z][A-Z0-9_]+)\s+(.*)$", l)
        if m and last is not None and ("R_" in m.group(2) or "RELOC" in m.group(2) or "IMAGE_REL" in m.group(2)):
            last.reloc.append((m.group(2), m.group(3).strip())); continue
        m = LINE.match(l)
        if not m: continue
        body = re.sub(r"\s+(##?|//|@|!|<!)\s.*$", "", re.sub(r"\s+; ?=.*$", "", m.group(2))) if not m.group(2).startswith("#") else m.group(2)
        i = Insn(); i.addr = int(m.group(1), 16) + base; i.text = body.strip(); i.reloc = []; i.base = base
        p = i.text.split(None, 1)
        if not p: continue
        i.mn = p[0]; i.ops = p[1].strip() if len(p) > 1 else ""
        sec.append(i); last = i
    for a, b in zip(sec, sec[1:]): a.next = b.addr
    if sec: sec[-1].next = sec[-1].addr + 4
    for i in sec: img.code[i.addr] = i
def build(tmp, key, target, stem, flags=(), fmt="elf", ext=".S", oflags=(), stubs=("_exit",), tail=None):
    d = os.path.join(tmp, re.sub(r"\W", "_", key)); os.makedirs(d, exist_ok=True)
    objs = []
    for f in ("make", "jump", "ontop"):
        src = os.path.join(REPO, "src/asm/%s_%s%s" % (f, stem, ext)); o = os.path.join(d, f + ".o")
        if stem.endswith("masm"):
            # llvm-ml: the export macro is given on the command line by the build, "assume" is a checking directive, PROTO declares an external
            t = open(src).read(); t = re.sub(r"(?m)^(\w+) PROTO.*$", r"EXTERN \1:PROC", t).replace("BOOST_CONTEXT_EXPORT", ""); t = re.sub(r"(?mi)^\s*assume\b.*$", "", t)
            for l in re.findall(r"(?m)^(\w+):", t): t = re.sub(r"(?m)^(\s*mov\s+\w+\s*,\s*)%s\b" % l, r"\1OFFSET " + l, t)      # llvm-ml takes a bare label for its contents, ml for its address
            for x in flags: t = re.sub(r"(?ms)^IFNDEF %s$.*?^ENDIF$" % x[2:].split("=")[0], "", t)
            open(o + ".asm", "w").write(t)
            sh([LLVM + "llvm-ml", "-m32" if stem.startswith("i386") else "-m64", "/c", "/Fo", o, o + ".asm"]); objs.append(o); continue
        sh(["clang", "--target=" + target, "-x", "assembler-with-cpp", "-c", src, "-o", o] + list(flags)); objs.append(o)
    if tail:      # the C++ part of a port, compiled with the installed compiler
        o = os.path.join(d, "tail.o"); sh(["clang++", "--target=" + target, "-std=c++11", "-O1", "-ffreestanding", "-fno-exceptions", "-w"] + HOSTINC + ["-I", os.path.join(os.path.dirname(os.path.abspath(__file__)), "inc"), "-I", os.path.join(REPO, "include"), "-c", os.path.join(REPO, tail), "-o", o]); objs.append(o)
    img = Image(); img.files = [os.path.basename(x) for x in objs]
    if fmt == "elf":
        e = os.path.join(d, "stub.S")
        with open(e, "w") as fh: fh.write(".text\n" + "".join(".globl %s\n.type %s,%%function\n%s: nop\n nop\n nop\n nop\n" % (s, s, s) for s in stubs))
        sh(["clang", "--target=" + target, "-x", "assembler-with-cpp", "-c", e, "-o", e + ".o"] + [x for x in flags if not x.startswith("-D")])
        x = os.path.join(d, "image")
        sh([LLVM + "ld.lld", "-e", "0", "--unresolved-symbols=ignore-all", "-z", "notext", "-Ttext=0x10000"] + objs + [e + ".o", "-o", x])
        parse(sh([LLVM + "llvm-objdump", "-d", "--no-show-raw-insn"] + list(oflags) + [x]), img)
        load_elf(x, img)
        for l in sh([LLVM + "llvm-nm", x]).split("\n"):
            p = l.split()
            if len(p) == 3: img.syms[p[2]] = int(p[0], 16)
    else:
        for n, o in enumerate(objs):
            base = 0x10000 * (n + 1)
            parse(sh([LLVM + "llvm-objdump", "-d", "-r", "--no-show-raw-insn"] + list(oflags) + [o]), img, base)
            for l in sh([LLVM + "llvm-nm", o]).split("\n"):
                p = l.split()
                if len(p) == 3 and p[1] in "tT": img.syms[p[2]] = int(p[0], 16) + base
        for n, s in enumerate(stubs): img.syms["_" + s] = img.syms[s] = 0x90000 + 16 * n
    return img
def load_elf(path, img):
    b = open(path, "rb").read()
    is64 = b[4] == 2; E = "<" if b[5] == 1 else ">"
    if is64: phoff, = struct.unpack_from(E + "Q", b, 32); n, = struct.unpack_from(E + "H", b, 56); sz = 56
    else: phoff, = struct.unpack_from(E + "I", b, 28); n, = struct.unpack_from(E + "H", b, 44); sz = 32
    for i in range(n):
        p = phoff + i * sz
        ty, = struct.unpack_from(E + "I", b, p)
        if ty != 1: continue
        if is64: off, va, _, fs, ms = struct.unpack_from(E + "QQQQQ", b, p + 8)
        else: off, va, _, fs, ms = struct.unpack_from(E + "IIIII", b, p + 4)
        for k in range(fs): img.bytes[va + k] = b[off + k]
