"""Load LLVM IR (bitcode) through the LLVM C API into plain Python structures for the symbolic executor.

Every SSA value, argument and constant used by a function gets a slot in that function's environment list;
constants are pre-filled.  Globals and functions get fixed addresses, so constants are plain integers."""
import ctypes as C, struct, os

_lib = None
def L():
    global _lib
    if _lib is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so", "libLLVM-18.so.1", "libLLVM-18.so"):
            try:
                _lib = C.CDLL(p); break
            except OSError:
                continue
        l = _lib
        vp = C.c_void_p
        for n in """LLVMContextCreate LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstGlobal LLVMGetNextGlobal LLVMGetFirstGlobalAlias
            LLVMGetNextGlobalAlias LLVMAliasGetAliasee LLVMGetFirstBasicBlock LLVMGetNextBasicBlock LLVMGetFirstInstruction
            LLVMGetNextInstruction LLVMGetOperand LLVMTypeOf LLVMGetInitializer LLVMGlobalGetValueType LLVMGetElementType
            LLVMStructGetTypeAtIndex LLVMGetCalledValue LLVMGetAllocatedType LLVMGetGEPSourceElementType LLVMGetNormalDest
            LLVMGetUnwindDest LLVMGetSwitchDefaultDest LLVMGetIncomingValue LLVMGetIncomingBlock LLVMGetClause LLVMGetAggregateElement
            LLVMGetModuleDataLayout LLVMGetParam LLVMGetSuccessor LLVMGetReturnType LLVMGetTypeAttributeValue LLVMGetCondition
            LLVMGetCalledFunctionType LLVMBasicBlockAsValue LLVMGetPersonalityFn""".split():
            getattr(l, n).restype = vp
        for n in "LLVMGetValueName2 LLVMGetAsString LLVMGetInlineAsmAsmString LLVMGetInlineAsmConstraintString LLVMGetDebugLocFilename".split():
            getattr(l, n).restype = vp
        l.LLVMConstIntGetZExtValue.restype = C.c_ulonglong
        l.LLVMConstRealGetDouble.restype = C.c_double
        l.LLVMABISizeOfType.restype = C.c_ulonglong
        l.LLVMStoreSizeOfType.restype = C.c_ulonglong
        l.LLVMOffsetOfElement.restype = C.c_ulonglong
        l.LLVMABIAlignmentOfType.restype = C.c_uint
        l.LLVMGetIndices.restype = C.POINTER(C.c_uint)
        l.LLVMConstIntGetSExtValue.restype = C.c_longlong
        l.LLVMPrintValueToString.restype = C.c_char_p
        l.LLVMPrintTypeToString.restype = C.c_char_p
        l.LLVMGetArrayLength.restype = C.c_uint
    return _lib

V = C.c_void_p
M64 = (1 << 64) - 1
OBJ_SHIFT = 32
FUNC_REGION = 1
FIRST_GLOBAL_ID = 16
GLOBAL_OFF = 0x10000

(ARG, BB, FUNC, ALIAS, IFUNC, GVAR, BLOCKADDR, CEXPR, CARR, CSTRUCT, CVEC, UNDEF, AGGZERO, DARR, DVEC, CINT, CFP, CNULL, TOKNONE,
 MDV, IASM, INST, POISON) = (0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25)

class Unsupported(Exception):
    pass

class Fn:
    __slots__ = ("name", "addr", "decl", "nargs", "slots", "blocks", "phis", "argbyval", "lines", "retty", "vararg", "personality", "ns", "file")

class Glob:
    __slots__ = ("name", "addr", "size", "align", "tls", "decl", "init", "zero", "const", "ti")

def vname(v):
    n = C.c_size_t()
    p = L().LLVMGetValueName2(V(v), C.byref(n))
    return C.string_at(p, n.value).decode("latin1")

# type kinds
TY_VOID, TY_HALF, TY_FLOAT, TY_DOUBLE, TY_X86FP80 = 0, 1, 2, 3, 4
TY_LABEL, TY_INT, TY_FUNC, TY_STRUCT, TY_ARRAY, TY_PTR, TY_VEC, TY_MD = 7, 8, 9, 10, 11, 12, 13, 14

class Module:
    def __init__(self, path):
        l = L()
        ctx = l.LLVMContextCreate()
        buf = V(); err = C.c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise Exception("cannot read " + path)
        mod = V()
        if l.LLVMParseIRInContext(V(ctx), buf, C.byref(mod), C.byref(err)):
            raise Exception("parse: %s" % err.value)
        self.td = V(l.LLVMGetModuleDataLayout(mod))
        self.tycache = {}
        self.funcs = {}; self.by_addr = {}; self.globals = {}; self.fn_by_name = {}
        self.addr_of = {}
        self.files = {}
        # addresses
        f = l.LLVMGetFirstFunction(mod); i = 1
        fl = []
        while f:
            a = (FUNC_REGION << OBJ_SHIFT) + i * 16; i += 1
            self.addr_of[f] = a; fl.append(f)
            f = l.LLVMGetNextFunction(V(f))
        g = l.LLVMGetFirstGlobal(mod); gid = FIRST_GLOBAL_ID
        gl = []
        while g:
            self.addr_of[g] = (gid << OBJ_SHIFT) + GLOBAL_OFF; gid += 1
            gl.append(g)
            g = l.LLVMGetNextGlobal(V(g))
        a = l.LLVMGetFirstGlobalAlias(mod)
        while a:
            t = l.LLVMAliasGetAliasee(V(a))
            self.addr_of[a] = None; self.addr_of[(a, 'alias')] = t
            a = l.LLVMGetNextGlobalAlias(V(a))
        self.next_obj_id = gid
        for g in gl:
            self.load_global(g)
        self.byval_kind = l.LLVMGetEnumAttributeKindForName(b"byval", 5)
        for f in fl:
            self.load_fn(f)
        self.ctors = []
        c = self.globals.get("llvm.global_ctors")
        if c:
            n = len(c.init)
            elems = {}
            for off, sz, val in c.init:
                elems.setdefault(off // 24, {})[off % 24] = val
            for k in sorted(elems):
                e = elems[k]
                self.ctors.append((e.get(0, 65535), e.get(8, 0)))
            self.ctors.sort(key=lambda x: x[0])

    # ---- types
    def ty(self, t):
        """-> (kind, bits/size, extra)"""
        r = self.tycache.get(t)
        if r is not None:
            return r
        l = L()
        k = l.LLVMGetTypeKind(V(t))
        if k == TY_INT:
            r = ('i', l.LLVMGetIntTypeWidth(V(t)))
        elif k == TY_PTR:
            r = ('i', 64)
        elif k == TY_FLOAT:
            r = ('i', 32)
        elif k == TY_DOUBLE:
            r = ('i', 64)
        elif k == TY_X86FP80:
            r = ('i', 80)
        elif k == TY_VOID:
            r = ('v', 0)
        elif k == TY_STRUCT:
            n = l.LLVMCountStructElementTypes(V(t))
            el = []
            for i in range(n):
                et = l.LLVMStructGetTypeAtIndex(V(t), i)
                el.append((l.LLVMOffsetOfElement(self.td, V(t), i), self.ty(et)))
            r = ('s', tuple(el), l.LLVMABISizeOfType(self.td, V(t)))
        elif k == TY_ARRAY or k == TY_VEC:
            et = l.LLVMGetElementType(V(t))
            n = l.LLVMGetArrayLength(V(t)) if k == TY_ARRAY else l.LLVMGetVectorSize(V(t))
            es = l.LLVMABISizeOfType(self.td, V(et))
            ety = self.ty(et)
            r = ('s', tuple((i * es, ety) for i in range(n)), n * es) if n <= 4096 else ('big', n * es)
        else:
            r = ('v', 0)
        self.tycache[t] = r
        return r

    def size(self, t):
        return L().LLVMABISizeOfType(self.td, V(t))

    # ---- constants
    def const(self, v):
        l = L()
        k = l.LLVMGetValueKind(V(v))
        if k == CINT:
            w = l.LLVMGetIntTypeWidth(V(l.LLVMTypeOf(V(v))))
            if w > 64:
                s = l.LLVMPrintValueToString(V(v)).decode().split()[-1]
                return int(s) & ((1 << w) - 1)
            return l.LLVMConstIntGetZExtValue(V(v))
        if k in (FUNC, GVAR):
            return self.addr_of[v]
        if k == ALIAS:
            return self.const(self.addr_of[(v, 'alias')])
        if k == CNULL:
            return 0
        if k in (UNDEF, POISON, AGGZERO, TOKNONE):
            return self.zero(self.ty(l.LLVMTypeOf(V(v))))
        if k == CFP:
            loss = C.c_int()
            d = l.LLVMConstRealGetDouble(V(v), C.byref(loss))
            tk = l.LLVMGetTypeKind(V(l.LLVMTypeOf(V(v))))
            if tk == TY_FLOAT:
                return struct.unpack("<I", struct.pack("<f", d))[0]
            return struct.unpack("<Q", struct.pack("<d", d))[0]
        if k in (CSTRUCT, CARR, CVEC, DARR, DVEC):
            t = self.ty(l.LLVMTypeOf(V(v)))
            if k in (DARR,):
                n = C.c_size_t()
                if l.LLVMIsConstantString(V(v)):
                    p = l.LLVMGetAsString(V(v), C.byref(n))
                    return tuple(C.string_at(p, n.value))
            cnt = len(t[1])
            return tuple(self.const(l.LLVMGetAggregateElement(V(v), i)) for i in range(cnt))
        if k == CEXPR:
            op = l.LLVMGetConstOpcode(V(v))
            ops = [l.LLVMGetOperand(V(v), i) for i in range(l.LLVMGetNumOperands(V(v)))]
            if op in (39, 40, 41, 60):
                return self.const(ops[0])
            if op == 29:
                base = self.const(ops[0])
                parts = self.gep_parts(v, ops)
                off = parts[0]
                for o, sc in parts[1]:
                    raise Unsupported("const gep")
                return (base + off) & M64
            if op in (8, 10, 25, 23, 30):
                a = self.const(ops[0])
                if op == 30:
                    return a & ((1 << l.LLVMGetIntTypeWidth(V(l.LLVMTypeOf(V(v))))) - 1)
                b = self.const(ops[1])
                return {8: a + b, 10: a - b, 25: a ^ b, 23: a & b}[op] & M64
            raise Unsupported("constexpr op %d" % op)
        if k == IASM:
            n = C.c_size_t(); 
            p = l.LLVMGetInlineAsmAsmString(V(v), C.byref(n)); s = C.string_at(p, n.value).decode()
            p = l.LLVMGetInlineAsmConstraintString(V(v), C.byref(n)); c = C.string_at(p, n.value).decode()
            return ('asm', s, c)
        if k == MDV:
            return 0
        if k == BLOCKADDR:
            return 0
        raise Unsupported("const kind %d" % k)

    def zero(self, t):
        if t[0] == 's':
            return tuple(self.zero(e[1]) for e in t[1])
        return 0

    def gep_parts(self, v, ops):
        """-> (const offset, [(operand valueref, scale)])"""
        l = L()
        t = l.LLVMGetGEPSourceElementType(V(v))
        off = 0; dyn = []
        for n, o in enumerate(ops[1:]):
            isc = l.LLVMGetValueKind(V(o)) == CINT
            if n == 0:
                sc = self.size(t)
                if isc:
                    off += l.LLVMConstIntGetSExtValue(V(o)) * sc
                else:
                    dyn.append((o, sc))
            else:
                k = l.LLVMGetTypeKind(V(t))
                if k == TY_STRUCT:
                    i = l.LLVMConstIntGetZExtValue(V(o))
                    off += l.LLVMOffsetOfElement(self.td, V(t), int(i))
                    t = l.LLVMStructGetTypeAtIndex(V(t), int(i))
                else:
                    t = l.LLVMGetElementType(V(t))
                    sc = self.size(t)
                    if isc:
                        off += l.LLVMConstIntGetSExtValue(V(o)) * sc
                    else:
                        dyn.append((o, sc))
        return off & M64, dyn

    def flatten(self, off, t, val, out):
        if t[0] == 's':
            for (o, et), x in zip(t[1], val):
                self.flatten(off + o, et, x, out)
        elif t[0] == 'i':
            out.append((off, (t[1] + 7) // 8, val))

    def load_global(self, g):
        l = L()
        G = Glob()
        G.name = vname(g); G.addr = self.addr_of[g]
        t = l.LLVMGlobalGetValueType(V(g))
        init = l.LLVMGetInitializer(V(g))
        G.tls = bool(l.LLVMIsThreadLocal(V(g)))
        G.const = bool(l.LLVMIsGlobalConstant(V(g)))
        G.decl = not init
        try:
            G.size = self.size(t)
        except Exception:
            G.size = 8
        G.align = max(16, l.LLVMGetAlignment(V(g)))
        G.init = []; G.zero = False; G.ti = None
        if init:
            k = l.LLVMGetValueKind(V(init))
            if k == AGGZERO or k == UNDEF:
                G.zero = True
            else:
                G.zero = True
                self.flatten(0, self.ty(t), self.const(init), G.init)
                G.init = [x for x in G.init if x[2] != 0]
        self.globals[G.name] = G
        self.by_addr[G.addr] = G

    def load_fn(self, f):
        l = L()
        F = Fn()
        F.name = vname(f); F.addr = self.addr_of[f]
        F.nargs = l.LLVMCountParams(V(f))
        ft = l.LLVMGlobalGetValueType(V(f))
        F.vararg = bool(l.LLVMIsFunctionVarArg(V(ft)))
        F.retty = self.ty(l.LLVMGetReturnType(V(ft)))
        self.fn_by_name[F.name] = F; self.by_addr[F.addr] = F
        b = l.LLVMGetFirstBasicBlock(V(f))
        F.decl = not b
        F.ns = "5boost7context" in F.name
        if F.decl:
            return
        slots = []; smap = {}; cmap = {}
        for i in range(F.nargs):
            smap[l.LLVMGetParam(V(f), i)] = len(slots); slots.append(None)
        bbs = []; bidx = {}
        while b:
            bidx[b] = len(bbs); bbs.append(b)
            b = l.LLVMGetNextBasicBlock(V(b))
        insts = []
        for b in bbs:
            i = l.LLVMGetFirstInstruction(V(b)); li = []
            while i:
                li.append(i); smap[i] = len(slots); slots.append(None)
                i = l.LLVMGetNextInstruction(V(i))
            insts.append(li)
        def S(v):
            s = smap.get(v)
            if s is not None:
                return s
            c = self.const(v)
            key = c if not isinstance(c, tuple) else (v,)
            s = cmap.get(key)
            if s is None:
                s = len(slots); slots.append(c); cmap[key] = s
            smap[v] = s
            return s
        F.blocks = []; F.phis = []; F.lines = []
        for bi, li in enumerate(insts):
            out = []; ph = {}; lines = []
            for i in li:
                op = l.LLVMGetInstructionOpcode(V(i))
                d = smap[i]
                if op == 44:
                    for n in range(l.LLVMCountIncoming(V(i))):
                        pb = bidx[l.LLVMGetIncomingBlock(V(i), n)]
                        ph.setdefault(pb, []).append((d, S(l.LLVMGetIncomingValue(V(i), n))))
                    continue
                nops = l.LLVMGetNumOperands(V(i))
                O = lambda k: l.LLVMGetOperand(V(i), k)
                T = lambda v: self.ty(l.LLVMTypeOf(V(v)))
                if op == 27:
                    t = T(i); ins = (op, d, S(O(0)), t, l.LLVMGetOrdering(V(i)))
                elif op == 28:
                    ins = (op, d, S(O(0)), S(O(1)), T(O(0)), l.LLVMGetOrdering(V(i)))
                elif op == 29:
                    ops = [O(k) for k in range(nops)]
                    off, dyn = self.gep_parts(i, ops)
                    ins = (op, d, S(ops[0]), off, tuple((S(o), sc, self.ty(l.LLVMTypeOf(V(o)))[1]) for o, sc in dyn))
                elif op == 26:
                    t = l.LLVMGetAllocatedType(V(i))
                    ins = (op, d, self.size(t), S(O(0)), l.LLVMGetAlignment(V(i)))
                elif op in (8, 10, 12, 14, 15, 17, 18, 20, 21, 22, 23, 24, 25):
                    ins = (op, d, S(O(0)), S(O(1)), T(i)[1])
                elif op in (9, 11, 13, 16, 19):
                    ins = (300, d, op, S(O(0)), S(O(1)), T(i)[1])
                elif op == 66:
                    ins = (301, d, 66, S(O(0)), T(O(0))[1], T(i)[1])
                elif op in (33, 34, 35, 36, 37, 38):
                    ins = (301, d, op, S(O(0)), T(O(0))[1], T(i)[1])
                elif op == 43:
                    ins = (302, d, l.LLVMGetFCmpPredicate(V(i)), S(O(0)), S(O(1)), T(O(0))[1])
                elif op in (30, 31, 32):
                    ins = (op, d, S(O(0)), T(O(0))[1], T(i)[1])
                elif op in (39, 40, 41, 60, 68):
                    if op in (39, 40) and T(O(0))[1] != T(i)[1]:
                        ins = (30 if T(O(0))[1] > T(i)[1] else 31, d, S(O(0)), T(O(0))[1], T(i)[1])
                    else:
                        ins = (41, d, S(O(0)))
                elif op == 42:
                    ins = (op, d, l.LLVMGetICmpPredicate(V(i)), S(O(0)), S(O(1)), T(O(0))[1])
                elif op == 46:
                    ins = (op, d, S(O(0)), S(O(1)), S(O(2)), T(i))
                elif op == 2:
                    if l.LLVMIsConditional(V(i)):
                        ins = (200, d, S(l.LLVMGetCondition(V(i))), bidx[l.LLVMGetSuccessor(V(i), 0)], bidx[l.LLVMGetSuccessor(V(i), 1)])
                    else:
                        ins = (2, d, bidx[l.LLVMGetSuccessor(V(i), 0)])
                elif op == 3:
                    cases = []
                    for k in range(2, nops, 2):
                        cases.append((self.const(O(k)), bidx[O(k + 1)]))
                    ins = (3, d, S(O(0)), T(O(0))[1], bidx[l.LLVMGetSwitchDefaultDest(V(i))], tuple(cases))
                elif op == 1:
                    ins = (1, d, S(O(0)) if nops else None)
                elif op in (45, 5):
                    na = l.LLVMGetNumArgOperands(V(i))
                    cv = l.LLVMGetCalledValue(V(i))
                    args = []; byval = None
                    cft = V(l.LLVMGetCalledFunctionType(V(i)))
                    for k in range(na):
                        a = O(k)
                        if l.LLVMGetTypeKind(V(l.LLVMTypeOf(V(a)))) == TY_MD:
                            args.append(S(a)); continue
                        args.append(S(a))
                        na_ = l.LLVMGetCallSiteAttributeCount(V(i), k + 1)
                        if na_:
                            arr = (V * na_)()
                            l.LLVMGetCallSiteAttributes(V(i), k + 1, arr)
                            for at in arr:
                                if l.LLVMIsTypeAttribute(V(at)) and l.LLVMGetEnumAttributeKind(V(at)) == self.byval_kind:
                                    byval = (byval or []) + [(k, self.size(l.LLVMGetTypeAttributeValue(V(at))))]
                    nm = None
                    if l.LLVMGetValueKind(V(cv)) == FUNC:
                        nm = vname(cv)
                    aw = tuple(self.ty(l.LLVMTypeOf(V(O(k)))) for k in range(na))
                    ins = (op, d, nm, S(cv), tuple(args), byval, aw, T(i))
                    if op == 5:
                        ins = ins + (bidx[l.LLVMGetNormalDest(V(i))], bidx[l.LLVMGetUnwindDest(V(i))])
                elif op == 59:
                    cl = []
                    for k in range(l.LLVMGetNumClauses(V(i))):
                        c = l.LLVMGetClause(V(i), k)
                        if l.LLVMGetTypeKind(V(l.LLVMTypeOf(V(c)))) == TY_ARRAY:
                            cc = self.const(c)
                            cl.append(('filter', tuple(cc) if isinstance(cc, tuple) else ()))
                        else:
                            cl.append(('catch', self.const(c)))
                    ins = (op, d, tuple(cl), bool(l.LLVMIsCleanup(V(i))))
                elif op in (53, 54):
                    n = l.LLVMGetNumIndices(V(i)); p = l.LLVMGetIndices(V(i))
                    idx = tuple(p[k] for k in range(n))
                    ins = (op, d, S(O(0)), idx) if op == 53 else (op, d, S(O(0)), S(O(1)), idx)
                elif op == 58:
                    ins = (op, d, S(O(0)))
                elif op == 7:
                    ins = (op, d)
                elif op == 55:
                    ins = (op, d, l.LLVMGetOrdering(V(i)))
                elif op == 56:
                    ins = (op, d, S(O(0)), S(O(1)), S(O(2)), T(O(1)), l.LLVMGetCmpXchgSuccessOrdering(V(i)))
                elif op == 57:
                    ins = (op, d, l.LLVMGetAtomicRMWBinOp(V(i)), S(O(0)), S(O(1)), T(O(1)), l.LLVMGetOrdering(V(i)))
                else:
                    ins = (999, d, op)
                out.append(ins)
                lines.append(l.LLVMGetDebugLocLine(V(i)))
            F.blocks.append(out); F.phis.append(ph); F.lines.append(lines)
        F.slots = slots
        F.personality = bool(l.LLVMHasPersonalityFn(V(f)))
        F.file = None
        for li in insts:
            for i in li:
                n = C.c_uint()
                p = l.LLVMGetDebugLocFilename(V(i), C.byref(n))
                if p and n.value:
                    F.file = C.string_at(p, n.value).decode("latin1"); break
            if F.file:
                break
