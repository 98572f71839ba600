"""LLVM bitcode loader (LLVM-C API through ctypes; no build step).

Only functions that the verifier actually visits are converted.  The
conversion is one to one: nothing of a visited function is dropped except
debug/lifetime intrinsics (see DROPPED)."""
import ctypes as C
import glob

def _find():
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
        try:
            return C.CDLL(p)
        except OSError:
            continue
    for p in glob.glob("/usr/lib/llvm-*/lib/libLLVM*.so"):
        return C.CDLL(p)
    raise RuntimeError("libLLVM not found")

L = _find()
P = C.c_void_p

def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

ContextCreate = _f("LLVMContextCreate", P)
MemBufFromFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
GetNamedFunction = _f("LLVMGetNamedFunction", P, P, C.c_char_p)
GetNamedGlobal = _f("LLVMGetNamedGlobal", P, P, C.c_char_p)
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
GetFirstGlobalAlias = _f("LLVMGetFirstGlobalAlias", P, P)
GetNextGlobalAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetValueName2 = _f("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
GetOpcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOperands = _f("LLVMGetNumOperands", C.c_int, P)
GetOperand = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
GEPSrcType = _f("LLVMGetGEPSourceElementType", P, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
CalledValue = _f("LLVMGetCalledValue", P, P)
CalledFT = _f("LLVMGetCalledFunctionType", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", C.c_uint, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
GetSucc = _f("LLVMGetSuccessor", P, P, C.c_uint)
IsConditional = _f("LLVMIsConditional", C.c_int, P)
GetCondition = _f("LLVMGetCondition", P, P)
NumIndices = _f("LLVMGetNumIndices", C.c_uint, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
ConstZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
IsAConstantInt = _f("LLVMIsAConstantInt", P, P)
IsAConstantFP = _f("LLVMIsAConstantFP", P, P)
IsANull = _f("LLVMIsAConstantPointerNull", P, P)
IsAUndef = _f("LLVMIsAUndefValue", P, P)
IsAPoison = _f("LLVMIsAPoisonValue", P, P)
IsAConstantExpr = _f("LLVMIsAConstantExpr", P, P)
IsAFunction = _f("LLVMIsAFunction", P, P)
IsAGlobalVariable = _f("LLVMIsAGlobalVariable", P, P)
IsAGlobalAlias = _f("LLVMIsAGlobalAlias", P, P)
IsAArgument = _f("LLVMIsAArgument", P, P)
IsAInstruction = _f("LLVMIsAInstruction", P, P)
IsAZero = _f("LLVMIsAConstantAggregateZero", P, P)
IsACDS = _f("LLVMIsAConstantDataSequential", P, P)
IsACArr = _f("LLVMIsAConstantArray", P, P)
IsACStruct = _f("LLVMIsAConstantStruct", P, P)
IsACVec = _f("LLVMIsAConstantVector", P, P)
IsAInlineAsm = _f("LLVMIsAInlineAsm", P, P)
GetConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, P)
ElemAsConst = _f("LLVMGetElementAsConstant", P, P, C.c_uint)
GetNumClauses = _f("LLVMGetNumClauses", C.c_uint, P)
GetClause = _f("LLVMGetClause", P, P, C.c_uint)
IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
RMWBinOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
GetOrdering = _f("LLVMGetOrdering", C.c_int, P)
CmpXchgSuccOrd = _f("LLVMGetCmpXchgSuccessOrdering", C.c_int, P)
GetVolatile = _f("LLVMGetVolatile", C.c_int, P)
GetModuleDL = _f("LLVMGetModuleDataLayout", P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
CountStructElems = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructElemAt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
ElementType = _f("LLVMGetElementType", P, P)
ArrayLength2 = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecSize = _f("LLVMGetVectorSize", C.c_uint, P)
PrintValue = _f("LLVMPrintValueToString", P, P)
PrintType = _f("LLVMPrintTypeToString", P, P)
DisposeMsg = _f("LLVMDisposeMessage", None, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
ReturnType = _f("LLVMGetReturnType", P, P)
GetStructName = _f("LLVMGetStructName", C.c_char_p, P)
IsVarArg = _f("LLVMIsFunctionVarArg", C.c_int, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       47: "userop1", 48: "userop2", 49: "vaarg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax", 10: "umin"}
DROPPED = ("llvm.lifetime.", "llvm.dbg.", "llvm.invariant.", "llvm.experimental.noalias", "llvm.assume",
           "llvm.prefetch")


def _str(p):
    s = C.string_at(p).decode("utf8", "replace")
    DisposeMsg(p)
    return s


class Instr:
    __slots__ = ("op", "ty", "ops", "res", "x", "line")

    def __init__(self, op, ty, ops, res, x=None):
        self.op, self.ty, self.ops, self.res, self.x = op, ty, ops, res, x

    def __repr__(self):
        return "%s=%s %s %s %s" % (self.res, self.op, self.ty, self.ops, self.x)


class Block:
    __slots__ = ("id", "phis", "ins", "succ")


class Func:
    __slots__ = ("name", "args", "blocks", "retty", "decl", "loops", "_idom", "argtys")


class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        mb = P()
        err = C.c_char_p()
        if MemBufFromFile(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if ParseBC(ctx, mb, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m
        self.dl = GetModuleDL(m)
        self.fcache = {}
        self.tcache = {}
        self.names = {}
        self.aliases = {}
        f = GetFirstFunction(m)
        while f:
            self.names[self.vname(f)] = f
            f = GetNextFunction(f)
        a = GetFirstGlobalAlias(m)
        while a:
            self.aliases[self.vname(a)] = self.vname(AliasGetAliasee(a))
            a = GetNextGlobalAlias(a)
        self.globals = {}
        g = GetFirstGlobal(m)
        while g:
            self.globals[self.vname(g)] = g
            g = GetNextGlobal(g)

    def vname(self, v):
        n = C.c_size_t()
        p = GetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    # ---- types -------------------------------------------------------
    def ty(self, t):
        r = self.tcache.get(t)
        if r is None:
            r = self._ty(t)
            self.tcache[t] = r
        return r

    def _ty(self, t):
        k = TypeKind(t)
        if k == 8:
            return ("i", IntWidth(t))
        if k == 12:
            return ("ptr",)
        if k == 0:
            return ("void",)
        if k == 2:
            return ("f", 32)
        if k == 3:
            return ("f", 64)
        if k == 4:
            return ("f", 80)
        if k == 10:
            n = CountStructElems(t)
            el = [self.ty(StructElemAt(t, i)) for i in range(n)]
            try:
                offs = [OffsetOfElement(self.dl, t, i) for i in range(n)]
                sz = ABISize(self.dl, t)
            except Exception:
                offs, sz = None, None
            nm = GetStructName(t)
            return ("st", tuple(el), tuple(offs), sz, nm.decode() if nm else "")
        if k == 11:
            e = self.ty(ElementType(t))
            return ("arr", ArrayLength2(t), e, ABISize(self.dl, t))
        if k == 13:
            return ("vec", VecSize(t), self.ty(ElementType(t)), ABISize(self.dl, t))
        if k == 9:
            return ("fn",)
        return ("other", k)

    def size(self, ty):
        k = ty[0]
        if k == "i":
            w = ty[1]
            if w <= 8:
                return 1
            if w <= 16:
                return 2
            if w <= 32:
                return 4
            if w <= 64:
                return 8
            return 16 * ((w + 127) // 128)
        if k == "ptr":
            return 8
        if k == "f":
            return {32: 4, 64: 8, 80: 16}[ty[1]]
        if k == "st":
            return ty[3]
        if k in ("arr", "vec"):
            return ty[3]
        raise ValueError(ty)

    # ---- constants ----------------------------------------------------
    def const(self, v):
        if IsAConstantInt(v):
            w = IntWidth(TypeOf(v))
            if w <= 64:
                return ("c", w, ConstZExt(v) & ((1 << w) - 1))
            s = _str(PrintValue(v)).split()[-1]
            return ("c", w, int(s) & ((1 << w) - 1))
        if IsANull(v):
            return ("null",)
        if IsAPoison(v) or IsAUndef(v):
            return ("undef", self.ty(TypeOf(v)))
        if IsAFunction(v) or IsAGlobalVariable(v):
            return ("g", self.vname(v))
        if IsAGlobalAlias(v):
            return ("g", self.vname(AliasGetAliasee(v)))
        if IsAConstantFP(v):
            return ("fp", self.ty(TypeOf(v)), _str(PrintValue(v)).split()[-1])
        if IsAZero(v):
            return ("zero", self.ty(TypeOf(v)))
        if IsACDS(v):
            t = self.ty(TypeOf(v))
            return ("agg", t, [self.const(ElemAsConst(v, i)) for i in range(t[1])])
        if IsACArr(v) or IsACStruct(v) or IsACVec(v):
            return ("agg", self.ty(TypeOf(v)), [self.const(GetOperand(v, i)) for i in range(NumOperands(v))])
        if IsAConstantExpr(v):
            op = OPC[GetConstOpcode(v)]
            ops = [self.const(GetOperand(v, i)) for i in range(NumOperands(v))]
            if op == "gep":
                return ("ce", "gep", self.gep(v, ops))
            return ("ce", op, ops, self.ty(TypeOf(v)))
        return ("other", _str(PrintValue(v))[:80])

    def gep(self, v, ops):
        """-> (baseop, const, [(op, scale)])"""
        t = self.ty(GEPSrcType(v))
        c = 0
        terms = []
        for n, o in enumerate(ops[1:]):
            if n == 0:
                sc = self.size(t)
            else:
                if t[0] == "st":
                    c += t[2][o[2]]
                    t = t[1][o[2]]
                    continue
                sc = self.size(t[2])
                t = t[2]
            if o[0] == "c":
                val = o[2]
                if val >> (o[1] - 1):
                    val -= 1 << o[1]
                c += val * sc
            else:
                terms.append((o, sc))
        return (ops[0], c, terms)

    # ---- functions ------------------------------------------------------
    def func(self, name):
        f = self.fcache.get(name)
        if f is None:
            name2 = self.aliases.get(name, name)
            v = self.names.get(name2)
            if v is None:
                return None
            f = self._func(name2, v)
            self.fcache[name] = f
        return f

    def _func(self, name, fv):
        F = Func()
        F.name = name
        F.decl = bool(IsDeclaration(fv))
        F.loops = None
        F._idom = None
        F.retty = self.ty(ReturnType(GlobalValueType(fv)))
        F.args = []
        F.argtys = []
        F.blocks = []
        vid = {}
        n = CountParams(fv)
        for i in range(n):
            p = GetParam(fv, i)
            vid[p] = i
            F.args.append(i)
            F.argtys.append(self.ty(TypeOf(p)))
        if F.decl:
            return F
        bbs = []
        bid = {}
        b = FirstBB(fv)
        nxt = n
        while b:
            bid[b] = len(bbs)
            bbs.append(b)
            i = FirstInst(b)
            while i:
                vid[i] = nxt
                nxt += 1
                i = NextInst(i)
            b = NextBB(b)

        def val(v):
            r = vid.get(v)
            if r is not None:
                return ("v", r)
            return self.const(v)

        for b in bbs:
            B = Block()
            B.id = bid[b]
            B.phis = []
            B.ins = []
            B.succ = []
            i = FirstInst(b)
            while i:
                op = OPC[GetOpcode(i)]
                ty = self.ty(TypeOf(i))
                I = None
                if op == "phi":
                    inc = {}
                    for k in range(CountIncoming(i)):
                        inc[bid[IncomingBlock(i, k)]] = val(IncomingValue(i, k))
                    B.phis.append(Instr("phi", ty, None, vid[i], inc))
                    i = NextInst(i)
                    continue
                if op in ("call", "invoke"):
                    cv = CalledValue(i)
                    args = [val(GetOperand(i, k)) for k in range(NumArgOps(i))]
                    atys = [self.ty(TypeOf(GetOperand(i, k))) for k in range(NumArgOps(i))]
                    if IsAInlineAsm(cv):
                        callee = ("asm",)
                    else:
                        callee = val(cv)
                    if callee[0] == "g" and callee[1].startswith(DROPPED):
                        i = NextInst(i)
                        continue
                    x = (callee, atys)
                    if op == "invoke":
                        nd, ud = bid[NormalDest(i)], bid[UnwindDest(i)]
                        x = (callee, atys, nd, ud)
                        B.succ = [nd, ud]
                    I = Instr(op, ty, args, vid[i], x)
                elif op == "br":
                    if IsConditional(i):
                        s = [bid[GetSucc(i, 0)], bid[GetSucc(i, 1)]]
                        I = Instr("condbr", ty, [val(GetCondition(i))], None, s)
                    else:
                        s = [bid[GetSucc(i, 0)]]
                        I = Instr("br", ty, [], None, s)
                    B.succ = s
                elif op == "switch":
                    cond = val(GetOperand(i, 0))
                    default = bid[GetSucc(i, 0)]
                    cases = []
                    nops = NumOperands(i)
                    for k in range(2, nops, 2):
                        cases.append((self.const(GetOperand(i, k))[2], bid[GetSucc(i, k // 2)]))
                    I = Instr("switch", ty, [cond], None, (default, cases))
                    B.succ = list({default} | {c[1] for c in cases})
                elif op == "gep":
                    ops = [val(GetOperand(i, k)) for k in range(NumOperands(i))]
                    I = Instr("gep", ty, None, vid[i], self.gep(i, ops))
                elif op == "landingpad":
                    cl = [self.const(GetClause(i, k)) for k in range(GetNumClauses(i))]
                    I = Instr(op, ty, [], vid[i], (cl, bool(IsCleanup(i))))
                elif op in ("extractvalue", "insertvalue"):
                    n_ = NumIndices(i)
                    ix = GetIndices(i)
                    I = Instr(op, ty, [val(GetOperand(i, k)) for k in range(NumOperands(i))], vid[i],
                              [ix[k] for k in range(n_)])
                else:
                    ops = [val(GetOperand(i, k)) for k in range(NumOperands(i))]
                    x = None
                    if op == "icmp":
                        x = (IPRED[ICmpPred(i)], self.ty(TypeOf(GetOperand(i, 0))))
                    elif op == "fcmp":
                        x = FCmpPred(i)
                    elif op == "alloca":
                        x = self.size(self.ty(AllocatedType(i)))
                    elif op == "store":
                        x = (self.ty(TypeOf(GetOperand(i, 0))), GetOrdering(i))
                    elif op == "load":
                        x = GetOrdering(i)
                    elif op == "atomicrmw":
                        x = RMW[RMWBinOp(i)]
                    elif op == "cmpxchg":
                        x = self.ty(TypeOf(GetOperand(i, 1)))
                    elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi"):
                        x = self.ty(TypeOf(GetOperand(i, 0)))
                    elif op in ("resume", "unreachable"):
                        pass
                    I = Instr(op, ty, ops, vid[i], x)
                B.ins.append(I)
                i = NextInst(i)
            F.blocks.append(B)
        return F

    def global_init(self, name):
        g = self.globals.get(name)
        if not g:
            return None, None, False
        t = self.ty(GlobalValueType(g))
        ini = GetInitializer(g)
        return t, (self.const(ini) if ini else None), bool(IsGlobalConstant(g))


def find_loops(F):
    """natural loops: {header: set(blocks)}; computed from dominators."""
    if F.loops is not None:
        return F.loops
    n = len(F.blocks)
    preds = [[] for _ in range(n)]
    for b in F.blocks:
        for s in b.succ:
            preds[s].append(b.id)
    # reverse postorder
    seen = [False] * n
    order = []
    st = [(0, iter(F.blocks[0].succ))]
    seen[0] = True
    while st:
        u, it = st[-1]
        for s in it:
            if not seen[s]:
                seen[s] = True
                st.append((s, iter(F.blocks[s].succ)))
                break
        else:
            order.append(u)
            st.pop()
    order.reverse()
    idx = {b: k for k, b in enumerate(order)}
    idom = {0: 0}
    changed = True

    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = idom[a]
            while idx[b] > idx[a]:
                b = idom[b]
        return a
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    new = p if new is None else inter(p, new)
            if idom.get(b) != new:
                idom[b] = new
                changed = True
    F._idom = idom

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in F.blocks[b].succ:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in body:
                        body.add(x)
                        wl.extend(preds[x])
    F.loops = loops
    return loops
