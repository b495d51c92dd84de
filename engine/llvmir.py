"""Loads LLVM IR through the LLVM-C API (ctypes) and decodes it into plain Python
objects: the resolved, inlined, SSA form of /repo's C++ that the analyses work on.
Nothing here executes the program."""
import ctypes as C
import functools

L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _f("LLVMContextCreate", P)
CreateMB = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
GetDL = _f("LLVMGetModuleDataLayout", P, P)
FirstFunction = _f("LLVMGetFirstFunction", P, P)
NextFunction = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGet = _f("LLVMAliasGetAliasee", P, P)
GetName = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
GetOp = _f("LLVMGetOperand", P, P, C.c_uint)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, P)
IncVal = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncBB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
GetSucc = _f("LLVMGetSuccessor", P, P, C.c_uint)
BBTerm = _f("LLVMGetBasicBlockTerminator", P, P)
CalledVal = _f("LLVMGetCalledValue", P, P)
NumArgs = _f("LLVMGetNumArgOperands", C.c_uint, P)
GEPSrcTy = _f("LLVMGetGEPSourceElementType", P, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
SExt = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
ZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
RealD = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
AggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
SeqElem = _f("LLVMGetElementAsConstant", P, P, C.c_uint)
GetInit = _f("LLVMGetInitializer", P, P)
IsGlobConst = _f("LLVMIsGlobalConstant", C.c_int, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
ArrLen = _f("LLVMGetArrayLength2", C.c_ulonglong, P)
VecLen = _f("LLVMGetVectorSize", C.c_uint, P)
ElemTy = _f("LLVMGetElementType", P, P)
StructN = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructTy = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
NumIdx = _f("LLVMGetNumIndices", C.c_uint, P)
Idx = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
DbgLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
DbgFile = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(C.c_uint))
GlobValTy = _f("LLVMGlobalGetValueType", P, P)
NumMask = _f("LLVMGetNumMaskElements", C.c_uint, P)
MaskVal = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
PrintV = _f("LLVMPrintValueToString", C.c_void_p, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# LLVMTypeKind
TK_VOID, TK_HALF, TK_FLOAT, TK_DOUBLE, TK_X86FP80 = 0, 1, 2, 3, 4
TK_LABEL, TK_INT, TK_FUNC, TK_STRUCT, TK_ARRAY, TK_PTR, TK_VEC = 7, 8, 9, 10, 11, 12, 13
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNC, VK_ALIAS, VK_GVAR, VK_CEXPR = 0, 1, 5, 6, 8, 10
VK_CARR, VK_CSTRUCT, VK_CVEC, VK_UNDEF, VK_CAGGZERO, VK_CDARR, VK_CDVEC, VK_CINT, VK_CFP, VK_CNULL = \
    11, 12, 13, 14, 15, 16, 17, 18, 19, 20
VK_INSTR = 24


def name_of(v):
    n = C.c_size_t()
    return GetName(v, C.byref(n)).decode()


class Ty:
    __slots__ = ("kind", "size", "alloc", "width", "elem", "n", "fields", "offs")


class Instr:
    __slots__ = ("op", "id", "ty", "ops", "x", "line", "file", "bb")

    def __repr__(self):
        return f"<{self.op} %{self.id} {self.ops} {self.x} @{self.file}:{self.line}>"


class Block:
    __slots__ = ("idx", "ins", "succ", "phis", "name")


class Func:
    __slots__ = ("name", "params", "blocks", "ptys", "_an", "nvals")


class Module:
    def __init__(self, path):
        self.path = path
        ctx = ContextCreate()
        mb, err = P(), C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if ParseIR(ctx, mb, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        self.dl = GetDL(m)
        self._ty = {}
        self._funcs = {}
        self._decoded = {}
        self.globals = {}
        self.aliases = {}
        f = FirstFunction(m)
        while f:
            self._funcs[name_of(f)] = f
            f = NextFunction(f)
        g = FirstGlobal(m)
        while g:
            self.globals[name_of(g)] = g
            g = NextGlobal(g)
        a = FirstAlias(m)
        while a:
            self.aliases[name_of(a)] = a
            a = NextAlias(a)

    # ---- types
    def ty(self, t):
        r = self._ty.get(t)
        if r:
            return r
        r = Ty()
        k = TypeKind(t)
        r.kind = k
        r.width = r.elem = r.n = r.fields = r.offs = None
        r.size = r.alloc = 0
        if k in (TK_VOID, TK_LABEL, TK_FUNC) or k > 13 and k != 16:
            self._ty[t] = r
            return r
        try:
            if k == TK_INT:
                r.width = IntWidth(t)
            elif k == TK_ARRAY:
                r.n = ArrLen(t)
                r.elem = self.ty(ElemTy(t))
            elif k == TK_VEC:
                r.n = VecLen(t)
                r.elem = self.ty(ElemTy(t))
            elif k == TK_STRUCT:
                n = StructN(t)
                r.fields = [self.ty(StructTy(t, i)) for i in range(n)]
                r.offs = [OffsetOf(self.dl, t, i) for i in range(n)]
            r.size = StoreSize(self.dl, t)
            r.alloc = ABISize(self.dl, t)
        finally:
            self._ty[t] = r
        return r

    # ---- constants -> python tuples
    def const(self, v):
        k = ValueKind(v)
        if k == VK_CINT:
            w = IntWidth(TypeOf(v))
            return ("i", w, SExt(v) if w <= 64 else ZExt(v))
        if k == VK_CFP:
            li = C.c_int()
            return ("f", RealD(v, C.byref(li)))
        if k == VK_CNULL:
            return ("null",)
        if k == VK_FUNC:
            return ("fn", name_of(v))
        if k == VK_GVAR:
            return ("g", name_of(v), 0)
        if k == VK_ALIAS:
            return self.const(AliasGet(v))
        if k == VK_UNDEF or k == 26 or k == 25:  # undef / poison
            return ("undef",)
        if k == VK_CAGGZERO:
            return ("zero", self.ty(TypeOf(v)))
        if k in (VK_CDARR, VK_CDVEC):
            t = self.ty(TypeOf(v))
            return ("agg", [self.const(SeqElem(v, i)) for i in range(t.n)], t)
        if k in (VK_CARR, VK_CSTRUCT, VK_CVEC):
            t = self.ty(TypeOf(v))
            n = t.n if t.n is not None else len(t.fields)
            return ("agg", [self.const(GetOp(v, i)) for i in range(n)], t)
        if k == VK_CEXPR:
            op = OPC.get(ConstOpcode(v))
            ops = [self.const(GetOp(v, i)) for i in range(NumOps(v))]
            if op == "gep":
                t = self.ty(GEPSrcTy(v))
                return ("cgep", t, ops)
            return ("cexpr", op, ops, self.ty(TypeOf(v)))
        # poison etc.
        s = C.cast(PrintV(v), C.c_char_p).value.decode()
        if s.endswith("poison") or s.endswith("undef"):
            return ("undef",)
        if s.endswith("token none") or "metadata" in s or k in (21, 22, 23, 2):
            return ("meta",)
        return ("unk", s[:80])

    def initializer(self, name):
        g = self.globals[name]
        t = self.ty(GlobValTy(g))
        if IsDecl(g):
            return t, None
        return t, self.const(GetInit(g))

    def is_const_global(self, name):
        return bool(IsGlobConst(self.globals[name]))

    def has(self, name):
        return name in self._funcs or name in self.aliases

    def is_defined(self, name):
        if name in self.aliases:
            return True
        f = self._funcs.get(name)
        return bool(f) and not IsDecl(f)

    def function_names(self):
        return list(self._funcs)

    def func(self, name):
        d = self._decoded.get(name)
        if d is None:
            if name in self.aliases:
                tgt = self.const(self.aliases[name])
                d = self.func(tgt[1])
            else:
                d = self._decode(name)
            self._decoded[name] = d
        return d

    def _decode(self, name):
        f = self._funcs[name]
        fn = Func()
        fn.name = name
        ids = {}
        fn.params = []
        fn.ptys = []
        for i in range(CountParams(f)):
            p = GetParam(f, i)
            ids[p] = len(ids)
            fn.params.append(ids[p])
            fn.ptys.append(self.ty(TypeOf(p)))
        bbs = []
        b = FirstBB(f)
        bidx = {}
        while b:
            bidx[b] = len(bbs)
            bbs.append(b)
            i = FirstI(b)
            while i:
                ids[i] = len(ids)
                i = NextI(i)
            b = NextBB(b)

        def opnd(v):
            k = ValueKind(v)
            if k == VK_ARG or k >= VK_INSTR and v in ids:
                return ("s", ids[v])
            if v in ids:
                return ("s", ids[v])
            if k == VK_BB:
                return ("bb", bidx[v])
            return self.const(v)

        fn.blocks = []
        for b in bbs:
            B = Block()
            B.idx = bidx[b]
            B.ins = []
            B.phis = []
            B.succ = []
            i = FirstI(b)
            while i:
                oc = OPC.get(Opcode(i), f"op{Opcode(i)}")
                I = Instr()
                I.op = oc
                I.id = ids[i]
                I.ty = self.ty(TypeOf(i))
                I.x = None
                I.line = DbgLine(i)
                I.bb = B.idx
                if I.line:
                    n = C.c_uint()
                    p = DbgFile(i, C.byref(n))
                    I.file = C.string_at(p, n.value).decode() if p else ""
                else:
                    I.file = ""
                if oc == "phi":
                    I.ops = [(bidx[IncBB(i, k)], opnd(IncVal(i, k))) for k in range(CountIncoming(i))]
                    B.phis.append(I)
                    i = NextI(i)
                    continue
                if oc in ("call", "invoke"):
                    cv = CalledVal(i)
                    I.ops = [opnd(GetOp(i, k)) for k in range(NumArgs(i))]
                    callee = opnd(cv)
                    I.x = {"callee": callee}
                    if oc == "invoke":
                        I.x["normal"] = bidx[GetSucc(i, 0)]
                        I.x["unwind"] = bidx[GetSucc(i, 1)]
                elif oc == "br":
                    n = NumSucc(i)
                    I.x = [bidx[GetSucc(i, k)] for k in range(n)]
                    I.ops = [opnd(GetOp(i, 0))] if n == 2 else []
                elif oc == "switch":
                    nop = NumOps(i)
                    I.ops = [opnd(GetOp(i, 0))]
                    dflt = bidx[GetOp(i, 1)]
                    cases = []
                    for k in range(2, nop, 2):
                        cases.append((self.const(GetOp(i, k))[2], bidx[GetOp(i, k + 1)]))
                    I.x = (dflt, cases)
                else:
                    I.ops = [opnd(GetOp(i, k)) for k in range(NumOps(i))]
                    if oc == "icmp":
                        I.x = (ICMP[ICmpPred(i)], self.ty(TypeOf(GetOp(i, 0))))
                    elif oc == "fcmp":
                        I.x = FCMP[FCmpPred(i)]
                    elif oc == "gep":
                        I.x = self.ty(GEPSrcTy(i))
                    elif oc == "alloca":
                        I.x = self.ty(AllocTy(i))
                    elif oc in ("extractvalue", "insertvalue"):
                        n = NumIdx(i)
                        ip = Idx(i)
                        I.x = [ip[k] for k in range(n)]
                    elif oc == "shufflevector":
                        I.x = [MaskVal(i, k) for k in range(NumMask(i))]
                    elif oc == "store":
                        I.x = self.ty(TypeOf(GetOp(i, 0)))
                    elif oc in ("trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast",
                                "ptrtoint", "inttoptr", "fptrunc", "fpext"):
                        I.x = self.ty(TypeOf(GetOp(i, 0)))
                B.ins.append(I)
                i = NextI(i)
            t = B.ins[-1]
            if t.op == "br":
                B.succ = list(t.x)
            elif t.op == "switch":
                B.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == "invoke":
                B.succ = [t.x["normal"]]       # unwind edge: exceptional exit, see absint
            else:
                B.succ = []
            fn.blocks.append(B)
        fn.nvals = len(ids)
        fn._an = None
        return fn


def analyse_cfg(fn):
    """reachable set, ipdom, natural loop headers (unwind edges excluded)."""
    if fn._an is not None:
        return fn._an
    n = len(fn.blocks)
    succ = [list(dict.fromkeys(b.succ)) for b in fn.blocks]
    # reachable
    order, seen, st = [], {0}, [(0, iter(succ[0]))] if n else []
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                st.append((v, iter(succ[v])))
                break
        else:
            order.append(u)
            st.pop()
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    # dominators
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                body = {s}
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
                loops.setdefault(s, set()).update(body)
    # post-dominators with virtual exit EXIT=-1.  Blocks ending in unreachable
    # (throw/abort) are ignored as exits: they contribute no state.
    EXIT = -1
    dead = set()
    for b in rpo:
        if fn.blocks[b].ins[-1].op in ("unreachable", "resume"):
            dead.add(b)
    # propagate deadness: block all of whose successors are dead
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b not in dead and succ[b] and all(s in dead for s in succ[b]):
                dead.add(b)
                ch = True
    live = [b for b in rpo if b not in dead]
    psucc = {b: [s for s in succ[b] if s not in dead] for b in live}
    for b in live:
        if not psucc[b]:
            psucc[b] = [EXIT]
    ppred = {b: [] for b in live}
    ppred[EXIT] = []
    for b in live:
        for s in psucc[b]:
            ppred[s].append(b)
    # rpo on reverse graph
    order, seen, st = [], {EXIT}, [(EXIT, iter(ppred[EXIT]))]
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                st.append((v, iter(ppred[v])))
                break
        else:
            order.append(u)
            st.pop()
    rr = order[::-1]
    rpos = {b: i for i, b in enumerate(rr)}
    ipd = {EXIT: EXIT}
    ch = True
    while ch:
        ch = False
        for b in rr[1:]:
            new = None
            for p in psucc[b]:
                if p in ipd:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while rpos[x] > rpos[y]:
                                x = ipd[x]
                            while rpos[y] > rpos[x]:
                                y = ipd[y]
                        new = x
            if new is not None and ipd.get(b) != new:
                ipd[b] = new
                ch = True
    fn._an = dict(rpo=rpo, pos=pos, pred=pred, idom=idom, loops=loops, ipdom=ipd, dead=dead, dom=dom)
    return fn._an
