"""Lazy Python view of LLVM IR through the LLVM-C API (ctypes on libLLVM-18).

The IR is what clang produced from the real translation unit in /repo on this run;
nothing in this file changes it.
"""
import ctypes as C
import ctypes.util
import os

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so"]
_L = None
for _c in _CANDS:
    try:
        _L = C.CDLL(_c)
        break
    except OSError:
        continue
if _L is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p
U = C.c_uint
I = C.c_int
S = C.c_char_p
U64 = C.c_ulonglong


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(S))
ParseIR = _f("LLVMParseIRInContext", I, P, P, C.POINTER(P), C.POINTER(S))
GetModuleDataLayout = _f("LLVMGetModuleDataLayout", P, P)
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
GetFirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
GetNextAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetValueName2 = _f("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", I, P)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
GetFirstBB = _f("LLVMGetFirstBasicBlock", P, P)
GetNextBB = _f("LLVMGetNextBasicBlock", P, P)
BBAsValue = _f("LLVMBasicBlockAsValue", P, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
GetFirstInst = _f("LLVMGetFirstInstruction", P, P)
GetNextInst = _f("LLVMGetNextInstruction", P, P)
GetOpcode = _f("LLVMGetInstructionOpcode", I, P)
GetNumOperands = _f("LLVMGetNumOperands", I, P)
GetOperand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
GetTypeKind = _f("LLVMGetTypeKind", I, P)
GetIntTypeWidth = _f("LLVMGetIntTypeWidth", U, P)
CountStructElems = _f("LLVMCountStructElementTypes", U, P)
StructGetType = _f("LLVMStructGetTypeAtIndex", P, P, U)
GetElementType = _f("LLVMGetElementType", P, P)
GetArrayLength2 = _f("LLVMGetArrayLength2", C.c_uint64, P)
GetVectorSize = _f("LLVMGetVectorSize", U, P)
ABISize = _f("LLVMABISizeOfType", U64, P, P)
StoreSize = _f("LLVMStoreSizeOfType", U64, P, P)
OffsetOf = _f("LLVMOffsetOfElement", U64, P, P, U)
TypeIsSized = _f("LLVMTypeIsSized", I, P)
GetValueKind = _f("LLVMGetValueKind", I, P)
ConstIntZExt = _f("LLVMConstIntGetZExtValue", U64, P)
GetConstOpcode = _f("LLVMGetConstOpcode", I, P)
GetAggElem = _f("LLVMGetAggregateElement", P, P, U)
GetInitializer = _f("LLVMGetInitializer", P, P)
GlobalGetValueType = _f("LLVMGlobalGetValueType", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", I, P)
GetICmpPred = _f("LLVMGetICmpPredicate", I, P)
GetFCmpPred = _f("LLVMGetFCmpPredicate", I, P)
GetNSW = _f("LLVMGetNSW", I, P)
GetNUW = _f("LLVMGetNUW", I, P)
GetGEPSrc = _f("LLVMGetGEPSourceElementType", P, P)
GetNumIndices = _f("LLVMGetNumIndices", U, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(U), P)
GetAllocatedType = _f("LLVMGetAllocatedType", P, P)
GetAlignment = _f("LLVMGetAlignment", U, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
GetIncomingValue = _f("LLVMGetIncomingValue", P, P, U)
GetIncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
IsConditional = _f("LLVMIsConditional", I, P)
GetNumSucc = _f("LLVMGetNumSuccessors", U, P)
GetSucc = _f("LLVMGetSuccessor", P, P, U)
GetCalled = _f("LLVMGetCalledValue", P, P)
GetNumArgOps = _f("LLVMGetNumArgOperands", U, P)
GetNormalDest = _f("LLVMGetNormalDest", P, P)
GetUnwindDest = _f("LLVMGetUnwindDest", P, P)
GetNumClauses = _f("LLVMGetNumClauses", U, P)
GetClause = _f("LLVMGetClause", P, P, U)
IsCleanup = _f("LLVMIsCleanup", I, P)
GetRMWOp = _f("LLVMGetAtomicRMWBinOp", I, P)
DebugLocLine = _f("LLVMGetDebugLocLine", U, P)
PrintValue = _f("LLVMPrintValueToString", P, P)
PrintType = _f("LLVMPrintTypeToString", P, P)
DisposeMessage = _f("LLVMDisposeMessage", None, P)
ConstRealGet = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(I))
GetReturnType = _f("LLVMGetReturnType", P, P)
GetElemTypeFn = GetElementType
IsVolatile = _f("LLVMGetVolatile", I, P)
GetCalledFnType = _f("LLVMGetCalledFunctionType", P, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and',
       24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr',
       30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad',
       60: 'addrspacecast', 66: 'fneg', 68: 'freeze', 67: 'callbr'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge',
        40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno',
        9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min',
       9: 'umax', 10: 'umin'}
# value kinds (llvm-c enum LLVMValueKind)
VK = {0: 'arg', 1: 'bb', 5: 'function', 6: 'alias', 7: 'ifunc', 8: 'global', 9: 'blockaddr',
      10: 'cexpr', 11: 'carray', 12: 'cstruct', 13: 'cvector', 14: 'undef', 15: 'cnullagg',
      16: 'cdataarray', 17: 'cdatavector', 18: 'cint', 19: 'cfp', 20: 'cnullptr', 21: 'cnonetoken',
      22: 'metadata', 23: 'asm', 24: 'inst', 25: 'poison', 26: 'ctargetnone'}


class Ty:
    __slots__ = ('kind', 'width', 'elems', 'offs', 'size', 'elem', 'n', 'store', 'text')

    def __repr__(self):
        return self.text


def vname(v):
    n = C.c_size_t()
    p = GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode()


def ptext(fn, v):
    p = fn(v)
    s = C.string_at(p).decode(errors='replace')
    DisposeMessage(p)
    return s


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'ref', 'a', 'line', 'id', 'bb')

    def __repr__(self):
        return ptext(PrintValue, self.ref).strip()


class Block:
    __slots__ = ('id', 'insts', 'succs', 'fn', 'phis', 'name')


class Operand:
    """kind: 'inst' (id), 'arg' (idx), 'const' (value resolved lazily by executor)"""
    __slots__ = ('kind', 'key', 'ref', 'ty')

    def __init__(self, kind, key, ref, ty):
        self.kind = kind
        self.key = key
        self.ref = ref
        self.ty = ty


class Function:
    def __init__(self, mod, ref, name):
        self.mod = mod
        self.ref = ref
        self.name = name
        self.decl = bool(IsDeclaration(ref))
        self.nparams = CountParams(ref)
        self._blocks = None
        self._loops = None
        self.param_tys = [mod.ty(TypeOf(GetParam(ref, i))) for i in range(self.nparams)]

    @property
    def blocks(self):
        if self._blocks is None:
            self._load()
        return self._blocks

    def _load(self):
        m = self.mod
        bbs = {}
        blocks = []
        b = GetFirstBB(self.ref)
        while b:
            blk = Block()
            blk.id = len(blocks)
            blk.fn = self
            blk.name = vname(BBAsValue(b))
            bbs[b] = blk.id
            blocks.append((blk, b))
            b = GetNextBB(b)
        args = {GetParam(self.ref, i): i for i in range(self.nparams)}
        ids = {}
        raw = []
        for blk, b in blocks:
            lst = []
            i = GetFirstInst(b)
            while i:
                ids[i] = len(ids)
                lst.append(i)
                i = GetNextInst(i)
            raw.append(lst)

        def opnd(v):
            if v in ids:
                return Operand('inst', ids[v], v, m.ty(TypeOf(v)))
            if v in args:
                return Operand('arg', args[v], v, m.ty(TypeOf(v)))
            k = GetValueKind(v)
            if k == 1:
                return Operand('bb', bbs[ValueAsBB(v)], v, None)
            if k in (22, 23):
                return Operand('meta', None, v, None)
            return Operand('const', None, v, m.ty(TypeOf(v)))

        out = []
        for (blk, b), lst in zip(blocks, raw):
            blk.insts = []
            blk.phis = []
            blk.succs = []
            for r in lst:
                ins = Inst()
                ins.ref = r
                ins.id = ids[r]
                ins.bb = blk.id
                ins.op = OPC.get(GetOpcode(r), 'op%d' % GetOpcode(r))
                ins.ty = m.ty(TypeOf(r))
                ins.line = DebugLocLine(r)
                ins.a = None
                op = ins.op
                if op == 'phi':
                    n = CountIncoming(r)
                    ins.ops = []
                    ins.a = {bbs[GetIncomingBlock(r, k)]: opnd(GetIncomingValue(r, k)) for k in range(n)}
                    blk.phis.append(ins)
                    continue
                n = GetNumOperands(r)
                if op in ('call', 'invoke'):
                    na = GetNumArgOps(r)
                    ins.ops = [opnd(GetOperand(r, k)) for k in range(na)]
                    cv = GetCalled(r)
                    vk = GetValueKind(cv)
                    callee = opnd(cv) if vk != 23 else Operand('asm', None, cv, None)
                    if op == 'invoke':
                        ins.a = (callee, bbs[GetNormalDest(r)], bbs[GetUnwindDest(r)])
                        blk.succs = [ins.a[1], ins.a[2]]
                    else:
                        ins.a = (callee, None, None)
                elif op == 'landingpad':
                    ins.ops = []
                    ins.a = ([GetClause(r, k) for k in range(GetNumClauses(r))], bool(IsCleanup(r)))
                else:
                    ins.ops = [opnd(GetOperand(r, k)) for k in range(n)]
                    if op == 'br':
                        ns = GetNumSucc(r)
                        blk.succs = [bbs[GetSucc(r, k)] for k in range(ns)]
                        ins.a = blk.succs
                    elif op == 'switch':
                        ns = GetNumSucc(r)
                        blk.succs = [bbs[GetSucc(r, k)] for k in range(ns)]
                        # operands: cond, default, (val, bb)*
                        ins.a = [(ConstIntZExt(GetOperand(r, 2 * k)), bbs[ValueAsBB(GetOperand(r, 2 * k + 1))])
                                 for k in range(1, ns)]
                    elif op == 'icmp':
                        ins.a = ICMP[GetICmpPred(r)]
                    elif op == 'fcmp':
                        ins.a = FCMP[GetFCmpPred(r)]
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        ins.a = (bool(GetNSW(r)), bool(GetNUW(r)))
                    elif op == 'getelementptr':
                        ins.a = m.ty(GetGEPSrc(r))
                    elif op in ('extractvalue', 'insertvalue'):
                        p = GetIndices(r)
                        ins.a = [p[k] for k in range(GetNumIndices(r))]
                    elif op == 'alloca':
                        ins.a = m.ty(GetAllocatedType(r))
                    elif op == 'atomicrmw':
                        ins.a = RMW[GetRMWOp(r)]
                blk.insts.append(ins)
            out.append(blk)
        self._blocks = out

    def loops(self):
        """header block id -> set of block ids in natural loop"""
        if self._loops is not None:
            return self._loops
        bl = self.blocks
        n = len(bl)
        preds = [[] for _ in range(n)]
        for b in bl:
            for s in b.succs:
                preds[s].append(b.id)
        # reverse post order
        order, seen = [], [False] * n
        stack = [(0, iter(bl[0].succs))]
        seen[0] = True
        while stack:
            x, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(bl[s].succs)))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in bl[b].succs:
                if s in num and dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in preds[x] if p in num)
        self._loops = loops
        return loops


class Module:
    _ctx = None

    def __init__(self, path):
        if Module._ctx is None:
            Module._ctx = ContextCreate()
        buf = P()
        err = S()
        if CreateMemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        mod = P()
        if ParseIR(Module._ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.ref = mod
        self.path = path
        self.td = GetModuleDataLayout(mod)
        self._ty = {}
        self.functions = {}
        self.globals = {}
        self.aliases = {}
        f = GetFirstFunction(mod)
        self._fref = {}
        while f:
            nm = vname(f)
            fn = Function(self, f, nm)
            self.functions[nm] = fn
            self._fref[f] = fn
            f = GetNextFunction(f)
        g = GetFirstGlobal(mod)
        while g:
            self.globals[vname(g)] = g
            g = GetNextGlobal(g)
        a = GetFirstAlias(mod)
        while a:
            self.aliases[vname(a)] = AliasGetAliasee(a)
            a = GetNextAlias(a)

    def ty(self, r):
        t = self._ty.get(r)
        if t is not None:
            return t
        t = Ty()
        self._ty[r] = t
        k = GetTypeKind(r)
        t.text = ptext(PrintType, r) if k not in (10,) else 'struct'
        t.elems = t.offs = t.elem = None
        t.width = t.size = t.store = t.n = 0
        if k == 0:
            t.kind = 'void'
        elif k == 8:
            t.kind = 'int'
            t.width = GetIntTypeWidth(r)
        elif k == 12:
            t.kind = 'ptr'
            t.width = 64
        elif k == 2:
            t.kind = 'fp'
            t.width = 32
        elif k == 3:
            t.kind = 'fp'
            t.width = 64
        elif k == 4:
            t.kind = 'fp80'
            t.width = 80
        elif k == 10:
            t.kind = 'struct'
            t.text = ptext(PrintType, r)
            if TypeIsSized(r):
                n = CountStructElems(r)
                t.elems = [self.ty(StructGetType(r, i)) for i in range(n)]
                t.offs = [OffsetOf(self.td, r, i) for i in range(n)]
            else:
                t.kind = 'opaque'
        elif k == 11:
            t.kind = 'array'
            t.elem = self.ty(GetElementType(r))
            t.n = GetArrayLength2(r)
        elif k == 13:
            t.kind = 'vector'
            t.elem = self.ty(GetElementType(r))
            t.n = GetVectorSize(r)
        elif k == 9:
            t.kind = 'fn'
        else:
            t.kind = 'k%d' % k
        if t.kind in ('int', 'ptr', 'fp', 'struct', 'array', 'fp80', 'vector'):
            t.size = ABISize(self.td, r)
            t.store = StoreSize(self.td, r)
        return t
