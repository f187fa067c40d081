"""Loads LLVM IR (textual or bitcode) through the LLVM-C API (ctypes, libLLVM-18) into plain Python structures.

Nothing is executed: the module is only read.
"""
import ctypes as C
import struct
import os

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so", "libLLVM.so.18.1"]
_L = None


def _lib():
    global _L
    if _L is not None:
        return _L
    err = None
    for c in _CANDS:
        try:
            _L = C.CDLL(c)
            break
        except OSError as e:
            err = e
    if _L is None:
        raise RuntimeError("libLLVM-18 not found: %s" % err)
    V = C.c_void_p
    U = C.c_uint
    S = C.c_char_p
    sig = {
        'LLVMCreateMemoryBufferWithContentsOfFile': (C.c_int, [S, C.POINTER(V), C.POINTER(S)]),
        'LLVMContextCreate': (V, []),
        'LLVMContextDispose': (None, [V]),
        'LLVMDisposeModule': (None, [V]),
        'LLVMParseIRInContext': (C.c_int, [V, V, C.POINTER(V), C.POINTER(S)]),
        'LLVMGetModuleDataLayout': (V, [V]),
        'LLVMPointerSize': (U, [V]),
        'LLVMStoreSizeOfType': (C.c_ulonglong, [V, V]),
        'LLVMABISizeOfType': (C.c_ulonglong, [V, V]),
        'LLVMOffsetOfElement': (C.c_ulonglong, [V, V, U]),
        'LLVMGetFirstFunction': (V, [V]), 'LLVMGetNextFunction': (V, [V]),
        'LLVMGetFirstGlobal': (V, [V]), 'LLVMGetNextGlobal': (V, [V]),
        'LLVMGetFirstGlobalAlias': (V, [V, ]), 'LLVMGetNextGlobalAlias': (V, [V]), 'LLVMAliasGetAliasee': (V, [V]),
        'LLVMGetInitializer': (V, [V]), 'LLVMIsGlobalConstant': (C.c_int, [V]), 'LLVMIsThreadLocal': (C.c_int, [V]),
        'LLVMGlobalGetValueType': (V, [V]),
        'LLVMGetValueName2': (S, [V, C.POINTER(C.c_size_t)]),
        'LLVMIsDeclaration': (C.c_int, [V]),
        'LLVMCountParams': (U, [V]), 'LLVMGetParam': (V, [V, U]),
        'LLVMGetFirstBasicBlock': (V, [V]), 'LLVMGetNextBasicBlock': (V, [V]),
        'LLVMGetFirstInstruction': (V, [V]), 'LLVMGetNextInstruction': (V, [V]),
        'LLVMGetInstructionOpcode': (C.c_int, [V]),
        'LLVMGetNumOperands': (C.c_int, [V]), 'LLVMGetOperand': (V, [V, U]),
        'LLVMTypeOf': (V, [V]), 'LLVMGetTypeKind': (C.c_int, [V]), 'LLVMGetIntTypeWidth': (U, [V]),
        'LLVMCountStructElementTypes': (U, [V]), 'LLVMStructGetTypeAtIndex': (V, [V, U]),
        'LLVMGetArrayLength2': (C.c_ulonglong, [V]), 'LLVMGetElementType': (V, [V]), 'LLVMGetVectorSize': (U, [V]),
        'LLVMGetValueKind': (C.c_int, [V]),
        'LLVMConstIntGetZExtValue': (C.c_ulonglong, [V]),
        'LLVMConstRealGetDouble': (C.c_double, [V, C.POINTER(C.c_int)]),
        'LLVMGetConstOpcode': (C.c_int, [V]),
        'LLVMGetICmpPredicate': (C.c_int, [V]), 'LLVMGetFCmpPredicate': (C.c_int, [V]),
        'LLVMCountIncoming': (U, [V]), 'LLVMGetIncomingValue': (V, [V, U]), 'LLVMGetIncomingBlock': (V, [V, U]),
        'LLVMGetNumSuccessors': (U, [V]), 'LLVMGetSuccessor': (V, [V, U]),
        'LLVMIsConditional': (C.c_int, [V]), 'LLVMGetCondition': (V, [V]),
        'LLVMGetSwitchDefaultDest': (V, [V]),
        'LLVMGetNumIndices': (U, [V]), 'LLVMGetIndices': (C.POINTER(U), [V]),
        'LLVMGetNumClauses': (U, [V]), 'LLVMGetClause': (V, [V, U]), 'LLVMIsCleanup': (C.c_int, [V]),
        'LLVMGetCalledValue': (V, [V]), 'LLVMGetNumArgOperands': (U, [V]),
        'LLVMGetNormalDest': (V, [V]), 'LLVMGetUnwindDest': (V, [V]),
        'LLVMGetAllocatedType': (V, [V]),
        'LLVMGetGEPSourceElementType': (V, [V]),
        'LLVMGetEnumAttributeKindForName': (U, [S, C.c_size_t]),
        'LLVMGetEnumAttributeAtIndex': (V, [V, U, U]), 'LLVMGetCallSiteEnumAttribute': (V, [V, U, U]),
        'LLVMInstructionGetDebugLoc': (V, [V]), 'LLVMDILocationGetLine': (U, [V]), 'LLVMDILocationGetScope': (V, [V]),
        'LLVMDILocationGetInlinedAt': (V, [V]),
        'LLVMDIScopeGetFile': (V, [V]), 'LLVMDIFileGetFilename': (C.c_void_p, [V, C.POINTER(U)]),
        'LLVMGetVolatile': (C.c_int, [V]),
        'LLVMBasicBlockAsValue': (V, [V]), 'LLVMValueAsBasicBlock': (V, [V]),
        'LLVMPrintValueToString': (C.c_void_p, [V]), 'LLVMDisposeMessage': (None, [V]),
        'LLVMGetAggregateElement': (V, [V, U]),
        'LLVMIsNull': (C.c_int, [V]), 'LLVMIsUndef': (C.c_int, [V]), 'LLVMIsPoison': (C.c_int, [V]),
        'LLVMGetTypeAttributeValue': (V, [V]), 'LLVMGetStructName': (S, [V]),
        'LLVMGetIntrinsicID': (U, [V]),
        'LLVMGetAtomicRMWBinOp': (C.c_int, [V]),
        'LLVMConstIntGetSExtValue': (C.c_longlong, [V]),
    }
    for n, (r, a) in sig.items():
        f = getattr(_L, n)
        f.restype = r
        f.argtypes = a
    return _L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}

_libcxx = None


def demangle(n):
    global _libcxx
    if not n.startswith('_Z'):
        return n
    if _libcxx is None:
        _libcxx = C.CDLL("libstdc++.so.6")
        _libcxx.__cxa_demangle.restype = C.c_void_p
        _libcxx.__cxa_demangle.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.POINTER(C.c_int)]
        _libcxx._free = C.CDLL(None).free
        _libcxx._free.argtypes = [C.c_void_p]
    st = C.c_int(0)
    p = _libcxx.__cxa_demangle(n.encode(), None, None, C.byref(st))
    if not p:
        return n
    s = C.string_at(p).decode(errors='replace')
    _libcxx._free(p)
    return s


class Func:
    __slots__ = ('name', 'dem', 'nparams', 'decl', 'nounwind', 'blocks', 'noreturn', 'sret', 'preds', 'nlocals')


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'loc')
    # op: opcode string, dst: local slot or -1, ty: result type, a: operands, x: extra, loc: (file, line)


class Module:
    pass


class Unsupported(Exception):
    pass


def load(path):
    """Parse the IR file and convert every defined function. Returns a Module."""
    L = _lib()
    V = C.c_void_p
    buf = V()
    msg = C.c_char_p()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
        raise RuntimeError("cannot read %s: %s" % (path, msg.value))
    ctx = L.LLVMContextCreate()
    mod = V()
    if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(msg)):
        raise RuntimeError("cannot parse %s: %s" % (path, msg.value))
    td = L.LLVMGetModuleDataLayout(mod)
    psize = L.LLVMPointerSize(td)
    NOUNW = L.LLVMGetEnumAttributeKindForName(b"nounwind", 8)
    SRET = L.LLVMGetEnumAttributeKindForName(b"sret", 4)
    NORET = L.LLVMGetEnumAttributeKindForName(b"noreturn", 8)
    FIDX = 0xFFFFFFFF
    szt = C.c_size_t(0)

    def name(v):
        return L.LLVMGetValueName2(v, C.byref(szt)).decode(errors='replace')

    tcache = {}

    def ty(t):
        r = tcache.get(t)
        if r is None:
            r = tcache[t] = _ty(t)
        return r

    def _ty(t):
        k = L.LLVMGetTypeKind(t)
        if k == 0:
            return ('void',)
        if k in (2, 3, 4, 5, 6, 1, 18):
            n = {1: 2, 18: 2, 2: 4, 3: 8, 4: 10, 5: 16, 6: 16}[k]
            return ('fp', n)
        if k == 8:
            b = L.LLVMGetIntTypeWidth(t)
            return ('int', (b + 7) // 8, b)
        if k == 12:
            return ('ptr', psize)
        if k == 10:
            n = L.LLVMCountStructElementTypes(t)
            els = []
            for i in range(n):
                els.append((L.LLVMOffsetOfElement(td, t, i), ty(L.LLVMStructGetTypeAtIndex(t, i))))
            return ('struct', L.LLVMABISizeOfType(td, t), tuple(els))
        if k == 11:
            n = L.LLVMGetArrayLength2(t)
            e = L.LLVMGetElementType(t)
            es = L.LLVMABISizeOfType(td, e)
            et = ty(e)
            return ('array', n * es, n, et, es)
        if k == 13:
            n = L.LLVMGetVectorSize(t)
            e = L.LLVMGetElementType(t)
            return ('vec', L.LLVMStoreSizeOfType(td, t), n, ty(e))
        if k == 7:
            return ('label',)
        if k in (14, 16, 9):
            return ('meta',)
        return ('other', k)

    M = Module()
    M.psize = psize
    M.pbits = psize * 8
    M.funcs = {}
    M.globals = {}
    M.path = path
    pbits = psize * 8

    ccache = {}

    def const(v):
        r = ccache.get(v)
        if r is None:
            r = ccache[v] = _const(v)
        return r

    def _const(v):
        k = L.LLVMGetValueKind(v)
        t = ty(L.LLVMTypeOf(v))
        # LLVMValueKind: 0 Argument,1 BB,2 MemUse,3 MemDef,4 MemPhi,5 Function,6 GlobalAlias,7 GlobalIFunc,8 GlobalVar,
        # 9 BlockAddress,10 ConstExpr,11 ConstArray,12 ConstStruct,13 ConstVector,14 Undef,15 AggregateZero,
        # 16 DataArray,17 DataVector,18 ConstInt,19 ConstFP,20 PointerNull,21 TokenNone,22 MetadataAsValue,
        # 23 InlineAsm,24 Instruction,25 Poison
        if k == 18:
            if t[2] > 64:
                s = C.cast(L.LLVMPrintValueToString(v), C.c_char_p).value.decode().split()[-1]
                return ('i', t[2], int(s) & ((1 << t[2]) - 1))
            return ('i', t[2], L.LLVMConstIntGetZExtValue(v) & ((1 << t[2]) - 1))
        if k == 19:
            li = C.c_int(0)
            s = C.cast(L.LLVMPrintValueToString(v), C.c_char_p).value.decode().split()[-1]
            if t[1] == 8:
                if s.startswith('0x') and s[2] not in 'KLMHR':
                    return ('i', 64, int(s, 16))
                return ('i', 64, struct.unpack('<Q', struct.pack('<d', float(s)))[0])
            if t[1] == 4:
                if s.startswith('0x'):
                    bits = int(s, 16)  # printed as a double
                    d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                    if d != d:
                        sign = bits >> 63
                        man = (bits >> 29) & 0x7fffff
                        return ('i', 32, (sign << 31) | 0x7f800000 | man)
                    return ('i', 32, struct.unpack('<I', struct.pack('<f', d))[0])
                return ('i', 32, struct.unpack('<I', struct.pack('<f', float(s)))[0])
            return ('x', t[1] * 8, 'fpconst', s)
        if k == 20:
            return ('i', pbits, 0)
        if k in (14, 25):
            return undef_of(t)
        if k in (5, 8, 6, 7):
            return ('p', '@' + name(v), 0)
        if k == 15:
            return zero_of(t)
        if k in (11, 12, 13, 16, 17):
            if t[0] == 'struct':
                n = len(t[2])
            elif t[0] == 'array':
                n = t[2]
            else:
                n = t[2]
            return ('agg', tuple(const(L.LLVMGetAggregateElement(v, i)) for i in range(n)))
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v))
            ops = [L.LLVMGetOperand(v, i) for i in range(L.LLVMGetNumOperands(v))]
            if op == 'gep':
                base = const(ops[0])
                off = gep_parts(L.LLVMGetGEPSourceElementType(v), ops[1:], None)
                if base[0] == 'p' and not off[1]:
                    return ('p', base[1], base[2] + off[0])
                if base[0] == 'i' and not off[1]:
                    return ('i', pbits, (base[2] + off[0]) & ((1 << pbits) - 1))
            elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return const(ops[0])
            return ('x', (t[1] if len(t) > 1 else 0) * 8, 'constexpr',
                    C.cast(L.LLVMPrintValueToString(v), C.c_char_p).value.decode())
        if k == 22 or k == 23:
            return ('meta',)
        raise Unsupported("constant kind %d" % k)

    def undef_of(t):
        if t[0] == 'struct':
            return ('agg', tuple(undef_of(e) for _, e in t[2]))
        if t[0] == 'array':
            return ('agg', tuple(undef_of(t[3]) for _ in range(t[2])))
        if t[0] == 'int':
            return ('u', t[2])
        return ('u', t[1] * 8)

    def zero_of(t):
        if t[0] == 'struct':
            return ('agg', tuple(zero_of(e) for _, e in t[2]))
        if t[0] == 'array':
            return ('agg', tuple(zero_of(t[3]) for _ in range(t[2])))
        if t[0] == 'int':
            return ('i', t[2], 0)
        if t[0] == 'vec':
            return ('agg', tuple(zero_of(t[3]) for _ in range(t[2])))
        return ('i', t[1] * 8, 0)

    def gep_parts(srcty, idx, opnd):
        """-> (constant offset, [(scale, operand)])"""
        off = 0
        dyn = []
        cur = srcty
        first = True
        for i in idx:
            if first:
                sc = L.LLVMABISizeOfType(td, cur)
                first = False
            else:
                tk = L.LLVMGetTypeKind(cur)
                if tk == 10:
                    n = L.LLVMConstIntGetZExtValue(i)
                    off += L.LLVMOffsetOfElement(td, cur, n)
                    cur = L.LLVMStructGetTypeAtIndex(cur, n)
                    continue
                cur = L.LLVMGetElementType(cur)
                sc = L.LLVMABISizeOfType(td, cur)
            if L.LLVMGetValueKind(i) == 18:
                off += sc * L.LLVMConstIntGetSExtValue(i)
            else:
                if opnd is None:
                    dyn.append((sc, None))
                else:
                    dyn.append((sc, opnd(i)))
        return off, dyn

    M.const_type = {}
    # globals
    g = L.LLVMGetFirstGlobal(mod)
    glist = []
    while g:
        glist.append(g)
        g = L.LLVMGetNextGlobal(g)
    for g in glist:
        n = name(g)
        t = ty(L.LLVMGlobalGetValueType(g))
        init = L.LLVMGetInitializer(g)
        iv = None
        if init:
            try:
                iv = const(init)
            except Unsupported:
                iv = None
        M.globals[n] = (t, iv, bool(L.LLVMIsGlobalConstant(g)), bool(L.LLVMIsThreadLocal(g)))
    # aliases (e.g. C1 -> C2 constructors)
    M.aliases = {}
    a = L.LLVMGetFirstGlobalAlias(mod)
    while a:
        try:
            tgt = const(L.LLVMAliasGetAliasee(a))
            if tgt[0] == 'p':
                M.aliases[name(a)] = tgt[1][1:]
        except Unsupported:
            pass
        a = L.LLVMGetNextGlobalAlias(a)

    fcache = {}

    def filename(scope):
        if not scope:
            return None
        r = fcache.get(scope)
        if r is None:
            f = L.LLVMDIScopeGetFile(scope)
            if f:
                n = C.c_uint(0)
                p = L.LLVMDIFileGetFilename(f, C.byref(n))
                r = C.string_at(p, n.value).decode(errors='replace')
            else:
                r = '?'
            fcache[scope] = r
        return r

    f = L.LLVMGetFirstFunction(mod)
    while f:
        F = Func()
        F.name = name(f)
        F.dem = demangle(F.name)
        F.nparams = L.LLVMCountParams(f)
        F.decl = bool(L.LLVMIsDeclaration(f))
        F.nounwind = bool(L.LLVMGetEnumAttributeAtIndex(f, FIDX, NOUNW))
        F.noreturn = bool(L.LLVMGetEnumAttributeAtIndex(f, FIDX, NORET))
        F.sret = None
        if F.nparams:
            at = L.LLVMGetEnumAttributeAtIndex(f, 1, SRET)
            if at:
                sty = L.LLVMGetTypeAttributeValue(at)
                F.sret = ((L.LLVMGetStructName(sty) or b'').decode(), L.LLVMABISizeOfType(td, sty))
        F.blocks = []
        F.preds = {}
        M.funcs[F.name] = F
        if not F.decl:
            slot = {}
            for i in range(F.nparams):
                slot[L.LLVMGetParam(f, i)] = i
            ns = F.nparams
            bbs = []
            b = L.LLVMGetFirstBasicBlock(f)
            while b:
                bbs.append(b)
                b = L.LLVMGetNextBasicBlock(b)
            bidx = {b: i for i, b in enumerate(bbs)}
            ins = []
            for b in bbs:
                lst = []
                i = L.LLVMGetFirstInstruction(b)
                while i:
                    lst.append(i)
                    slot[i] = ns
                    ns += 1
                    i = L.LLVMGetNextInstruction(i)
                ins.append(lst)
            F.nlocals = ns

            def opnd(v):
                s = slot.get(v)
                if s is not None:
                    return s
                return const(v)

            for bi, lst in enumerate(ins):
                out = []
                for i in lst:
                    I = Instr()
                    op = OPC.get(L.LLVMGetInstructionOpcode(i), 'op%d' % L.LLVMGetInstructionOpcode(i))
                    I.op = op
                    I.dst = slot[i]
                    I.ty = ty(L.LLVMTypeOf(i))
                    I.x = None
                    I.a = ()
                    dl = L.LLVMInstructionGetDebugLoc(i)
                    if dl:
                        I.loc = (filename(L.LLVMDILocationGetScope(dl)), L.LLVMDILocationGetLine(dl))
                    else:
                        I.loc = None
                    if op == 'br':
                        n = L.LLVMGetNumSuccessors(i)
                        succ = [bidx[L.LLVMGetSuccessor(i, k)] for k in range(n)]
                        if L.LLVMIsConditional(i):
                            I.a = (opnd(L.LLVMGetCondition(i)),)
                        I.x = succ
                    elif op == 'switch':
                        n = L.LLVMGetNumOperands(i)
                        cond = opnd(L.LLVMGetOperand(i, 0))
                        dflt = bidx[L.LLVMGetSwitchDefaultDest(i)]
                        cases = []
                        for k in range(2, n, 2):
                            cv = const(L.LLVMGetOperand(i, k))
                            bb = L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, k + 1))
                            cases.append((cv, bidx[bb]))
                        I.a = (cond,)
                        I.x = (dflt, cases)
                    elif op == 'phi':
                        n = L.LLVMCountIncoming(i)
                        I.x = {bidx[L.LLVMGetIncomingBlock(i, k)]: opnd(L.LLVMGetIncomingValue(i, k))
                               for k in range(n)}
                    elif op in ('call', 'invoke'):
                        na = L.LLVMGetNumArgOperands(i)
                        cv = L.LLVMGetCalledValue(i)
                        args = []
                        for k in range(na):
                            o = L.LLVMGetOperand(i, k)
                            vk = L.LLVMGetValueKind(o)
                            args.append(('meta',) if vk == 22 else opnd(o))
                        nounw = bool(L.LLVMGetCallSiteEnumAttribute(i, FIDX, NOUNW))
                        noret = bool(L.LLVMGetCallSiteEnumAttribute(i, FIDX, NORET))
                        callee = opnd(cv) if L.LLVMGetValueKind(cv) != 23 else ('asm',)
                        nd = ud = None
                        if op == 'invoke':
                            nd = bidx[L.LLVMGetNormalDest(i)]
                            ud = bidx[L.LLVMGetUnwindDest(i)]
                        I.a = tuple(args)
                        I.x = (callee, nounw, noret, nd, ud)
                    elif op == 'landingpad':
                        cl = [const(L.LLVMGetClause(i, k)) for k in range(L.LLVMGetNumClauses(i))]
                        I.x = (bool(L.LLVMIsCleanup(i)), cl)
                    elif op == 'alloca':
                        t = ty(L.LLVMGetAllocatedType(i))
                        I.a = (opnd(L.LLVMGetOperand(i, 0)),)
                        I.x = (L.LLVMABISizeOfType(td, L.LLVMGetAllocatedType(i)), name(i))
                    elif op == 'gep':
                        n = L.LLVMGetNumOperands(i)
                        ops = [L.LLVMGetOperand(i, k) for k in range(n)]
                        I.a = (opnd(ops[0]),)
                        I.x = gep_parts(L.LLVMGetGEPSourceElementType(i), ops[1:], opnd)
                    elif op == 'icmp':
                        I.a = tuple(opnd(L.LLVMGetOperand(i, k)) for k in range(2))
                        I.x = ICMP[L.LLVMGetICmpPredicate(i)]
                    elif op == 'fcmp':
                        I.a = tuple(opnd(L.LLVMGetOperand(i, k)) for k in range(2))
                        I.x = FCMP[L.LLVMGetFCmpPredicate(i)]
                    elif op in ('extractvalue', 'insertvalue'):
                        n = L.LLVMGetNumOperands(i)
                        I.a = tuple(opnd(L.LLVMGetOperand(i, k)) for k in range(n))
                        ni = L.LLVMGetNumIndices(i)
                        p = L.LLVMGetIndices(i)
                        I.x = tuple(p[k] for k in range(ni))
                    elif op == 'store':
                        v0 = L.LLVMGetOperand(i, 0)
                        I.a = (opnd(v0), opnd(L.LLVMGetOperand(i, 1)))
                        I.x = ty(L.LLVMTypeOf(v0))
                    else:
                        n = L.LLVMGetNumOperands(i)
                        I.a = tuple(opnd(L.LLVMGetOperand(i, k)) for k in range(n))
                        if n and op in ('trunc', 'zext', 'sext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
                                        'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
                            I.x = ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    if op in ('br', 'switch', 'invoke'):
                        ss = I.x if op == 'br' else ([I.x[0]] + [c[1] for c in I.x[1]] if op == 'switch'
                                                     else [I.x[3], I.x[4]])
                        for s_ in ss:
                            F.preds[s_] = F.preds.get(s_, 0) + 1
                    out.append(I)
                F.blocks.append(out)
        f = L.LLVMGetNextFunction(f)
    L.LLVMDisposeModule(mod)
    L.LLVMContextDispose(ctx)
    return M


if __name__ == '__main__':
    import sys
    import time
    t = time.time()
    M = load(sys.argv[1])
    print(len(M.funcs), sum(len(b) for f in M.funcs.values() for b in f.blocks), time.time() - t)
    for f in list(M.funcs.values())[:5]:
        print(f.dem, f.decl, f.nounwind)
        for bi, b in enumerate(f.blocks):
            for i in b:
                print('  ', bi, i.op, i.dst, i.ty, i.a, i.x, i.loc)
