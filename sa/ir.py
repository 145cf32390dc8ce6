"""Python object model of an LLVM module, read through the LLVM-C API (libLLVM-18)."""
import ctypes as C
import math
from fractions import Fraction
from ctypes import c_void_p as P, c_uint as U, c_char_p as S, c_size_t, POINTER, byref, c_ulonglong, c_longlong, c_int

_lib = None
def lib():
    global _lib
    if _lib is not None:
        return _lib
    for n in ('libLLVM-18.so', 'libLLVM-18.so.1', 'libLLVM.so.18.1', '/usr/lib/llvm-18/lib/libLLVM.so'):
        try:
            L = C.CDLL(n); break
        except OSError:
            L = None
    if L is None:
        raise RuntimeError('libLLVM-18 not found')
    def f(name, res, *args):
        fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); return fn
    f('LLVMCreateMemoryBufferWithContentsOfFile', c_int, S, POINTER(P), POINTER(P))
    f('LLVMContextCreate', P); f('LLVMParseBitcodeInContext2', c_int, P, P, POINTER(P))
    for n in ('LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstGlobal LLVMGetNextGlobal LLVMGetFirstBasicBlock LLVMGetNextBasicBlock '
              'LLVMGetFirstInstruction LLVMGetNextInstruction LLVMGetInitializer LLVMTypeOf LLVMGlobalGetValueType LLVMGetElementType '
              'LLVMGetBasicBlockTerminator LLVMGetCalledValue LLVMGetGEPSourceElementType LLVMGetModuleDataLayout LLVMGetReturnType '
              'LLVMGetAllocatedType LLVMGetInstructionParent LLVMBasicBlockAsValue LLVMValueAsBasicBlock LLVMGetSwitchDefaultDest '
              'LLVMGetCondition LLVMGetSubprogram LLVMGetCalledFunctionType').split():
        f(n, P, P)
    for n in ('LLVMGetOperand LLVMGetSuccessor LLVMGetIncomingValue LLVMGetIncomingBlock LLVMStructGetTypeAtIndex LLVMGetParam '
              'LLVMGetAggregateElement').split():
        f(n, P, P, U)
    for n in ('LLVMGetValueKind LLVMGetTypeKind LLVMGetInstructionOpcode LLVMGetConstOpcode LLVMGetICmpPredicate LLVMGetFCmpPredicate '
              'LLVMGetNumOperands LLVMGetNumSuccessors LLVMCountIncoming LLVMCountStructElementTypes LLVMGetIntTypeWidth LLVMCountParams '
              'LLVMIsDeclaration LLVMIsGlobalConstant LLVMGetLinkage LLVMGetVisibility LLVMGetDebugLocLine LLVMGetDebugLocColumn LLVMGetNSW LLVMGetNUW '
              'LLVMIsConditional LLVMGetArrayLength LLVMGetVectorSize LLVMIsNull LLVMIsUndef LLVMGetNumArgOperands LLVMIsFunctionVarArg LLVMGetVolatile '
              'LLVMIsThreadLocal').split():
        f(n, U, P)
    f('LLVMGetValueName2', S, P, POINTER(c_size_t)); f('LLVMPrintValueToString', P, P); f('LLVMDisposeMessage', None, P)
    f('LLVMConstIntGetZExtValue', c_ulonglong, P); f('LLVMConstIntGetSExtValue', c_longlong, P)
    f('LLVMConstRealGetDouble', C.c_double, P, POINTER(c_int))
    f('LLVMABISizeOfType', c_ulonglong, P, P); f('LLVMOffsetOfElement', c_ulonglong, P, P, U)
    f('LLVMGetDebugLocFilename', P, P, POINTER(U)); f('LLVMGetArrayLength2', c_ulonglong, P)
    f('LLVMDISubprogramGetLine', U, P); f('LLVMDIScopeGetFile', P, P); f('LLVMDIFileGetFilename', P, P, POINTER(U))
    f('LLVMGetAlignment', U, P)
    _lib = L
    return L

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',
 28:'store',29:'getelementptr',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',
 39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'va_arg',50:'extractelement',
 51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Ty:
    __slots__ = ('k', 'bits', 'n', 'el', 'elems', 'offs', 'size')
    def __init__(s, k, bits=0, n=0, el=None, elems=None, offs=None, size=0):
        s.k, s.bits, s.n, s.el, s.elems, s.offs, s.size = k, bits, n, el, elems, offs, size
    def __repr__(s):
        if s.k in 'if': return s.k + str(s.bits)
        if s.k in ('arr', 'vec'): return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct': return '{%s}' % ','.join(map(repr, s.elems))
        return s.k

class Const:
    """kind: int, fp, null, undef, glob, func, gep(base Const, byte offset), agg, other"""
    __slots__ = ('kind', 'v', 'ty', 'off')
    def __init__(s, kind, v, ty, off=0): s.kind, s.v, s.ty, s.off = kind, v, ty, off
    def __repr__(s): return 'C(%s %r%s)' % (s.kind, s.v, '+%d' % s.off if s.off else '')

class Arg:
    __slots__ = ('name', 'idx', 'ty')
    def __init__(s, name, idx, ty): s.name, s.idx, s.ty = name, idx, ty
    def __repr__(s): return '%' + s.name

class Instr:
    __slots__ = ('op', 'ops', 'ty', 'name', 'bb', 'line', 'col', 'file', 'pred', 'blocks', 'x', 'nsw', 'cases', 'idx', 'fn')
    def __repr__(s): return '%%%s=%s@%s' % (s.name, s.op, s.line)

class Block:
    __slots__ = ('name', 'fn', 'instrs', 'succs', 'preds', 'idx')
    def __repr__(s): return '%s:%s' % (s.fn.name, s.name)

class Function:
    __slots__ = ('name', 'args', 'blocks', 'decl', 'ret', 'linkage', 'visibility', 'file', 'line', 'vararg', 'loops')
    def __repr__(s): return '@' + s.name

class Global:
    __slots__ = ('name', 'const', 'ty', 'init', 'decl', 'linkage', 'size', 'cells', 'tls')
    def __repr__(s): return '@' + s.name

class Module: pass

def load(path):
    L = lib()
    ctx = L.LLVMContextCreate()
    buf, msg, mod = P(), P(), P()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(msg)):
        raise RuntimeError('cannot read ' + path)
    if L.LLVMParseBitcodeInContext2(ctx, buf, byref(mod)):
        raise RuntimeError('cannot parse ' + path)
    td = L.LLVMGetModuleDataLayout(mod)
    M = Module(); M.functions = {}; M.globals = {}; M.path = path
    tcache = {}
    def ty(t):
        if t in tcache: return tcache[t]
        k = L.LLVMGetTypeKind(t)
        if k == 0: r = Ty('void')
        elif k == 2: r = Ty('f', 32, size=4)
        elif k == 3: r = Ty('f', 64, size=8)
        elif k in (1, 4, 5, 6): r = Ty('f', 80, size=16)
        elif k == 8:
            b = L.LLVMGetIntTypeWidth(t); r = Ty('i', b, size=(b + 7) // 8)
        elif k == 10:
            n = L.LLVMCountStructElementTypes(t)
            el = [ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            r = Ty('struct', elems=el, offs=[L.LLVMOffsetOfElement(td, t, i) for i in range(n)], size=L.LLVMABISizeOfType(td, t), n=n)
        elif k == 11:
            e = ty(L.LLVMGetElementType(t)); n = L.LLVMGetArrayLength2(t); r = Ty('arr', n=n, el=e, size=n * e.size)
        elif k == 12: r = Ty('ptr', size=8)
        elif k == 13:
            e = ty(L.LLVMGetElementType(t)); n = L.LLVMGetVectorSize(t); r = Ty('vec', n=n, el=e, size=n * e.size)
        elif k == 9: r = Ty('func')
        else: r = Ty('other%d' % k)
        tcache[t] = r
        return r
    def name(v):
        n = c_size_t(); s = L.LLVMGetValueName2(v, byref(n)); return s[:n.value].decode() if s else ''
    def const(v):
        k = L.LLVMGetValueKind(v); t = ty(L.LLVMTypeOf(v))
        if k == 5: return Const('func', name(v), t)
        if k in (6, 7, 8): return Const('glob', name(v), t)
        if k == 18: # ConstantInt
            if t.bits <= 64:
                iv = L.LLVMConstIntGetSExtValue(v)
                if t.bits == 1: iv = iv & 1
                return Const('int', iv, t)
            return Const('other', None, t)
        if k == 19:
            li = c_int(); d = L.LLVMConstRealGetDouble(v, byref(li))
            return Const('fp', d, t)
        if k == 20: return Const('null', None, t)
        if k in (14, 25): return Const('undef', None, t)
        if k == 15: return Const('zero', None, t)
        if k in (11, 12, 13, 16, 17):
            return Const('agg', [const(L.LLVMGetAggregateElement(v, i)) for i in range(t.n)], t)
        if k == 10: # constant expr
            o = OPC.get(L.LLVMGetConstOpcode(v))
            if o == 'getelementptr':
                st = ty(L.LLVMGetGEPSourceElementType(v)); b = const(L.LLVMGetOperand(v, 0)); off = 0; cur = None
                for i in range(1, L.LLVMGetNumOperands(v)):
                    c = const(L.LLVMGetOperand(v, i))
                    if i == 1: off += c.v * st.size; cur = st
                    elif cur.k == 'struct': off += cur.offs[c.v]; cur = cur.elems[c.v]
                    else: off += c.v * cur.el.size; cur = cur.el
                if b.kind in ('glob', 'func', 'null'):
                    return Const(b.kind if b.kind != 'null' else 'int', b.v if b.kind != 'null' else off, b.ty, b.off + off)
                return Const('other', None, t)
            if o in ('bitcast', 'ptrtoint', 'inttoptr'):
                return const(L.LLVMGetOperand(v, 0))
            return Const('other', None, t)
        return Const('other', None, t)
    def dbgfile(v):
        n = U(); p = L.LLVMGetDebugLocFilename(v, byref(n))
        return C.string_at(p, n.value).decode() if p and n.value else None
    # functions
    f = L.LLVMGetFirstFunction(mod)
    fl = []
    while f:
        F = Function(); F.name = name(f); F.decl = bool(L.LLVMIsDeclaration(f)); F.linkage = L.LLVMGetLinkage(f)
        F.visibility = L.LLVMGetVisibility(f); F.loops = None
        ft = L.LLVMGlobalGetValueType(f); F.ret = ty(L.LLVMGetReturnType(ft)); F.vararg = bool(L.LLVMIsFunctionVarArg(ft))
        F.args = []; F.blocks = []; F.file = None; F.line = 0
        sp = L.LLVMGetSubprogram(f)
        if sp:
            F.line = L.LLVMDISubprogramGetLine(sp); fi = L.LLVMDIScopeGetFile(sp)
            if fi:
                n = U(); p = L.LLVMDIFileGetFilename(fi, byref(n)); F.file = C.string_at(p, n.value).decode() if p else None
        M.functions[F.name] = F; fl.append((f, F)); f = L.LLVMGetNextFunction(f)
    for f, F in fl:
        vals = {}
        for i in range(L.LLVMCountParams(f)):
            pv = L.LLVMGetParam(f, i); a = Arg(name(pv) or 'arg%d' % i, i, ty(L.LLVMTypeOf(pv))); F.args.append(a); vals[pv] = a
        bbs = {}; b = L.LLVMGetFirstBasicBlock(f)
        raw = []
        while b:
            B = Block(); B.fn = F; B.instrs = []; B.preds = []; B.succs = []; B.name = name(L.LLVMBasicBlockAsValue(b)); B.idx = len(F.blocks)
            bbs[b] = B; F.blocks.append(B)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Instr(); I.op = OPC.get(L.LLVMGetInstructionOpcode(i), 'op?'); I.bb = B; I.fn = F
                I.ty = ty(L.LLVMTypeOf(i)); I.name = name(i); I.line = L.LLVMGetDebugLocLine(i); I.col = L.LLVMGetDebugLocColumn(i)
                I.file = None; I.x = None; I.cases = None; I.blocks = None; I.pred = None; I.nsw = False; I.ops = None
                I.idx = len(B.instrs)
                B.instrs.append(I); vals[i] = I; raw.append((i, I)); i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        def val(v):
            if v in vals: return vals[v]
            k = L.LLVMGetValueKind(v)
            if k in (0, 24): return vals.get(v)
            if k in (1, 21, 22, 23): return Const('meta', None, Ty('meta'))
            c = const(v); vals[v] = c
            return c
        for i, I in raw:
            if I.line: I.file = dbgfile(i)
            o = I.op
            if o == 'br':
                n = L.LLVMGetNumSuccessors(i); I.blocks = [bbs[L.LLVMGetSuccessor(i, k)] for k in range(n)]
                I.ops = [val(L.LLVMGetCondition(i))] if n == 2 else []
                I.bb.succs = list(I.blocks)
            elif o == 'switch':
                n = L.LLVMGetNumOperands(i); I.ops = [val(L.LLVMGetOperand(i, 0))]
                I.blocks = [bbs[L.LLVMGetSwitchDefaultDest(i)]]
                I.cases = [(const(L.LLVMGetOperand(i, k)).v, bbs[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, k + 1))]) for k in range(2, n, 2)]
                I.bb.succs = []
                for B in [I.blocks[0]] + [c[1] for c in I.cases]:
                    if B not in I.bb.succs: I.bb.succs.append(B)
            elif o == 'phi':
                n = L.LLVMCountIncoming(i); I.ops = [val(L.LLVMGetIncomingValue(i, k)) for k in range(n)]
                I.blocks = [bbs[L.LLVMGetIncomingBlock(i, k)] for k in range(n)]
            elif o == 'call':
                n = L.LLVMGetNumArgOperands(i)
                cv = L.LLVMGetCalledValue(i)
                k = L.LLVMGetValueKind(cv)
                I.x = val(cv)
                I.ops = [val(L.LLVMGetOperand(i, a)) for a in range(n)]
            else:
                I.ops = [val(L.LLVMGetOperand(i, k)) for k in range(L.LLVMGetNumOperands(i))]
                if o == 'icmp': I.pred = ICMP[L.LLVMGetICmpPredicate(i)]
                elif o == 'fcmp': I.pred = FCMP[L.LLVMGetFCmpPredicate(i)]
                elif o == 'getelementptr': I.x = ty(L.LLVMGetGEPSourceElementType(i))
                elif o == 'alloca': I.x = ty(L.LLVMGetAllocatedType(i))
                elif o in ('add', 'sub', 'mul', 'shl'): I.nsw = bool(L.LLVMGetNSW(i))
                elif o in ('load', 'store'): I.x = bool(L.LLVMGetVolatile(i))
        for B in F.blocks:
            for s_ in B.succs: s_.preds.append(B)
    g = L.LLVMGetFirstGlobal(mod)
    while g:
        G = Global(); G.name = name(g); G.const = bool(L.LLVMIsGlobalConstant(g)); G.decl = bool(L.LLVMIsDeclaration(g))
        G.linkage = L.LLVMGetLinkage(g); G.ty = ty(L.LLVMGlobalGetValueType(g)); G.size = G.ty.size; G.cells = None
        G.tls = bool(L.LLVMIsThreadLocal(g))
        G.init = None if G.decl else const(L.LLVMGetInitializer(g))
        M.globals[G.name] = G; g = L.LLVMGetNextGlobal(g)
    for F in M.functions.values():
        if not F.decl: F.loops = find_loops(F)
    return M

class Loop:
    __slots__ = ('header', 'blocks', 'latches', 'parent', 'depth')
    def __repr__(s): return 'loop@%s(line %s)' % (s.header, s.header.instrs[0].line)

def dominators(F):
    order, seen = [], set()
    def dfs(b):
        stack = [(b, iter(b.succs))]; seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(s.succs))); break
            else:
                order.append(x); stack.pop()
    dfs(F.blocks[0]); rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}; ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, c = p, new
                        while a is not c:
                            while num[a] > num[c]: a = idom[a]
                            while num[c] > num[a]: c = idom[c]
                        new = a
            if idom.get(b) is not new: idom[b] = new; ch = True
    return rpo, idom

def find_loops(F):
    """Natural loops keyed by header block; asserts reducibility."""
    rpo, idom = dominators(F)
    def dom(a, b):
        while True:
            if a is b: return True
            if idom[b] is b: return False
            b = idom[b]
    loops = {}
    num = {b: i for i, b in enumerate(rpo)}
    for b in rpo:
        for s in b.succs:
            if dom(s, b):
                lp = loops.get(s)
                if lp is None:
                    lp = loops[s] = Loop(); lp.header = s; lp.blocks = {s}; lp.latches = []; lp.parent = None; lp.depth = 0
                lp.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x not in lp.blocks:
                        lp.blocks.add(x); work += [p for p in x.preds if p in num]
            elif num[s] <= num[b]:
                raise RuntimeError('irreducible control flow in ' + F.name)
    for h, lp in loops.items():
        for h2, l2 in loops.items():
            if h2 is not h and h in l2.blocks and (lp.parent is None or len(l2.blocks) < len(lp.parent.blocks)):
                lp.parent = l2
    return loops
