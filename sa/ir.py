"""LLVM IR front end: compiles /repo's current C sources with clang and loads the
typed, resolved program (via libLLVM's C API) into plain Python objects."""
import ctypes as C, os, subprocess, sys, hashlib, tempfile, shutil

CLANG = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18'
LLVM_SO = '/usr/lib/llvm-18/lib/libLLVM-18.so'
REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisError(Exception):
    """The analysis itself could not be carried out (exit 2: no verdict)."""


_L = None


def L():
    global _L
    if _L is None:
        lib = C.CDLL(LLVM_SO)
        V = C.c_void_p
        def f(name, res, *args):
            fn = getattr(lib, name)
            fn.restype = res
            fn.argtypes = list(args)
        P = C.POINTER
        f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, P(V), P(C.c_char_p))
        f('LLVMContextCreate', V)
        f('LLVMParseBitcodeInContext2', C.c_int, V, V, P(V))
        for n in ('LLVMGetFirstFunction', 'LLVMGetFirstGlobal', 'LLVMGetModuleDataLayout'):
            f(n, V, V)
        for n in ('LLVMGetNextFunction', 'LLVMGetNextGlobal', 'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock',
                  'LLVMGetFirstInstruction', 'LLVMGetNextInstruction', 'LLVMTypeOf', 'LLVMGetAllocatedType',
                  'LLVMGetCalledValue', 'LLVMGetInitializer', 'LLVMGetFirstParam', 'LLVMGetNextParam',
                  'LLVMGetElementType', 'LLVMGetReturnType', 'LLVMGlobalGetValueType', 'LLVMGetGEPSourceElementType',
                  'LLVMGetBasicBlockTerminator', 'LLVMGetCondition', 'LLVMValueAsBasicBlock', 'LLVMGetCalledFunctionType'):
            f(n, V, V)
        for n in ('LLVMGetInstructionOpcode', 'LLVMGetNumOperands', 'LLVMGetTypeKind', 'LLVMGetIntTypeWidth',
                  'LLVMGetICmpPredicate', 'LLVMGetFCmpPredicate', 'LLVMGetValueKind', 'LLVMGetConstOpcode',
                  'LLVMGetArrayLength', 'LLVMCountStructElementTypes', 'LLVMIsGlobalConstant', 'LLVMIsDeclaration',
                  'LLVMCountIncoming', 'LLVMGetNumSuccessors', 'LLVMGetNumArgOperands', 'LLVMGetDebugLocLine',
                  'LLVMGetNSW', 'LLVMGetNUW', 'LLVMIsConditional', 'LLVMIsFunctionVarArg', 'LLVMGetLinkage',
                  'LLVMGetNumIndices'):
            f(n, C.c_uint, V)
        f('LLVMGetIndices', P(C.c_uint), V)
        f('LLVMGetOperand', V, V, C.c_uint)
        f('LLVMStructGetTypeAtIndex', V, V, C.c_uint)
        f('LLVMGetStructName', C.c_char_p, V)
        f('LLVMGetIncomingValue', V, V, C.c_uint)
        f('LLVMGetIncomingBlock', V, V, C.c_uint)
        f('LLVMGetSuccessor', V, V, C.c_uint)
        f('LLVMConstIntGetZExtValue', C.c_ulonglong, V)
        f('LLVMConstRealGetDouble', C.c_double, V, P(C.c_int))
        f('LLVMGetValueName2', C.c_char_p, V, P(C.c_size_t))
        f('LLVMGetDebugLocFilename', C.c_char_p, V, P(C.c_uint))
        f('LLVMOffsetOfElement', C.c_ulonglong, V, V, C.c_uint)
        f('LLVMABISizeOfType', C.c_ulonglong, V, V)
        f('LLVMStoreSizeOfType', C.c_ulonglong, V, V)
        f('LLVMGetAggregateElement', V, V, C.c_uint)
        f('LLVMPrintValueToString', C.c_void_p, V)
        f('LLVMDisposeMessage', None, C.c_void_p)
        f('LLVMBasicBlockAsValue', V, V)
        _L = lib
    return _L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Ty:
    __slots__ = ('k', 'w', 'elts', 'n', 'size', 'name', 'offs')
    # k: int ptr float double void array struct func other
    def __repr__(self):
        return '%s%s' % (self.k, self.w or '')


class Val:
    """Constant / global / argument / instruction reference."""
    __slots__ = ()


class CInt:
    __slots__ = ('w', 'v')
    def __init__(s, w, v): s.w = w; s.v = v
    def __repr__(s): return 'i%d %d' % (s.w, s.v)


class CNull:
    __slots__ = ()


class CUndef:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty


class CFloat:
    __slots__ = ('v', 'k')
    def __init__(s, v, k): s.v = v; s.k = k


class CAgg:
    __slots__ = ('ty', 'ref', 'mod')
    def __init__(s, ty, ref, mod): s.ty = ty; s.ref = ref; s.mod = mod


class GRef:
    """reference to global variable or function, + constant byte offset"""
    __slots__ = ('name', 'off')
    def __init__(s, name, off=0): s.name = name; s.off = off
    def __repr__(s): return '@%s+%d' % (s.name, s.off)


class CExpr:
    __slots__ = ('op', 'args')
    def __init__(s, op, args): s.op = op; s.args = args


class Arg:
    __slots__ = ('idx', 'ty', 'name')
    def __init__(s, idx, ty, name): s.idx = idx; s.ty = ty; s.name = name


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'x', 'line', 'file', 'blk', 'id', 'name', 'bnd')
    # x: op specific extra; bnd: (offset, size) of the array a gep indexes into
    def loc(self):
        return '%s:%d' % (self.file, self.line)
    def __repr__(self):
        return '%s %s@%s' % (self.op, self.name, self.line)


class Block:
    __slots__ = ('idx', 'insts', 'succ', 'pred', 'fn', 'name', 'nphi')
    def __repr__(self): return 'B%d' % self.idx


class Function:
    def __init__(self, name):
        self.name = name
        self.args = []
        self.blocks = []
        self.decl = True
        self.file = None
        self.line = 0
        self._loops = None

    def insts(self):
        for b in self.blocks:
            yield from b.insts


class Global:
    __slots__ = ('name', 'ty', 'const', 'init', 'decl', 'linkage')


class Module:
    def __init__(self):
        self.functions = {}
        self.globals = {}
        self.structs = {}
        self._tc = {}
        self.sources = []

    # ---- types
    def ty(self, ref):
        t = self._tc.get(ref)
        if t is not None:
            return t
        l = L()
        k = l.LLVMGetTypeKind(ref)
        t = Ty()
        self._tc[ref] = t
        t.w = 0; t.elts = None; t.n = 0; t.name = None; t.offs = None; t.size = 0
        if k == 8:
            t.k = 'int'; t.w = l.LLVMGetIntTypeWidth(ref); t.size = l.LLVMABISizeOfType(self.dl, ref)
        elif k == 12:
            t.k = 'ptr'; t.size = 8
        elif k == 2: t.k = 'float'; t.size = 4
        elif k == 3: t.k = 'double'; t.size = 8
        elif k == 4: t.k = 'x86_fp80'; t.size = 16
        elif k == 0: t.k = 'void'
        elif k == 11:
            t.k = 'array'; t.n = l.LLVMGetArrayLength(ref); t.elts = [self.ty(l.LLVMGetElementType(ref))]
            t.size = l.LLVMABISizeOfType(self.dl, ref)
        elif k == 10:
            t.k = 'struct'
            nm = l.LLVMGetStructName(ref)
            t.name = nm.decode() if nm else None
            n = l.LLVMCountStructElementTypes(ref)
            t.elts = [self.ty(l.LLVMStructGetTypeAtIndex(ref, i)) for i in range(n)]
            try:
                t.offs = [l.LLVMOffsetOfElement(self.dl, ref, i) for i in range(n)]
                t.size = l.LLVMABISizeOfType(self.dl, ref)
            except Exception:
                pass
        elif k == 9: t.k = 'func'
        elif k == 7: t.k = 'label'
        elif k == 13:
            t.k = 'vector'; t.size = l.LLVMABISizeOfType(self.dl, ref)
        else:
            t.k = 'other%d' % k
        return t


def _name(v):
    n = C.c_size_t()
    s = L().LLVMGetValueName2(v, C.byref(n))
    return s[:n.value].decode() if s else ''


class _Loader:
    def __init__(self, mod, path):
        l = L()
        self.m = mod
        buf = C.c_void_p(); err = C.c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise AnalysisError('cannot read bitcode ' + path)
        ctx = l.LLVMContextCreate()
        m = C.c_void_p()
        if l.LLVMParseBitcodeInContext2(ctx, buf, C.byref(m)):
            raise AnalysisError('cannot parse bitcode ' + path)
        mod.dl = l.LLVMGetModuleDataLayout(m)
        self.mod = m
        self.map = {}
        self.iid = 0

    def load(self):
        l = L(); m = self.m
        g = l.LLVMGetFirstGlobal(self.mod)
        pend = []
        while g:
            G = Global()
            G.name = _name(g)
            G.ty = m.ty(l.LLVMGlobalGetValueType(g))
            G.const = bool(l.LLVMIsGlobalConstant(g))
            G.decl = bool(l.LLVMIsDeclaration(g))
            G.linkage = l.LLVMGetLinkage(g)
            G.init = None
            m.globals[G.name] = G
            if not G.decl:
                pend.append((G, l.LLVMGetInitializer(g)))
            g = l.LLVMGetNextGlobal(g)
        f = l.LLVMGetFirstFunction(self.mod)
        fs = []
        while f:
            F = Function(_name(f))
            F.decl = bool(l.LLVMIsDeclaration(f))
            F.linkage = l.LLVMGetLinkage(f)
            m.functions[F.name] = F
            fs.append((F, f))
            f = l.LLVMGetNextFunction(f)
        for G, i in pend:
            G.init = self.val(i)
        for F, f in fs:
            self.func(F, f)

    def val(self, v):
        r = self.map.get(v)
        if r is not None:
            return r
        l = L()
        k = l.LLVMGetValueKind(v)
        ty = self.m.ty(l.LLVMTypeOf(v))
        # kinds: 0 Argument 1 BasicBlock 5 Function 6 GlobalAlias 8 GlobalVariable 9 BlockAddress 10 ConstantExpr
        # 11 ConstantArray 12 Struct 13 Vector 14 Undef 15 AggZero 16 DataArray 17 DataVector 18 Int 19 FP 20 PtrNull 25 Instruction
        if k == 5 or k == 8:
            r = GRef(_name(v))
        elif k == 18:
            r = CInt(ty.w, l.LLVMConstIntGetZExtValue(v) & ((1 << ty.w) - 1))
        elif k == 20:
            r = CNull()
        elif k == 19:
            li = C.c_int()
            r = CFloat(l.LLVMConstRealGetDouble(v, C.byref(li)), ty.k)
        elif k in (11, 12, 13, 15, 16, 17):
            r = CAgg(ty, v, self)
        elif k == 10:
            op = OPC.get(l.LLVMGetConstOpcode(v))
            n = l.LLVMGetNumOperands(v)
            if op == 'gep':
                base = self.val(l.LLVMGetOperand(v, 0))
                off = self.gep_const(v)
                if isinstance(base, GRef) and off is not None:
                    r = GRef(base.name, base.off + off)
                else:
                    r = CExpr('gep', [base, off])
            else:
                r = CExpr(op, [self.val(l.LLVMGetOperand(v, i)) for i in range(n)])
        else:
            s = l.LLVMPrintValueToString(v)
            txt = C.cast(s, C.c_char_p).value.decode()
            l.LLVMDisposeMessage(s)
            if txt.endswith('undef') or txt.endswith('poison') or 'undef' in txt or 'poison' in txt:
                r = CUndef(ty)
            else:
                r = CUndef(ty)
                if k not in (24, 14, 26):
                    pass
        self.map[v] = r
        return r

    def gep_steps(self, v):
        """-> (const_off, [(operand, scale)])"""
        l = L(); m = self.m
        t = m.ty(l.LLVMGetGEPSourceElementType(v))
        n = l.LLVMGetNumOperands(v)
        const = 0; var = []; bnd = None
        for i in range(1, n):
            o = self.val(l.LLVMGetOperand(v, i))
            if i == 1:
                sc = t.size
                cur = t
            elif cur.k == 'struct':
                const += cur.offs[o.v]
                cur = cur.elts[o.v]
                continue
            else:
                arr = cur
                cur = cur.elts[0]
                sc = cur.size
                if not isinstance(o, CInt) and arr.k == 'array' and not var: bnd = (const, arr.size)
            if isinstance(o, CInt):
                iv = o.v - (1 << o.w) if o.v >> (o.w - 1) else o.v
                const += iv * sc
            else:
                var.append((o, sc))
        self.bnd = bnd if len(var) == 1 else None
        return const, var

    def gep_const(self, v):
        c, var = self.gep_steps(v)
        return None if var else c

    def func(self, F, f):
        l = L(); m = self.m
        i = 0
        a = l.LLVMGetFirstParam(f)
        while a:
            A = Arg(i, m.ty(l.LLVMTypeOf(a)), _name(a))
            self.map[a] = A
            F.args.append(A); i += 1
            a = l.LLVMGetNextParam(a)
        if F.decl:
            return
        bm = {}
        b = l.LLVMGetFirstBasicBlock(f)
        order = []
        while b:
            B = Block(); B.idx = len(order); B.insts = []; B.succ = []; B.pred = []; B.fn = F; B.nphi = 0
            B.name = _name(l.LLVMBasicBlockAsValue(b))
            bm[b] = B
            order.append((B, b))
            ins = l.LLVMGetFirstInstruction(b)
            while ins:
                I = Inst()
                I.op = OPC.get(l.LLVMGetInstructionOpcode(ins), 'op%d' % l.LLVMGetInstructionOpcode(ins))
                I.ty = m.ty(l.LLVMTypeOf(ins)); I.blk = B; I.id = self.iid; self.iid += 1
                I.x = None; I.name = _name(ins)
                I.line = l.LLVMGetDebugLocLine(ins) or 0
                n = C.c_uint()
                fn = l.LLVMGetDebugLocFilename(ins, C.byref(n)) if I.line else None
                I.file = fn[:n.value].decode() if fn else ''
                if I.file.startswith(REPO + '/'):
                    I.file = I.file[len(REPO) + 1:]
                self.map[ins] = I
                B.insts.append((I, ins))
                ins = l.LLVMGetNextInstruction(ins)
            b = l.LLVMGetNextBasicBlock(b)
        for B, b in order:
            new = []
            for I, ins in B.insts:
                op = I.op
                I.ops = []
                if op == 'phi':
                    n = l.LLVMCountIncoming(ins)
                    I.x = [(bm[l.LLVMGetIncomingBlock(ins, i)], self.val(l.LLVMGetIncomingValue(ins, i))) for i in range(n)]
                    B.nphi += 1
                elif op == 'br':
                    ns = l.LLVMGetNumSuccessors(ins)
                    I.x = [bm[l.LLVMGetSuccessor(ins, i)] for i in range(ns)]
                    if ns == 2:
                        I.ops = [self.val(l.LLVMGetCondition(ins))]
                    B.succ = list(I.x)
                elif op == 'switch':
                    n = l.LLVMGetNumOperands(ins)
                    I.ops = [self.val(l.LLVMGetOperand(ins, 0))]
                    default = bm[l.LLVMGetSuccessor(ins, 0)]
                    cases = []
                    for i in range(1, l.LLVMGetNumSuccessors(ins)):
                        cv = self.val(l.LLVMGetOperand(ins, 2 * i))
                        cases.append((cv.v, bm[l.LLVMGetSuccessor(ins, i)]))
                    I.x = (default, cases)
                    B.succ = [default] + [c for _, c in cases]
                elif op == 'gep':
                    I.x = self.gep_steps(ins); I.bnd = self.bnd
                    I.ops = [self.val(l.LLVMGetOperand(ins, 0))]
                elif op == 'call':
                    n = l.LLVMGetNumArgOperands(ins)
                    I.ops = [self.val(l.LLVMGetOperand(ins, i)) for i in range(n)]
                    I.x = self.val(l.LLVMGetCalledValue(ins))
                    if isinstance(I.x, GRef) and I.x.name.startswith('llvm.dbg'):
                        continue
                else:
                    n = l.LLVMGetNumOperands(ins)
                    I.ops = [self.val(l.LLVMGetOperand(ins, i)) for i in range(n)]
                    if op == 'icmp': I.x = ICMP[l.LLVMGetICmpPredicate(ins)]
                    elif op == 'fcmp': I.x = FCMP[l.LLVMGetFCmpPredicate(ins)]
                    elif op == 'alloca': I.x = m.ty(l.LLVMGetAllocatedType(ins))
                    elif op in ('add', 'sub', 'mul', 'shl'): I.x = (l.LLVMGetNSW(ins), l.LLVMGetNUW(ins))
                    elif op in ('extractvalue', 'insertvalue'):
                        n = l.LLVMGetNumIndices(ins); p = l.LLVMGetIndices(ins)
                        I.x = [p[i] for i in range(n)]
                new.append(I)
                if I.line and not F.line:
                    F.line = I.line
                if I.file and not F.file:
                    F.file = I.file
            B.insts = new
            F.blocks.append(B)
        for B in F.blocks:
            for s in dict.fromkeys(B.succ):
                s.pred.append(B)


def agg_bytes(c):
    """flatten a constant aggregate to a list of (offset, size, const)"""
    out = []
    l = L()
    def rec(v, ld, ty, off):
        if isinstance(v, CAgg):
            if ty.k == 'array':
                for i in range(ty.n):
                    e = l.LLVMGetAggregateElement(v.ref, i)
                    rec(ld.val(e), ld, ty.elts[0], off + i * ty.elts[0].size)
            elif ty.k == 'struct':
                for i, t in enumerate(ty.elts):
                    e = l.LLVMGetAggregateElement(v.ref, i)
                    rec(ld.val(e), ld, t, off + ty.offs[i])
        else:
            out.append((off, ty.size, v))
    rec(c, c.mod, c.ty, 0)
    return out


# ------------------------------------------------------------------ building

VM_SRC = ['src/vm/vm_exec.c', 'src/vm/vm_io.c', 'src/vm/vm_verify.c']


def src_list(sub):
    """all .c files of a /repo/src subdirectory (the build globs them explicitly; take what is there)"""
    d = os.path.join(REPO, 'src', sub)
    return sorted('src/%s/%s' % (sub, f) for f in os.listdir(d) if f.endswith('.c'))


def cflags():
    return ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/src/vm', '-I' + REPO + '/src/compiler',
            '-I/opt/vp/shims/cjson', '-I/usr/include/cjson', '-I' + REPO,
            '-std=gnu99', '-ffp-contract=off', '-DCND_VERSION="sa"', '-DCND_GIT_HASH="sa"', '-w']


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        import atexit
        _tmp = tempfile.mkdtemp(prefix='sa_', dir='/tmp')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp


def compile_bc(srcs, name, extra=(), passes='sroa'):
    """srcs: list of repo-relative or absolute C files -> path of linked bitcode"""
    d = tmpdir()
    procs = []
    for i, s in enumerate(srcs):
        p = s if s.startswith('/') else os.path.join(REPO, s)
        if not os.path.exists(p):
            raise AnalysisError('source file vanished: ' + s)
        o = '%s/%s_%d.%d.bc' % (d, name, i, os.getpid())
        cmd = [CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c'] + cflags() + list(extra) + [p, '-o', o]
        procs.append((s, o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    outs = []
    for s, o, p in procs:
        out = p.communicate()[0].decode(errors='replace')
        if p.returncode:
            raise AnalysisError('clang failed on %s:\n%s' % (s, out))
        outs.append(o)
    final = '%s/%s.%d.bc' % (d, name, os.getpid())
    if len(outs) > 1:
        link = final + '.l'
        r = subprocess.run(['/usr/bin/llvm-link-18', '-o', link] + outs, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('llvm-link failed: ' + r.stderr)
    else:
        link = outs[0]
    r = subprocess.run([OPT, '-passes=' + passes, link, '-o', final], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('opt failed: ' + r.stderr)
    return final


def load(path):
    m = Module()
    ld = _Loader(m, path)
    ld.load()
    m._ld = ld
    return m


def build(srcs, name, extra=(), passes='sroa'):
    m = load(compile_bc(srcs, name, extra, passes))
    m.sources = list(srcs)
    return m


_probes = {}
def probe_consts(exprs, headers=('concordia.h',), ctype='long long', pre=''):
    k = (tuple(sorted(exprs.items())), tuple(headers), ctype, pre)
    if k not in _probes: _probes[k] = _probe_consts(exprs, headers, ctype, pre)
    return dict(_probes[k])


def _probe_consts(exprs, headers, ctype, pre):
    """Evaluate integer constant C expressions against the repo's current headers.
    exprs: dict name -> C expression. Missing names are reported as AnalysisError."""
    d = tmpdir()
    src = d + '/probe_%s_%d.c' % (hashlib.sha1(repr(sorted(exprs.items())).encode()).hexdigest()[:10], os.getpid())      # (forked workers share the folder)
    with open(src, 'w') as f:
        for h in headers:
            f.write('#include "%s"\n' % h)
        f.write('#include <stddef.h>\n' + pre + '\n')
        for n, e in exprs.items():
            f.write('const %s PROBE_%s = (%s)(%s);\n' % (ctype, n, ctype, e))
    m = build([src], os.path.basename(src)[:-2], passes='verify')
    r = {}
    for n in exprs:
        v = m.globals['PROBE_' + n].init
        x = v.v
        if x >> 63: x -= 1 << 64
        r[n] = x
    return r


# ------------------------------------------------------------------ loops

class Loop:
    def __init__(s, header):
        s.header = header; s.blocks = {header}; s.latches = []; s.parent = None; s.children = []


def loops(fn):
    """natural loops: header block -> Loop (reducible CFGs)"""
    if fn._loops is not None:
        return fn._loops
    # dominators (simple iterative)
    order = rpo(fn)
    idx = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.pred:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a is b: return True
            if idom[b] is b: return False
            b = idom[b]
    ls = {}
    for b in order:
        for s in b.succ:
            if s in idx and dom(s, b):
                lp = ls.setdefault(s, Loop(s))
                lp.latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x in lp.blocks: continue
                    lp.blocks.add(x)
                    st.extend(p for p in x.pred if p in idx)
    # irreducible check: a retreating edge not to a dominator
    pos = idx
    for b in order:
        for s in b.succ:
            if pos[s] <= pos[b] and not dom(s, b):
                raise AnalysisError('irreducible control flow in %s' % fn.name)
    for h, lp in ls.items():
        best = None
        for h2, l2 in ls.items():
            if l2 is not lp and h in l2.blocks and (best is None or len(l2.blocks) < len(best.blocks)):
                best = l2
        lp.parent = best
        if best: best.children.append(lp)
    fn._loops = ls
    fn._rpo = idx
    fn._idom = idom
    return ls


def rpo(fn):
    seen = set(); out = []
    st = [(fn.blocks[0], iter(fn.blocks[0].succ))]
    seen.add(fn.blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(s.succ)))
                break
        else:
            out.append(b); st.pop()
    return out[::-1]
