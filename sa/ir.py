"""Load the C sources of /repo as LLVM IR (clang -O0 + mem2reg) through libLLVM's C API.

The program that is analysed is the one the build compiles: the compile commands
are taken from the repository's CMake files' fixed set of sources (see UNITS) with
the same -D/-I/-std flags the build uses.  Nothing of the program is executed.
"""
import ctypes as C, os, re, subprocess, sys, tempfile, concurrent.futures as cf, shutil

REPO = os.environ.get('SA_REPO', '/repo')

BASE_FLAGS = ['-std=gnu90', '-DOPENELP_MAJOR_VERSION=0', '-DOPENELP_MINOR_VERSION=9',
              '-DOPENELP_PATCH_VERSION=4', '-DOPENELP_VERSION=0.9.4-dev',
              '-DOPENELP_EXTRA_VERSION=dev', '-DOPENELP_CONFIG_HINT=../etc/ELProxy.conf',
              '-DPCRE2_CODE_UNIT_WIDTH=8', '-DHAVE_SYSLOG=1', '-DNDEBUG',
              '-DOPENELP_API=__attribute__((__visibility__("default")))', '-fvisibility=hidden',
              '-w']
# translation units that the POSIX build never compiles
NOT_BUILT = {'conn_wsa_errno.c', 'mutex_win.c', 'thread_win.c', 'service.c'}


class AnalysisError(Exception):
    """The analysis could not be carried out: an error exit, never a verdict."""


# ---------------------------------------------------------------- libLLVM binding
_lib = None


def lib():
    global _lib
    if _lib is None:
        for p in ('/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so',
                  'libLLVM-18.so', 'libLLVM.so.18.1'):
            try:
                _lib = C.CDLL(p)
                break
            except OSError:
                continue
        if _lib is None:
            raise AnalysisError('libLLVM-18 not found')
        L = _lib
        P, U, I, S, LL = C.c_void_p, C.c_uint, C.c_int, C.c_char_p, C.c_longlong

        def d(name, res, *args):
            f = getattr(L, name)
            f.restype = res
            f.argtypes = list(args)
        d('LLVMContextCreate', P)
        d('LLVMCreateMemoryBufferWithContentsOfFile', I, S, C.POINTER(P), C.POINTER(P))
        d('LLVMParseIRInContext', I, P, P, C.POINTER(P), C.POINTER(P))
        for n in ('LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstBasicBlock',
                  'LLVMGetNextBasicBlock', 'LLVMGetFirstInstruction', 'LLVMGetNextInstruction',
                  'LLVMGetFirstGlobal', 'LLVMGetNextGlobal', 'LLVMGetInitializer', 'LLVMTypeOf',
                  'LLVMGlobalGetValueType', 'LLVMGetCalledValue', 'LLVMGetElementType',
                  'LLVMGetReturnType', 'LLVMGetAllocatedType', 'LLVMGetGEPSourceElementType',
                  'LLVMGetSwitchDefaultDest', 'LLVMGetBasicBlockTerminator', 'LLVMGetModuleDataLayout',
                  'LLVMGetCondition', 'LLVMBasicBlockAsValue', 'LLVMValueAsBasicBlock',
                  'LLVMGetAggregateElementX', 'LLVMGetCalledFunctionType'):
            try:
                d(n, P, P)
            except AttributeError:
                pass
        d('LLVMGetParam', P, P, U)
        d('LLVMCountParams', U, P)
        d('LLVMGetOperand', P, P, U)
        d('LLVMGetNumOperands', I, P)
        d('LLVMGetInstructionOpcode', I, P)
        d('LLVMGetConstOpcode', I, P)
        d('LLVMGetValueKind', I, P)
        d('LLVMGetValueName2', C.c_void_p, P, C.POINTER(C.c_size_t))
        d('LLVMGetTypeKind', I, P)
        d('LLVMGetIntTypeWidth', U, P)
        d('LLVMGetStructName', S, P)
        d('LLVMCountStructElementTypes', U, P)
        d('LLVMStructGetTypeAtIndex', P, P, U)
        d('LLVMGetArrayLength2', C.c_uint64, P)
        d('LLVMABISizeOfType', C.c_ulonglong, P, P)
        d('LLVMOffsetOfElement', C.c_ulonglong, P, P, U)
        d('LLVMConstIntGetSExtValue', LL, P)
        d('LLVMGetICmpPredicate', I, P)
        d('LLVMCountIncoming', U, P)
        d('LLVMGetIncomingValue', P, P, U)
        d('LLVMGetIncomingBlock', P, P, U)
        d('LLVMGetNumSuccessors', U, P)
        d('LLVMGetSuccessor', P, P, U)
        d('LLVMIsDeclaration', I, P)
        d('LLVMGetLinkage', I, P)
        d('LLVMGetDebugLocLine', U, P)
        d('LLVMGetNumArgOperands', U, P)
        d('LLVMGetNumIndices', U, P)
        d('LLVMGetIndices', C.POINTER(U), P)
        d('LLVMIsConstant', I, P)
        d('LLVMIsGlobalConstant', I, P)
        d('LLVMIsConditional', I, P)
        d('LLVMGetAsString', C.c_void_p, P, C.POINTER(C.c_size_t))
        d('LLVMIsConstantString', I, P)
        d('LLVMGetAggregateElement', P, P, U)
        d('LLVMIsNull', I, P)
        d('LLVMIsFunctionVarArg', I, P)
        d('LLVMPrintValueToString', C.c_void_p, P)
        d('LLVMDisposeMessage', None, C.c_void_p)
    return _lib


OPC = {1: 'ret', 2: 'br', 3: 'switch', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi',
       35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 53: 'extractvalue',
       54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 66: 'fneg', 68: 'freeze',
       49: 'va_arg', 60: 'addrspacecast'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt',
        41: 'sle'}
# LLVMValueKind
VK_ARG, VK_BB = 0, 1
VK_FUNC, VK_GVAR = 5, 8
VK_CEXPR, VK_CARR, VK_CSTRUCT, VK_UNDEF, VK_AGGZERO, VK_CDARR = 10, 11, 12, 14, 15, 16
VK_CINT, VK_CFP, VK_NULL = 18, 19, 20
VK_POISON = 25
VK_INST = 24
TK_VOID, TK_INT, TK_FUNC, TK_STRUCT, TK_ARRAY, TK_PTR = 0, 8, 9, 10, 11, 12


class Ty:
    __slots__ = ('kind', 'bits', 'name', 'size', 'elems', 'offs', 'n', 'elem')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.bits
        if self.kind == 'struct':
            return 'struct %s' % self.name
        if self.kind == 'array':
            return '[%d x %r]' % (self.n, self.elem)
        return self.kind


class Inst:
    __slots__ = ('op', 'id', 'args', 'ty', 'line', 'x', 'fn', 'blk', 'idx', 'name')
    # args: tuple of operand values; x: op specific payload

    def __repr__(self):
        return '%s:%d %s %s %r' % (self.fn.name, self.line, self.id, self.op, self.args)


class Block:
    __slots__ = ('name', 'insts', 'succs', 'preds', 'fn', 'idx', 'phis', 'live_in', 'loop_header', 'rpo', 'loops')

    def __repr__(self):
        return '%s.%s' % (self.fn.name, self.name)


class Func:
    __slots__ = ('name', 'defs', 'module', 'file', 'line', 'params', 'blocks', 'ret', 'internal', 'decl',
                 'vararg', 'pnames', 'boundary', 'loops', 'addr_taken', 'tabled')

    def __repr__(self):
        return '<%s>' % self.name


class Module:
    pass


class Program:
    def __init__(self):
        self.funcs = {}       # external name -> Func ; static: (module, name)
        self.modules = []
        self.globals = {}     # gid -> Global
        self.sizes = {}
        self.structs = {}     # struct name -> {offset: (field, size)}
        self.fieldoff = {}    # (struct, field) -> offset
        self.header_names = set()

    def fn(self, name):
        f = self.funcs.get(name)
        if f is None:
            raise AnalysisError('function %s is not defined in the analysed program' % name)
        return f

    def off(self, struct, field):
        try:
            return self.fieldoff[(struct, field)]
        except KeyError:
            raise AnalysisError('field %s.%s not found' % (struct, field))

    def all_funcs(self):
        return [f for f in self.allf]


class Global:
    __slots__ = ('gid', 'name', 'module', 'ty', 'init', 'const', 'is_func', 'cells', 'sval')

    def __repr__(self):
        return '@' + self.name


def _compile_one(src, outdir, extra):
    base = os.path.basename(src)[:-2]
    raw = os.path.join(outdir, base + '.raw.bc')
    ll = os.path.join(outdir, base + '.ll')
    cmd = ['clang', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-fno-builtin-none' if False else '-fno-builtin', '-I', os.path.join(REPO, 'include'),
           '-I', os.path.join(REPO, 'src')] + BASE_FLAGS + extra + ['-emit-llvm', '-c', src, '-o', raw]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise AnalysisError('clang failed on %s:\n%s' % (src, p.stderr[:2000]))
    p = subprocess.run(['opt', '-passes=mem2reg', '-S', raw, '-o', ll], capture_output=True, text=True)
    if p.returncode:
        raise AnalysisError('opt failed on %s:\n%s' % (src, p.stderr[:2000]))
    return src, ll


def parse_di(text):
    """struct name -> {bit offset: (field name, size bits)} from debug metadata text."""
    nodes = {}
    for m in re.finditer(r'^!(\d+) = (?:distinct )?!(?:(DI\w+)\((.*)\)|\{(.*)\})$', text, re.M):
        nodes[int(m.group(1))] = (m.group(2), m.group(3) if m.group(2) else m.group(4))
    out = {}
    typedefs = {}

    def attr(s, k):
        m = re.search(r'\b%s: ("(?:[^"\\]|\\.)*"|[^,)]+)' % k, s)
        return m.group(1).strip('"') if m else None
    for nid, (kind, body) in nodes.items():
        if kind == 'DICompositeType' and attr(body, 'tag') in ('DW_TAG_structure_type',) and attr(body, 'elements'):
            name = attr(body, 'name')
            el = attr(body, 'elements')
            if not el.startswith('!'):
                continue
            lst = nodes.get(int(el[1:]))
            if not lst or lst[0]:
                continue
            fields = {}
            for r in re.findall(r'!(\d+)', lst[1]):
                k, b = nodes.get(int(r), (None, ''))
                if k == 'DIDerivedType' and attr(b, 'tag') == 'DW_TAG_member':
                    off = int(attr(b, 'offset') or 0)
                    fields[off // 8] = (attr(b, 'name'), int(attr(b, 'size') or 0) // 8)
            out.setdefault(name, fields) if name else None
            if not name:
                typedefs[nid] = fields
    for nid, (kind, body) in nodes.items():
        if kind == 'DIDerivedType' and attr(body, 'tag') == 'DW_TAG_typedef':
            bt = attr(body, 'baseType')
            if bt and bt.startswith('!') and int(bt[1:]) in typedefs:
                out.setdefault(attr(body, 'name'), typedefs[int(bt[1:])])
    # enums
    enums = {}
    for nid, (kind, body) in nodes.items():
        if kind == 'DIEnumerator':
            v = attr(body, 'value')
            enums[attr(body, 'name')] = int(v)
    return out, enums


class _Loader:
    def __init__(self, prog, ll, src):
        self.prog, self.src = prog, src
        L = self.L = lib()
        ctx = L.LLVMContextCreate()
        buf, msg, mod = C.c_void_p(), C.c_void_p(), C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(ll.encode(), C.byref(buf), C.byref(msg)):
            raise AnalysisError('cannot read ' + ll)
        if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(msg)):
            raise AnalysisError('cannot parse ' + ll)
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.tycache = {}
        self.vals = {}
        self.mname = os.path.basename(src)[:-2]

    def name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode() if n.value else ''

    def ty(self, t):
        r = self.tycache.get(t)
        if r is not None:
            return r
        L = self.L
        r = Ty()
        self.tycache[t] = r
        k = L.LLVMGetTypeKind(t)
        r.size = 0
        r.bits = 0
        r.name = None
        if k == TK_INT:
            r.kind, r.bits = 'int', L.LLVMGetIntTypeWidth(t)
            r.size = max(1, r.bits // 8)
        elif k == TK_PTR:
            r.kind, r.size, r.bits = 'ptr', 8, 64
        elif k == TK_STRUCT:
            r.kind = 'struct'
            nm = L.LLVMGetStructName(t)
            nm = nm.decode() if nm else None
            if nm:
                nm = re.sub(r'^(struct|union)\.', '', nm)
                nm = re.sub(r'\.\d+$', '', nm)
            r.name = nm
            n = L.LLVMCountStructElementTypes(t)
            try:
                r.size = L.LLVMABISizeOfType(self.dl, t)
                r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                r.elems, r.offs = [], []
        elif k == TK_ARRAY:
            r.kind = 'array'
            r.elem = self.ty(L.LLVMGetElementType(t))
            r.n = L.LLVMGetArrayLength2(t)
            r.size = r.elem.size * r.n
        elif k == TK_VOID:
            r.kind = 'void'
        elif k == TK_FUNC:
            r.kind = 'func'
        else:
            r.kind = 'k%d' % k
            r.size = 8
        return r

    def gid(self, v):
        nm = self.name(v)
        link = self.L.LLVMGetLinkage(v)
        return (self.mname, nm) if link in (8, 9) else nm   # internal, private

    def operand(self, v):
        """-> ('i', int) | ('n',) | ('g', gid, off) | ('f', gid) | ('v', id) | ('u',) | ('b', bid)"""
        r = self.vals.get(v)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetValueKind(v)
        if k == VK_CINT:
            t = self.ty(L.LLVMTypeOf(v))
            n = L.LLVMConstIntGetSExtValue(v)
            if t.bits == 1:
                n &= 1
            r = ('i', n)
        elif k == VK_NULL:
            r = ('i', 0)
        elif k == VK_FUNC:
            r = ('f', self.gid(v))
        elif k == VK_GVAR:
            r = ('g', self.gid(v), 0)
        elif k in (VK_UNDEF, VK_POISON):
            r = ('u',)
        elif k == VK_CEXPR:
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == 'gep':
                base = self.operand(L.LLVMGetOperand(v, 0))
                off = self.const_gep(v)
                if base[0] == 'g':
                    r = ('g', base[1], base[2] + off)
                else:
                    r = ('u',)
            elif op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                r = self.operand(L.LLVMGetOperand(v, 0))
            else:
                r = ('u',)
        elif k == VK_AGGZERO:
            r = ('z',)
        else:
            r = ('u',)
        self.vals[v] = r
        return r

    def const_gep(self, v):
        L = self.L
        t = self.ty(L.LLVMGetGEPSourceElementType(v))
        n = L.LLVMGetNumOperands(v)
        off = 0
        for i in range(1, n):
            idx = L.LLVMConstIntGetSExtValue(L.LLVMGetOperand(v, i))
            if i == 1:
                off += idx * t.size
            elif t.kind == 'struct':
                off += t.offs[idx]
                t = t.elems[idx]
            else:
                t = t.elem
                off += idx * t.size
        return off

    def gep(self, v):
        """-> (const_off, [(operand, scale)], path) ; path = [(struct, field offset)]"""
        L = self.L
        t = self.ty(L.LLVMGetGEPSourceElementType(v))
        n = L.LLVMGetNumOperands(v)
        off, var, path = 0, [], []
        for i in range(1, n):
            o = self.operand(L.LLVMGetOperand(v, i))
            if i == 1:
                if o[0] == 'i':
                    off += o[1] * t.size
                else:
                    var.append((o, t.size))
            elif t.kind == 'struct':
                path.append((t.name, t.offs[o[1]], off))
                off += t.offs[o[1]]
                t = t.elems[o[1]]
            else:
                t = t.elem
                if o[0] == 'i':
                    off += o[1] * t.size
                else:
                    var.append((o, t.size))
        return off, var, path

    def const_cells(self, v, t, off, out):
        """Flatten a constant initialiser into {offset: (size, operand)}"""
        L = self.L
        k = L.LLVMGetValueKind(v)
        if k in (VK_AGGZERO,) or (L.LLVMIsNull(v) and t.kind in ('struct', 'array')):
            out.append((off, t.size, ('z',)))
            return
        if t.kind == 'array':
            if k == VK_CDARR and L.LLVMIsConstantString(v):
                n = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(n))
                bs = C.string_at(p, n.value)
                out.append((off, t.size, ('s', bs)))
                return
            for i in range(t.n):
                self.const_cells(L.LLVMGetAggregateElement(v, i), t.elem, off + i * t.elem.size, out)
        elif t.kind == 'struct':
            for i in range(len(t.elems)):
                self.const_cells(L.LLVMGetAggregateElement(v, i), t.elems[i], off + t.offs[i], out)
        else:
            out.append((off, t.size, self.operand(v)))

    def load(self):
        L, prog = self.L, self.prog
        g = L.LLVMGetFirstGlobal(self.mod)
        while g:
            gid = self.gid(g)
            G = Global()
            G.gid, G.name, G.module = gid, self.name(g), self.mname
            G.ty = self.ty(L.LLVMGlobalGetValueType(g))
            G.const = bool(L.LLVMIsGlobalConstant(g))
            G.is_func = False
            G.init = None
            G.sval = None
            G.cells = None
            iv = L.LLVMGetInitializer(g)
            if iv:
                cells = []
                self.const_cells(iv, G.ty, 0, cells)
                G.cells = cells
                if len(cells) == 1 and cells[0][2][0] == 's':
                    G.sval = cells[0][2][1]
            if gid not in prog.globals or G.cells is not None:
                prog.globals[gid] = G
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(self.mod)
        while f:
            if not L.LLVMIsDeclaration(f):
                self.func(f)
            f = L.LLVMGetNextFunction(f)

    def func(self, f):
        L, prog = self.L, self.prog
        F = Func()
        F.name = self.name(f)
        F.module = self.mname
        F.file = self.src
        F.internal = L.LLVMGetLinkage(f) in (8, 9)
        F.vararg = False
        F.params = []
        F.pnames = []
        F.boundary = False
        F.addr_taken = False
        F.tabled = False
        for i in range(L.LLVMCountParams(f)):
            p = L.LLVMGetParam(f, i)
            t = self.ty(L.LLVMTypeOf(p))
            pid = 'a%d' % i
            self.vals[p] = ('v', pid)
            F.params.append((pid, t))
            F.pnames.append(self.name(p))
        blocks, bmap = [], {}
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            B = Block()
            B.idx = len(blocks)
            B.name = self.name(L.LLVMBasicBlockAsValue(b)) or 'b%d' % B.idx
            B.fn = F
            B.insts, B.phis, B.succs, B.preds = [], [], [], []
            B.loop_header = False
            B.live_in = None
            B.loops = ()
            bmap[b] = B
            blocks.append((b, B))
            b = L.LLVMGetNextBasicBlock(b)
        # ids first (phis may refer forward)
        n = 0
        insts = []
        for b, B in blocks:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                nm = self.name(i)
                self.vals[i] = ('v', '%s#%d' % (nm, n) if nm else '#%d' % n)
                insts.append((i, B))
                n += 1
                i = L.LLVMGetNextInstruction(i)
        F.line = 0
        F.ret = self.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(f)))
        for i, B in insts:
            opn = L.LLVMGetInstructionOpcode(i)
            op = OPC.get(opn, 'op%d' % opn)
            I = Inst()
            I.op, I.fn, I.blk = op, F, B
            I.id = self.vals[i][1]
            I.name = self.name(i)
            I.line = L.LLVMGetDebugLocLine(i)
            I.ty = self.ty(L.LLVMTypeOf(i))
            I.x = None
            I.idx = len(B.insts)
            if op == 'call':
                cv = L.LLVMGetCalledValue(i)
                callee = self.operand(cv)
                na = L.LLVMGetNumArgOperands(i)
                nm = callee[1] if callee[0] == 'f' else None
                if isinstance(nm, str) and nm.startswith('llvm.dbg') or isinstance(nm, str) and nm.startswith('llvm.lifetime'):
                    continue
                I.args = tuple(self.operand(L.LLVMGetOperand(i, j)) for j in range(na))
                I.x = callee
            elif op == 'phi':
                I.x = [(bmap[L.LLVMGetIncomingBlock(i, j)], self.operand(L.LLVMGetIncomingValue(i, j)))
                       for j in range(L.LLVMCountIncoming(i))]
                I.args = tuple(v for _, v in I.x)
                B.phis.append(I)
                continue
            elif op == 'br':
                ns = L.LLVMGetNumSuccessors(i)
                B.succs = [bmap[L.LLVMGetSuccessor(i, j)] for j in range(ns)]
                I.args = (self.operand(L.LLVMGetCondition(i)),) if L.LLVMIsConditional(i) else ()
            elif op == 'switch':
                I.args = (self.operand(L.LLVMGetOperand(i, 0)),)
                cases = []
                for j in range(2, L.LLVMGetNumOperands(i), 2):
                    cases.append((self.operand(L.LLVMGetOperand(i, j))[1],
                                  bmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, j + 1))]))
                dflt = bmap[L.LLVMGetSwitchDefaultDest(i)]
                I.x = (cases, dflt)
                B.succs = [t for _, t in cases] + [dflt]
            elif op == 'gep':
                I.x = self.gep(i)
                I.args = (self.operand(L.LLVMGetOperand(i, 0)),) + tuple(o for o, s in I.x[1])
            elif op == 'alloca':
                I.args = ()
                I.x = self.ty(L.LLVMGetAllocatedType(i))
            elif op == 'icmp':
                I.x = PRED[L.LLVMGetICmpPredicate(i)]
                o0 = L.LLVMGetOperand(i, 0)
                I.args = (self.operand(o0), self.operand(L.LLVMGetOperand(i, 1)))
                I.ty = self.ty(L.LLVMTypeOf(o0))
            else:
                I.args = tuple(self.operand(L.LLVMGetOperand(i, j)) for j in range(L.LLVMGetNumOperands(i)))
                if op == 'store':
                    I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif op in ('zext', 'sext', 'trunc'):
                    I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif op == 'extractvalue':
                    I.x = L.LLVMGetIndices(i)[0]
            if I.line and not F.line:
                F.line = I.line
            B.insts.append(I)
        F.blocks = [B for _, B in blocks]
        for B in F.blocks:
            for s in B.succs:
                if B not in s.preds:
                    s.preds.append(B)
        analyse_cfg(F)
        key = (self.mname, F.name) if F.internal else F.name
        prog.funcs[key] = F
        prog.allf.append(F)


def analyse_cfg(F):
    """Reverse postorder, natural loop headers, and live-in sets of SSA names."""
    entry = F.blocks[0]
    seen, order, onstack, headers = set(), [], set(), set()
    stack = [(entry, iter(entry.succs))]
    seen.add(entry)
    onstack.add(entry)
    back = []
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                onstack.add(s)
                stack.append((s, iter(s.succs)))
                break
            if s in onstack:
                headers.add(s)
                back.append((b, s))
        else:
            stack.pop()
            onstack.discard(b)
            order.append(b)
    order.reverse()
    for i, b in enumerate(order):
        b.rpo = i
    for b in F.blocks:
        if b not in seen:
            b.rpo = len(order)
    F.blocks = order
    for h in headers:
        h.loop_header = True
    loops = {}
    for t, h in back:
        body = loops.setdefault(h, {h})
        work = [t]
        while work:
            x = work.pop()
            if x in body:
                continue
            body.add(x)
            work.extend(p for p in x.preds if p in seen)
    F.loops = loops
    for h, body in loops.items():
        for b in body:
            b.loops = b.loops + (h,)
    # liveness
    use, deff = {}, {}
    for b in order:
        u, d = set(), set()
        for p in b.phis:
            d.add(p.id)
        for i in b.insts:
            for a in i.args:
                if a[0] == 'v' and a[1] not in d:
                    u.add(a[1])
            if i.op == 'call' and i.x[0] == 'v' and i.x[1] not in d:
                u.add(i.x[1])
            d.add(i.id)
        use[b], deff[b] = u, d
    live = {b: set() for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            out = set()
            for s in b.succs:
                out |= live[s] - {p.id for p in s.phis}
                for p in s.phis:
                    for src, v in p.x:
                        if src is b and v[0] == 'v':
                            out.add(v[1])
            n = use[b] | (out - deff[b])
            if n != live[b]:
                live[b] = n
                ch = True
    for b in order:
        b.live_in = frozenset(live[b] | {p.id for p in b.phis})


def load_program(repo=None, extra=()):
    global REPO
    if repo:
        REPO = repo
    srcdir = os.path.join(REPO, 'src')
    if not os.path.isdir(srcdir):
        raise AnalysisError('no source directory ' + srcdir)
    units = sorted(os.path.join(srcdir, f) for f in os.listdir(srcdir)
                   if f.endswith('.c') and f not in NOT_BUILT)
    if len(units) < 10:
        raise AnalysisError('only %d translation units found' % len(units))
    out = tempfile.mkdtemp(prefix='sa-ir-')
    prog = Program()
    prog.allf = []
    prog.repo = REPO
    prog.enums = {}
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(lambda s: _compile_one(s, out, list(extra)), units))
        for src, ll in lls:
            text = open(ll).read()
            st, en = parse_di(text)
            for k, v in st.items():
                if k not in prog.structs or len(v) > len(prog.structs[k]):
                    prog.structs[k] = v
            prog.enums.update(en)
            ld = _Loader(prog, ll, src)
            ld.load()
            prog.modules.append(src)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    for s, fs in prog.structs.items():
        for off, (fn, sz) in fs.items():
            prog.fieldoff[(s, fn)] = off
        # structures of interest hold pointers: eight byte alignment
        prog.sizes[s] = (max([o + sz for o, (fn, sz) in fs.items()] or [0]) + 7) // 8 * 8
    # names declared in headers: the module boundaries of the program
    for root, _, files in os.walk(os.path.join(REPO, 'include')):
        for f in files:
            if f.endswith('.h'):
                t = open(os.path.join(root, f), errors='replace').read()
                t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
                t = re.sub(r'//[^\n]*', ' ', t)
                prog.header_names.update(re.findall(r'\b([A-Za-z_]\w*)\s*\(', t))
    # address-taken functions (thread and worker callbacks, signal handlers).  A function that is only named in a constant
    # table or chosen between on the way to a call is called from its own module: that is no entry of its own.
    taken, weak = set(), set()
    for F in prog.allf:
        used = set()
        for b in F.blocks:
            for i in b.insts:
                if i.op not in ('select', 'icmp'):
                    used.update(a[1] for a in i.args if a[0] == 'v')
        for b in F.blocks:
            for i in b.insts + b.phis:
                ops = list(i.args) + ([v for _, v in i.x] if i.op == 'phi' else [])
                for a in ops:
                    if a[0] == 'f':
                        (weak if i.op == 'icmp' or i.op in ('select', 'phi') and i.id not in used else taken).add(a[1])
    for k, g in prog.globals.items():
        for c in g.cells or ():
            if c[2][0] == 'f':
                (weak if g.const else taken).add(c[2][1])
    indirect = {(F.module, len(i.args)) for F in prog.allf for b in F.blocks for i in b.insts
                if i.op == 'call' and i.x and i.x[0] == 'v'}
    for F in prog.allf:
        key = (F.module, F.name) if F.internal else F.name
        F.tabled = key in weak and key not in taken and F.internal and (F.module, len(F.params)) in indirect
        F.addr_taken = key in taken or key in weak and not F.tabled
        F.boundary = (not F.internal) and F.name in prog.header_names
    prog.units = [os.path.relpath(u, REPO) for u in units]
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    p = load_program()
    print('%d units %d functions %d instructions %.1fs' % (
        len(p.units), len(p.allf), sum(len(b.insts) for f in p.allf for b in f.blocks), time.time() - t))
    for f in p.allf:
        print(f.module, f.name, 'static' if f.internal else '', 'boundary' if f.boundary else '',
              'taken' if f.addr_taken else '', len(f.blocks), 'loops', len(f.loops))
