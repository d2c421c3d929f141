"""Reference semantics of every VM opcode, checked against all abstract paths of one dispatch iteration.

Each rule instance is an obligation 'for every concretisation of this path, <linear/term equation>'.  Every
obligation carries an aspect; a property of the catalogue is a set of (opcode group, aspect)."""
from .engine import *
from .dom import *
from . import vm as V
from .vm import T1, T2, T4, T8, TS, TPtr, TDbl, IT

# ---------------------------------------------------------------- instruction lengths (from the public opcode list)
PRIM = {'OP_IO_U8': (1, 0), 'OP_IO_U16': (2, 0), 'OP_IO_U32': (4, 0), 'OP_IO_U64': (8, 0),
        'OP_IO_I8': (1, 1), 'OP_IO_I16': (2, 1), 'OP_IO_I32': (4, 1), 'OP_IO_I64': (8, 1)}
FLT = {'OP_IO_F32': 4, 'OP_IO_F64': 8}
STRP = {'OP_STR_PRE_U8': 1, 'OP_STR_PRE_U16': 2, 'OP_STR_PRE_U32': 4}
ARRP = {'OP_ARR_PRE_U8': 1, 'OP_ARR_PRE_U16': 2, 'OP_ARR_PRE_U32': 4}
ARRS = ['OP_ARR_FIXED', 'OP_ARR_EOF', 'OP_ARR_DYNAMIC'] + list(ARRP)
BITS = ['OP_IO_BIT_U', 'OP_IO_BIT_I', 'OP_IO_BIT_BOOL']
LEN = {'OP_NOOP': 1, 'OP_SET_ENDIAN_LE': 1, 'OP_SET_ENDIAN_BE': 1, 'OP_ENTER_STRUCT': 3, 'OP_EXIT_STRUCT': 1, 'OP_META_VERSION': 2,
       'OP_META_NAME': 3, 'OP_IO_BOOL': 3, 'OP_IO_BIT_U': 4, 'OP_IO_BIT_I': 4, 'OP_IO_BIT_BOOL': 3, 'OP_ALIGN_PAD': 2, 'OP_ALIGN_FILL': 2,
       'OP_ENTER_BIT_MODE': 1, 'OP_EXIT_BIT_MODE': 1, 'OP_STR_NULL': 5, 'OP_STR_PRE_U8': 3, 'OP_STR_PRE_U16': 3, 'OP_STR_PRE_U32': 3,
       'OP_ARR_FIXED': 7, 'OP_ARR_PRE_U8': 3, 'OP_ARR_PRE_U16': 3, 'OP_ARR_PRE_U32': 3, 'OP_ARR_END': 1, 'OP_RAW_BYTES': 7, 'OP_ARR_EOF': 3,
       'OP_ARR_DYNAMIC': 5, 'OP_SCALE_LIN': 17, 'OP_CRC_16': 8, 'OP_CRC_32': 14, 'OP_TRANS_ADD': 9, 'OP_TRANS_SUB': 9, 'OP_TRANS_MUL': 9,
       'OP_TRANS_DIV': 9, 'OP_MARK_OPTIONAL': 1, 'OP_JUMP_IF_NOT': 5, 'OP_JUMP': 5, 'OP_SWITCH': 7, 'OP_SWITCH_TABLE': 7,
       'OP_LOAD_CTX': 3, 'OP_STORE_CTX': 3, 'OP_PUSH_IMM': 9, 'OP_POP': 1, 'OP_SWAP': 1, 'OP_DUP': 1, 'OP_EMIT': 2}
for n in list(PRIM) + list(FLT): LEN[n] = 3
BIN = ['OP_ADD', 'OP_SUB', 'OP_MUL', 'OP_DIV', 'OP_MOD', 'OP_FADD', 'OP_FSUB', 'OP_FMUL', 'OP_FDIV', 'OP_POW', 'OP_EQ_F', 'OP_NEQ_F', 'OP_GT_F',
       'OP_LT_F', 'OP_GTE_F', 'OP_LTE_F', 'OP_BIT_AND', 'OP_BIT_OR', 'OP_BIT_XOR', 'OP_SHL', 'OP_SHR', 'OP_EQ', 'OP_NEQ', 'OP_GT', 'OP_LT', 'OP_GTE',
       'OP_LTE', 'OP_LOG_AND', 'OP_LOG_OR']
UN = ['OP_NEG', 'OP_FNEG', 'OP_SIN', 'OP_COS', 'OP_TAN', 'OP_SQRT', 'OP_LOG', 'OP_ABS', 'OP_ITOF', 'OP_FTOI', 'OP_BIT_NOT', 'OP_LOG_NOT']
ALU = BIN + UN
for n in ALU: LEN[n] = 1
STACK = ['OP_PUSH_IMM', 'OP_POP', 'OP_SWAP', 'OP_DUP', 'OP_LOAD_CTX', 'OP_STORE_CTX', 'OP_EMIT', 'OP_JUMP_IF_NOT'] + ALU
VARLEN = ['OP_CONST_CHECK', 'OP_CONST_WRITE', 'OP_RANGE_CHECK', 'OP_ENUM_CHECK', 'OP_TRANS_POLY', 'OP_TRANS_SPLINE']
DATA = list(PRIM) + list(FLT) + ['OP_IO_BOOL'] + BITS + ['OP_STR_NULL'] + list(STRP) + ['OP_RAW_BYTES', 'OP_CONST_CHECK', 'OP_CONST_WRITE',
                                                                                 'OP_CRC_16', 'OP_CRC_32', 'OP_EMIT']
ALIGNED = set(list(PRIM) + list(FLT) + ['OP_IO_BOOL', 'OP_STR_NULL'] + list(STRP) + ARRS + ['OP_ARR_END', 'OP_RAW_BYTES', 'OP_CONST_CHECK', 'OP_CONST_WRITE',
              'OP_CRC_16', 'OP_CRC_32', 'OP_ENUM_CHECK', 'OP_EMIT', 'OP_TRANS_POLY', 'OP_TRANS_SPLINE'])


class FI:
    """stand-in instruction for building reference terms"""
    x = (False, False)
    def __init__(s, w): s.ty = IT(w // 8); s.op = 'ref'
    def loc(s): return 'reference'
    id = -1
    line = 0


class Viol:
    def __init__(s, op, aspect, msg, loc, trace): s.op = op; s.aspect = aspect; s.msg = msg; s.loc = loc; s.trace = trace


class Case:
    """a path restricted to one mode / endianness / alignment"""
    def __init__(s, ck, p, st, mode, endian, mis):
        s.ck = ck; s.p = p; s.st = st; s.mode = mode; s.endian = endian; s.run = p.run; s.mis = mis
        s.cur0 = st.simp(p.run.h0['cursor']); s.bo0 = st.simp(p.run.h0['bit_offset'])
        s.start = s.cur0 + (1 if mis else 0)
        s.enc = mode == 0

    @property
    def s0(s):
        """memory as it was before the instruction, under what this path knows"""
        t = s.st.fork(); t.mem = dict(s.run.s0.mem)
        return t

    def f(s, n): return s.run.val(s.st, n)
    def h(s, n): return s.st.simp(s.run.h0[n])
    def U(s, v): return s.run.U(s.st, v)

    def bc(s, off, n=1):
        """little-endian bytecode operand at pc+off"""
        en = s.run.en; r = ZERO
        for i in range(n):
            r = r + en.U(s.st, en.cell(s.st, s.run.bc, s.run.po + off + i, 1, T1)).scale(1 << (8 * i))
        return s.st.simp(r)

    def bcraw(s, off):
        en = s.run.en
        return en.U(s.st, en.cell(s.st, s.run.bc, s.run.po + off, 1, T1))

    def databytes0(s, off, n):
        """message bytes before the instruction, as LE-ordered list"""
        en = s.run.en
        bs = [en.U(s.st, en.cell(s.s0, s.run.data, off + i, 1, T1)) for i in range(n)]
        return bs if s.endian == 0 else bs[::-1]

    def data0(s, off, n):
        r = ZERO
        for i, b in enumerate(s.databytes0(off, n)): r = r + b.scale(1 << (8 * i))
        return s.st.simp(r)

    def databytes1(s, off, n):
        en = s.run.en
        bs = [s.st.simp(en.U(s.st, en.cell(s.st, s.run.data, off + i, 1, T1))) for i in range(n)]
        return bs if s.endian == 0 else bs[::-1]

    def eq(s, a, b): return s.st.decide_eq(a - b) is True
    def ne(s, a, b): return s.st.decide_eq(a - b) is False
    def ge(s, a): return s.st.prove(a)

    def impossible(s, *lins):
        """is the conjunction of lins (each >= 0) impossible on this path?"""
        t = s.st.fork()
        for l in lins:
            if not t.assume(t.simp(l)): return True
        return t.infeasible()


def norm(k):
    """normal form of float terms modulo commutativity"""
    if isinstance(k, tuple):
        k = tuple(norm(x) for x in k)
        if k and k[0] in ('fadd', 'fmul') and len(k) == 3 and repr(k[1]) > repr(k[2]): k = (k[0], k[2], k[1])
        if len(k) == 3 and k[0] == 'fpext' and k[2] and k[2][0] == 'c': return k[2]
    return k


class Check:
    def __init__(s, vm, op, run, aspects=None):
        s.vm = vm; s.op = op; s.run = run
        s.viol = []; s.n = {}          # aspect -> obligations
        s.aspects = aspects

    def need(s, ok, aspect, case, msg):
        s.n[aspect] = s.n.get(aspect, 0) + 1
        if not ok:
            p = case.p
            m = msg() if callable(msg) else msg
            s.viol.append(Viol(s.op, aspect, m, p.loc, [(x[0], x[1], x[2]) for x in p.st.trace()[-8:]]))
        return ok

    # ------------------------------------------------------------ splitting
    def cases(s, p):
        run = s.run
        out = []
        sts = [(p.st.fork(), None, None, None)]
        def split(lst, lin, vals, idx):
            o = []
            for t in lst:
                st = t[0]
                for v in vals:
                    a = st.fork()
                    l = a.simp(lin)
                    lo, hi = a.rng(l)
                    if v == '+':
                        if hi < 1 or not a.assume(l - 1): continue
                    else:
                        if v < lo or v > hi or not (a.assume(l - v) and a.assume(Lin(v) - l)): continue
                    if a.facts and len(vals) > 1 and not (lo == hi) and a.infeasible(): continue
                    t2 = list(t); t2[0] = a; t2[idx] = v
                    o.append(tuple(t2))
            return o
        sts = split(sts, run.h0['mode'], [0, 1], 1)
        sts = split(sts, run.h0['endianness'], [0, 1], 2)
        sts = split(sts, run.h0['bit_offset'], [0, '+'], 3)
        c = s.vm.c
        enc = c['ENC']; le = c['LE']
        return [Case(s, p, st, 0 if m == enc else 1, 0 if e == le else 1, b == '+' and s.op in ALIGNED) for st, m, e, b in sts]

    # ------------------------------------------------------------ common expectations
    def fields(s, cs, exp):
        """final context against expectation; unspecified fields unchanged"""
        cs.exp = exp
        A_ = {'cursor': 'advance', 'bit_offset': 'advance', 'endianness': 'state', 'trans_type': 'modifier', 'is_next_optional': 'modifier',
              'loop_depth': 'loop', 'expr_sp': 'stack'}
        for f, asp in A_.items():
            if f in exp: e = exp[f]
            elif f == 'cursor': e = cs.start
            elif f == 'bit_offset': e = ZERO if s.op in ALIGNED else cs.bo0
            else: e = cs.h(f)
            if e is None: continue
            if not isinstance(e, Lin): e = Lin(e)
            v = cs.f(f)
            s.need(cs.eq(v, e), asp, cs, lambda: '%s is %r after the instruction, must be %r' % (f, v, e))
        pc = exp.get('pc', 'len')
        if pc is not None:
            if pc == 'len': pc = cs.run.po + cs.len
            s.need(cs.p.pc is not None and cs.eq(cs.p.pc, pc), 'pc', cs, lambda: 'next instruction at %r, must be at %r' % (cs.p.pc, pc))

    CW = {'trans_type': 'modifier', 'is_next_optional': 'modifier', 'trans_f_factor': 'modifier', 'trans_f_offset': 'modifier', 'trans_i_val': 'modifier',
          'trans_poly_data': 'modifier', 'trans_poly_count': 'modifier', 'trans_spline_data': 'modifier', 'trans_spline_count': 'modifier'}

    def ctxwrites(s, cs, extra=()):
        """context cells stored to: only position/modifier bookkeeping plus `extra` (list of (lin offset, size))"""
        c = s.vm.c
        free = [(c['o_' + f], c['s_' + f]) for f in ('ip', 'cursor', 'bit_offset', 'endianness', 'trans_type', 'is_next_optional', 'loop_depth', 'expr_sp')]
        for e in cs.p.cw:
            o, n = e['off'], e['n']
            if o.isc() and n is not None and any(a <= o.c and o.c + n <= a + k for a, k in free): continue
            ok = False
            for xo, xn in extra:
                d = cs.st.simp(o - xo)
                if n is not None and cs.ge(d) and cs.ge(Lin(xn - n) - d): ok = True; break
            s.need(ok, 'state', cs, lambda: 'instruction stores to an unrelated part of the context (offset %r, %s bytes)' % (o, n))

    def ncb(s, cs, n):
        return s.need(len(cs.p.cbs) == n, 'callback', cs, lambda: '%d host callbacks, must be %d' % (len(cs.p.cbs), n))

    def cb(s, cs, e, key=None, op=None, size=None, space='local'):
        if key is not None: s.need(cs.eq(e['key'], key), 'key', cs, lambda: 'host called with key %r, must be %r' % (e['key'], key))
        if op is not None:
            o = s.vm.ops[op]
            s.need(cs.eq(e['op'], Lin(o)), 'callback', cs, lambda: 'host called with type %r, must be %s' % (e['op'], op))
        s.need(e['space'] == space, 'callback', cs, lambda: 'host given a pointer into %s, must be %s' % (e['space'], space))
        if size is not None and e['space'] == 'local':
            s.need(e['size'] == size, 'callback', cs, lambda: 'host given a %s-byte value, must be %d bytes' % (e['size'], size))

    def cbok(s, cs, e):
        """the callback succeeded on this (continuing) path"""
        s.need(cs.eq(e['rc'], ZERO), 'cbfail', cs, 'instruction continues although the host callback may have failed')

    def nowrites(s, cs, why='instruction must not modify the message'):
        for w in cs.p.wr:
            if w['n'].isc() and w['n'].c == 0: continue
            s.need(False, 'writes', cs, '%s (write at %r)' % (why, w['off']))
        s.n['writes'] = s.n.get('writes', 0) + 1

    def within(s, cs, lo, hi):
        for w in cs.p.wr:
            s.need(cs.ge(w['off'] - lo) and cs.ge(hi - w['off'] - w['n']), 'writes', cs,
                   lambda: 'write at %r (+%r) outside the item [%r, %r)' % (w['off'], w['n'], lo, hi))

    def failure(s, cs, allow):
        """an error return: allow = {name: list of reasons}; a reason is a Lin (>=0 justifies), True, or callable(cs)->bool"""
        n = cs.p.retname()
        rs = allow.get(n)
        if rs is None:
            # accept if the code is not constant but the path is impossible
            s.need(cs.impossible(), 'errcode', cs, lambda: 'returns %s, which is not a defined outcome here' % n)
            return
        if any(r is True for r in rs): s.n['errcode'] = s.n.get('errcode', 0) + 1; return
        lins = []
        for r in rs:
            if isinstance(r, Lin): lins.append(r.scale(-1) - 1)
            elif r(cs): s.n['errcode'] = s.n.get('errcode', 0) + 1; return
        s.need(cs.impossible(*lins), 'errcode', cs, lambda: 'returns %s although its condition does not hold (rejects valid input)' % n)

    def callback_failure(s, cs):
        """CALLBACK is returned exactly because the last callback failed, and nothing is written afterwards"""
        evs = cs.p.ev
        last = None
        for i, e in enumerate(evs):
            if e['t'] == 'cb': last = i
        if not s.need(last is not None, 'cbfail', cs, 'reports a callback error without having called the host'): return
        e = evs[last]
        s.need(cs.ne(e['rc'], ZERO), 'cbfail', cs, 'reports a callback error although the host callback may have succeeded')
        for w in evs[last + 1:]:
            s.need(w['t'] != 'wr', 'cbfail', cs, lambda: 'message modified after the failed callback (offset %r)' % w.get('off'))

    def trunc_reason(s, cs, ln):
        return ln - A(cs.run.bl) + cs.run.po - 1

    # ------------------------------------------------------------ instruction length
    def ilen(s, cs):
        if s.op in LEN: return Lin(LEN[s.op])
        if s.op is None or s.op not in VARLEN: return Lin(1)
        return None

    def tsize(s, cs, off, allowed):
        """size selected by the type byte at pc+off (case is split on it)"""
        pass

    # ------------------------------------------------------------ driver
    def go(s):
        fn = SPECS.get(s.op)
        for p in s.run.paths:
            for cs in s.cases(p):
                for c2 in s.split_operands(cs):
                    s.one(c2, fn)
        return s

    def split_operands(s, cs):
        """split on the type operand of typed instructions; sets cs.len, cs.ty"""
        if s.op in LEN:
            if s.op == 'OP_EMIT':
                for c in s.split_type(cs, 1): yield c
                return
            cs.len = Lin(LEN[s.op]); yield cs; return
        if s.op == 'OP_CONST_CHECK':
            for c in s.split_type(cs, 3): c.len = Lin(4 + c.sz) if c.sz else None; yield c
        elif s.op == 'OP_CONST_WRITE':
            for c in s.split_type(cs, 1): c.len = Lin(2 + c.sz) if c.sz else None; yield c
        elif s.op == 'OP_RANGE_CHECK':
            for c in s.split_type(cs, 1): c.len = Lin(2 + 2 * c.sz) if c.sz else None; yield c
        elif s.op == 'OP_ENUM_CHECK':
            for c in s.split_type(cs, 1):
                c.len = (c.bc(2, 2).scale(c.sz) + 4) if c.sz else None
                yield c
        elif s.op == 'OP_TRANS_POLY': cs.len = cs.bc(1).scale(8) + 2; yield cs
        elif s.op == 'OP_TRANS_SPLINE': cs.len = cs.bc(1).scale(16) + 2; yield cs
        else: cs.len = Lin(1); yield cs

    TYPES = {'OP_CONST_CHECK': ['U8', 'I8', 'U16', 'I16', 'U32', 'I32', 'U64', 'I64'], 'OP_CONST_WRITE': ['U8', 'U16', 'U32', 'U64'],
             'OP_RANGE_CHECK': ['U8', 'I8', 'U16', 'I16', 'U32', 'I32', 'U64', 'I64', 'F32', 'F64'],
             'OP_ENUM_CHECK': ['U8', 'I8', 'U16', 'I16', 'U32', 'I32', 'U64', 'I64'],
             'OP_EMIT': ['U8', 'I8', 'BOOL', 'U16', 'I16', 'U32', 'I32', 'F32', 'U64', 'I64', 'F64']}
    SZ = {'U8': 1, 'I8': 1, 'BOOL': 1, 'U16': 2, 'I16': 2, 'U32': 4, 'I32': 4, 'F32': 4, 'U64': 8, 'I64': 8, 'F64': 8}

    def split_type(s, cs, off):
        t = cs.bc(off)
        vals = {s.vm.ops['OP_IO_' + n]: n for n in s.TYPES[s.op]}
        if t.isc():
            n = vals.get(t.c)
            cs.ty = n; cs.sz = s.SZ[n] if n else None
            cs.len = Lin(LEN.get(s.op, 0)) if n or s.op in LEN else None
            yield cs; return
        rest = cs.st.fork()
        alive = True
        for v, n in vals.items():
            st = cs.st.fork()
            if st.assume(t - v) and st.assume(Lin(v) - t) and not st.infeasible():
                c = Case(s, cs.p, st, cs.mode, cs.endian, cs.mis)
                c.ty = n; c.sz = s.SZ[n]; c.len = Lin(LEN.get(s.op, 0))
                yield c
            if alive and not rest.assume_ne(t - v): alive = False
        if alive:
            c = Case(s, cs.p, rest, cs.mode, cs.endian, cs.mis)
            c.ty = None; c.sz = None; c.len = Lin(LEN[s.op]) if s.op in LEN else None
            yield c

    def one(s, cs, fn):
        p = cs.p
        rn = p.retname()
        known = s.op is not None
        avail = A(cs.run.bl) - cs.run.po
        # --- truncated instruction: nothing may happen
        if cs.len is not None and (p.kind == 'next' or rn == 'OK' or p.cbs or p.wr):
            s.need(cs.ge(avail - cs.len), 'fetch', cs, lambda: 'takes effect although its operands run past the end of the program (needs %r bytes)' % cs.len)
        if cs.len is None and (p.kind == 'next' or p.cbs or p.wr):
            s.need(cs.impossible(), 'fetch', cs, 'takes effect with an invalid type operand')
            return
        if p.kind == 'ret' and rn == 'OK':
            s.need(cs.impossible(), 'errcode', cs, 'stops the program with success')
            return
        if p.kind == 'ret' and rn == 'CALLBACK': s.callback_failure(cs)
        if fn is None: unknown(s, cs)
        else: fn(s, cs)


# ---------------------------------------------------------------------------------------------- reference semantics
def trunc_ok(s, cs):
    """reasons for OOB at fetch"""
    if cs.len is None:
        return [True]
    return [s.trunc_reason(cs, cs.len)]


def unknown(s, cs):
    """unassigned opcode: no effect at all"""
    if cs.p.kind == 'ret':
        s.failure(cs, {}); return
    s.ncb(cs, 0); s.nowrites(cs)
    exp = {}
    # flushing a partial byte is harmless and part of the dispatch prologue
    b = cs.f('bit_offset')
    if not cs.eq(b, cs.bo0):
        exp['bit_offset'] = ZERO; exp['cursor'] = cs.cur0 + 1
        if not cs.ge(cs.bo0 - 1): exp['cursor'] = cs.cur0
    else: exp['cursor'] = cs.cur0
    s.fields(cs, dict(exp, pc=cs.run.po + 1))
    s.ctxwrites(cs)


def simple(s, cs, exp=None, extra=()):
    """an instruction without callbacks or data"""
    if cs.p.kind == 'ret':
        s.failure(cs, {'OOB': trunc_ok(s, cs)}); return False
    s.ncb(cs, 0); s.nowrites(cs)
    s.fields(cs, exp or {})
    s.ctxwrites(cs, extra)
    return True


def sp_noop(s, cs): simple(s, cs)
def sp_le(s, cs): simple(s, cs, {'endianness': s.vm.c['LE']})
def sp_be(s, cs): simple(s, cs, {'endianness': s.vm.c['BE']})


def sp_struct(s, cs):
    if cs.p.kind == 'ret':
        s.failure(cs, {'OOB': trunc_ok(s, cs), 'CALLBACK': [True]}); return
    if s.ncb(cs, 1):
        e = cs.p.cbs[0]
        s.cb(cs, e, cs.bc(1, 2) if s.op == 'OP_ENTER_STRUCT' else ZERO, s.op, space='null'); s.cbok(cs, e)
    s.nowrites(cs); s.fields(cs, {}); s.ctxwrites(cs)


def sp_bitmode_exit(s, cs):
    if cs.p.kind == 'ret':
        s.failure(cs, {'OOB': trunc_ok(s, cs), 'VALIDATION': [cs.bo0 - 1]}); return
    s.need(cs.eq(cs.bo0, ZERO), 'gate', cs, 'bit mode left in the middle of a byte')
    simple(s, cs)


MODS = {'trans_type': ZERO, 'is_next_optional': ZERO}


def modtype(s, n): return s.vm.c['TR_' + n]


def cellat(s, cs, f, ty): return cs.run.en.cell(cs.st, cs.run.ctx, Lin(s.vm.c['o_' + f]), s.vm.c['s_' + f], ty)


def sp_trans_i(s, cs):
    n = s.op.replace('OP_TRANS_', '')
    c = s.vm.c
    if simple(s, cs, {'trans_type': modtype(s, n)}, [(Lin(c['o_trans_i_val']), 8)]):
        v = cs.U(cellat(s, cs, 'trans_i_val', T8))
        s.need(cs.eq(v, cs.bc(1, 8)), 'operand', cs, lambda: 'transform constant is %r, not the 64-bit operand' % v)


def sp_scale(s, cs):
    c = s.vm.c
    if simple(s, cs, {'trans_type': modtype(s, 'SCALE')}, [(Lin(c['o_trans_f_factor']), 8), (Lin(c['o_trans_f_offset']), 8)]):
        for f, o in (('trans_f_factor', 1), ('trans_f_offset', 9)):
            v = cs.U(cellat(s, cs, f, T8))
            s.need(cs.eq(v, cs.bc(o, 8)), 'operand', cs, lambda: '%s is not the operand at +%d' % (f, o))


def sp_table(s, cs):
    n = 'poly' if s.op == 'OP_TRANS_POLY' else 'spline'
    c = s.vm.c
    if simple(s, cs, {'trans_type': modtype(s, n.upper())}, [(Lin(c['o_trans_%s_data' % n]), 8), (Lin(c['o_trans_%s_count' % n]), 1)]):
        v = cs.U(cellat(s, cs, 'trans_%s_count' % n, T1))
        s.need(cs.eq(v, cs.bc(1)), 'operand', cs, 'number of calibration entries is not the operand')
        d = cellat(s, cs, 'trans_%s_data' % n, TPtr)
        s.need(isinstance(d, P) and d.r is cs.run.bc and cs.eq(d.o, cs.run.po + 2), 'operand', cs, lambda: 'calibration table at %r, must follow the count' % (d,))


def sp_optional(s, cs): simple(s, cs, {'is_next_optional': 1})


# ---- primitives
def optional_short(s, cs, size, key, op, n):
    """missing optional item: the host is told zero, nothing consumed"""
    s.need(cs.ge(cs.h('is_next_optional') - 1), 'bounds', cs, 'succeeds although the message is too short and the item is not optional')
    if s.ncb(cs, 1):
        e = cs.p.cbs[0]
        s.cb(cs, e, key, op, n); s.cbok(cs, e)
        if isinstance(e['before'], Lin): s.need(cs.eq(e['before'], ZERO), 'value', cs, 'absent optional item not reported as zero')
    s.nowrites(cs)
    s.fields(cs, dict(MODS))
    s.ctxwrites(cs)


def is_short(cs, size):
    """does the path mean: fewer than size bytes left (True/False/None)"""
    d = A(cs.run.dl) - cs.start - size
    if cs.ge(d): return False
    if cs.ge(d.scale(-1) - 1): return True
    return None


def bin64(cs, op, x, y, w=64):
    en = cs.run.en; r = en.rec; en.rec = False
    try: return en.binop(FI(w), cs.st, op, x, y)
    finally: en.rec = r


def sx(cs, lin, size, signed):
    v = I(8 * size, lin)
    if size == 8: return v
    return cs.run.en.sext(cs.st, v, 64) if signed else I(64, lin)


def wrap_ops(cs, tt, v, c, inverse, T):
    """-> I(64) reference result of the integer transform tt applied to v (I64) with constant c (I64)"""
    name = T[tt]
    if inverse: name = {'ADD': 'SUB', 'SUB': 'ADD', 'MUL': 'DIV', 'DIV': 'MUL'}[name]
    if name == 'ADD': return bin64(cs, 'add', v, c)
    if name == 'SUB': return bin64(cs, 'sub', v, c)
    if name == 'MUL': return bin64(cs, 'mul', v, c)
    u = cs.U(c)
    if cs.eq(u, ZERO): return v
    if cs.eq(u, Lin((1 << 64) - 1)): return bin64(cs, 'sub', I(64, ZERO), v)
    if cs.ne(u, ZERO) and cs.ne(u, Lin((1 << 64) - 1)): return bin64(cs, 'sdiv', v, c)
    return None


def canon(lin):
    """re-extract bit slices of opaque modular values so that equal slices get equal names"""
    a = lin.single()
    if a is None: return lin
    if a.key[0] == 'bits':
        b = ATOMS[a.key[1]]
        if b.key[0] == 'mod': return extract(b.key[2], b.key[1], a.key[2], a.key[3])
    return lin


def bytes_eq(s, cs, bs, lin, aspect, what, w=None):
    """LE-ordered byte list equals the low bytes of lin (of width w)"""
    n = len(bs)
    w = w or 8 * n
    lin = cs.st.simp(lin)
    ok = True
    lo, hi = cs.st.rng(lin)
    for i, b in enumerate(bs):
        x = cs.st.simp(extract(lin, w, 8 * i, 8))
        if lo >= 0 and hi < 256 and cs.eq(b, ZERO if i else lin): continue
        if not cs.eq(b, x) and not cs.eq(canon(b), canon(x)):
            ok = False; break
    return s.need(ok, aspect, cs, lambda: '%s: byte %d is %r, must be %r' % (what, i, b, x))


def float_slices(bs):
    """bytes are consecutive slices of one conversion atom -> key of the atom"""
    a = bs[0].single()
    if a is not None:
        if a.key[0] == 'bits': a = ATOMS[a.key[1]]
        while a.key[0] == 'mod' and a.key[2].single() is not None: a = a.key[2].single()
        if a.key[0] in ('fptosi', 'fptoui', 'fbits'):
            w = max(a.w, 8 * len(bs))
            if all(canon(b) == canon(extract(A(a), w, 8 * i, 8)) for i, b in enumerate(bs)): return a.key
    a = bs[0].single()
    if a is None: return None
    base = a
    if a.key[0] == 'bits': base = ATOMS[a.key[1]]
    for i, b in enumerate(bs):
        w = base.w if hasattr(base, 'w') else 64
        x = extract(A(base), max(w, 8 * len(bs)), 8 * i, 8)
        if b != x: return None
    return base.key


def sp_prim(s, cs):
    size, signed = PRIM[s.op] if s.op in PRIM else (FLT[s.op], 0)
    flt = s.op in FLT
    p = cs.p; c = s.vm.c; en = cs.run.en
    key = cs.bc(1, 2)
    tt = cs.h('trans_type')
    T = {c['TR_' + n]: n for n in ('NONE', 'SCALE', 'ADD', 'SUB', 'MUL', 'DIV', 'POLY', 'SPLINE')}
    if p.kind == 'ret':
        fl = [c['TR_SCALE'], c['TR_POLY'], c['TR_SPLINE']]
        ints = [c['TR_' + n] for n in ('ADD', 'SUB', 'MUL', 'DIV')]
        def arith(cs):
            lo, hi = cs.st.rng(tt)
            vals = [v for v in range(lo, hi + 1) if v not in cs.st.ne.get(tt.single().id if tt.single() else -1, ())]
            return (not flt and cs.enc and all(v in fl for v in vals)) or (flt and not cs.enc and all(v in ints for v in vals))
        short = cs.start + size - A(cs.run.dl) - 1
        def oob(cs):
            # too short, and not optional
            if cs.impossible(short.scale(-1) - 1, s.trunc_reason(cs, cs.len).scale(-1) - 1) and \
               cs.impossible(s.trunc_reason(cs, cs.len).scale(-1) - 1, cs.h('is_next_optional') - 1): return True
            return False
        s.failure(cs, {'OOB': [oob], 'CALLBACK': [True], 'ARITHMETIC': [arith]})
        return
    sh = is_short(cs, size)
    if sh is not False:
        if sh is None and not s.need(False, 'bounds', cs, 'succeeds without establishing that the item fits into the message'): return
        optional_short(s, cs, size, key, s.op, size); return
    s.need(True, 'bounds', cs, '')
    s.fields(cs, dict(MODS, cursor=cs.start + size))
    s.ctxwrites(cs)
    if not s.ncb(cs, 1): return
    e = cs.p.cbs[0]
    s.cbok(cs, e)
    if not cs.enc: s.nowrites(cs, 'decoding must not modify the message')
    else: s.within(cs, cs.start, cs.start + size)
    # which transform
    lo, hi = cs.st.rng(tt)
    nes = cs.st.ne.get(tt.single().id, ()) if tt.single() is not None else ()
    vals = [v for v in range(lo, hi + 1) if v not in nes]
    for v in vals:
        if v == c['TR_NONE']: kinds = 'none'
        elif v in (c['TR_ADD'], c['TR_SUB'], c['TR_MUL'], c['TR_DIV']): kinds = 'int'
        elif v in (c['TR_SCALE'], c['TR_POLY'], c['TR_SPLINE']): kinds = 'flt'
        else: kinds = 'none'
        if len(vals) > 1:
            st = cs.st.fork()
            if not (st.assume(tt - v) and st.assume(Lin(v) - tt)) or st.infeasible(): continue
            c2 = Case(s, p, st, cs.mode, cs.endian, cs.mis); c2.len = cs.len
        else: c2 = cs
        prim_value(s, c2, e, size, signed, flt, key, v, kinds, T)


def prim_value(s, cs, e, size, signed, flt, key, tt, kind, T):
    en = cs.run.en; c = s.vm.c
    if kind == 'none':
        s.cb(cs, e, key, s.op, size)
        if not cs.enc:
            raw = cs.data0(cs.start, size)
            s.need(isinstance(e['before'], Lin) and cs.eq(e['before'], raw), 'value', cs, lambda: 'host receives %r, must be the %d message bytes in %s order'
                   % (e['before'], size, 'little-endian' if cs.endian == 0 else 'big-endian'))
        else:
            bytes_eq(s, cs, cs.databytes1(cs.start, size), e['after'], 'value', 'encoded value is not the host value in %s order' % ('LE' if cs.endian == 0 else 'BE'))
        return
    if kind == 'int':
        s.cb(cs, e, key, 'OP_IO_I64', 8)
        ival = cs.run.en.cell(cs.s0, cs.run.ctx, Lin(c['o_trans_i_val']), 8, T8)
        if flt: return
        if not cs.enc:
            raw = sx(cs, cs.data0(cs.start, size), size, signed)
            ref = wrap_ops(cs, tt, raw, ival, False, T)
            if not s.need(ref is not None, 'transform', cs, 'division transform with an undetermined divisor'): return
            b = e['before']
            ok = isinstance(b, Lin) and cs.eq(cs.U(I(64, b)), cs.U(ref))
            if not ok and isinstance(b, Lin):
                ref2 = wrap_ops(Case(s, cs.p, e['st'], cs.mode, cs.endian, cs.mis), tt, sx(Case(s, cs.p, e['st'], cs.mode, cs.endian, cs.mis), cs.data0(cs.start, size), size, signed), ival, False, T)
                ok = ref2 is not None and cs.eq(b, cs.U(ref2))
            s.need(ok, 'transform', cs, lambda: 'host receives %r, %s transform requires %r' % (b, T[tt], cs.U(ref)))
        else:
            ref = wrap_ops(cs, tt, I(64, e['after']), ival, True, T)
            if not s.need(ref is not None, 'transform', cs, 'division transform with an undetermined divisor'): return
            bytes_eq(s, cs, cs.databytes1(cs.start, size), cs.U(ref), 'transform', 'encoded value is not the inverse %s transform of the host value' % T[tt], 64)
        return
    s.cb(cs, e, key, 'OP_IO_F64', 8)
    fac = en.cell(cs.s0, cs.run.ctx, Lin(c['o_trans_f_factor']), 8, TDbl).k
    off = en.cell(cs.s0, cs.run.ctx, Lin(c['o_trans_f_offset']), 8, TDbl).k
    if tt == c['TR_SCALE']:
        if not cs.enc:
            lin = cs.data0(cs.start, size)
            if flt:
                raw = ('bits', size, lin)
                if size == 4: raw = ('fpext', 'double', raw)
                alts = [raw]
            else:
                l = cs.run.en.S(cs.st, I(8 * size, lin)) if signed else lin
                if l is None: l = cs.run.en.sext(cs.st, I(8 * size, lin), 8 * size + 1).l
                l = cs.st.simp(l)
                alts = [('itof', 'double', l)]
                if l.isc(): alts.append(('c', float(l.c)))
            r = e['raw']
            ok = isinstance(r, F) and any(norm(r.k) == norm(('fadd', ('fmul', a, fac), off)) for a in alts)
            if not ok and isinstance(r, F): ok = match_scale(s, cs, r.k, fac, off, size, signed, flt)
            s.need(ok, 'transform', cs, lambda: 'host receives %.300r, linear scaling requires raw*factor+offset' % (r,))
        else:
            bs = cs.databytes1(cs.start, size)
            k = float_slices(bs)
            host = None
            ok = False
            if k is not None:
                arg = None
                if k[0] in ('fptosi', 'fptoui'): arg = k[2]
                elif k[0] == 'fbits': arg = k[2]
                if arg is not None:
                    if arg[0] == 'fptrunc': arg = arg[2]
                    h = norm(arg)
                    ref = norm(('fdiv', ('fsub', ('bits', 8, e['after']), off), fac))
                    ok = h == ref
            elif all(b.isc() for b in bs): ok = None
            s.need(ok, 'transform', cs, lambda: 'encoded bytes %.300r are not (value-offset)/factor' % (bs,))
    else:
        # non-linear calibration: only the plumbing is specified (numeric accuracy is out of scope)
        if cs.enc:
            bs = cs.databytes1(cs.start, size)
            ok = float_slices(bs) is not None or all(b.isc() for b in bs) or table_entry(bs)
            s.need(ok, 'transform', cs, lambda: 'encoded bytes %.200r are not one converted value in %s order' % (bs, 'LE' if cs.endian == 0 else 'BE'))


def table_entry(bs):
    """the bytes are one little-endian entry of a calibration table in the program"""
    a = [b.single() for b in bs]
    if any(x is None or x.key[0] != 'in' or x.key[1] != 'bytecode' for x in a): return False
    return all(a[i].key[2:3] == a[0].key[2:3] and a[i].key[3] == a[0].key[3] + i for i in range(len(a)))


def match_scale(s, cs, k, fac, off, size, signed, flt):
    """raw*factor+offset where raw is some integer-to-float term equal to the message value"""
    k = norm(k)
    if k[0] != 'fadd': return False
    for i in (1, 2):
        if k[3 - i] != norm(off) or k[i][0] != 'fmul': continue
        m = k[i]
        for j in (1, 2):
            if m[3 - j] != norm(fac): continue
            r = m[j]
            lin = cs.data0(cs.start, size)
            if r[0] == 'itof':
                v = r[2]
                if signed:
                    if cs.eq(v, lin) and cs.ge(Lin((1 << (8 * size - 1)) - 1) - lin): return True
                    if cs.eq(v, lin - (1 << (8 * size))): return True
                    x = cs.run.en.sext(cs.st, I(8 * size, lin), 64).l
                    return cs.eq(v, x)
                return cs.eq(v, lin)
            if r[0] == 'c': return cs.eq(lin, Lin(int(r[1]))) if r[1] >= 0 else cs.eq(lin, Lin(int(r[1]) + (1 << (8 * size))))
    return False


def sp_bool(s, cs):
    p = cs.p
    key = cs.bc(1, 2)
    short = cs.start + 1 - A(cs.run.dl) - 1
    if p.kind == 'ret':
        def oob(cs):
            t = s.trunc_reason(cs, cs.len).scale(-1) - 1
            return cs.impossible(short.scale(-1) - 1, t) and cs.impossible(t, cs.h('is_next_optional') - 1)
        def bad(cs):
            if cs.enc: return len(p.cbs) == 1 and cs.ge(p.cbs[0]['after'] - 2)
            return cs.ge(cs.data0(cs.start, 1) - 2) and not p.cbs
        s.failure(cs, {'OOB': [oob], 'CALLBACK': [True], 'VALIDATION': [bad]})
        if p.retname() == 'VALIDATION': s.nowrites(cs, 'rejected boolean must not be written')
        return
    sh = is_short(cs, 1)
    if sh is not False:
        if sh is None and not s.need(False, 'bounds', cs, 'succeeds without establishing that the item fits into the message'): return
        optional_short(s, cs, 1, key, s.op, 1); return
    s.fields(cs, dict(MODS, cursor=cs.start + 1)); s.ctxwrites(cs)
    if not s.ncb(cs, 1): return
    e = p.cbs[0]
    s.cb(cs, e, key, s.op, 1); s.cbok(cs, e)
    if cs.enc:
        s.within(cs, cs.start, cs.start + 1)
        s.need(cs.ge(Lin(1) - e['after']), 'gate', cs, 'boolean above 1 encoded')
        bytes_eq(s, cs, cs.databytes1(cs.start, 1), e['after'], 'value', 'encoded boolean is not the host value')
    else:
        s.nowrites(cs)
        d = cs.data0(cs.start, 1)
        s.need(cs.ge(Lin(1) - d), 'gate', cs, 'boolean above 1 accepted')
        s.need(isinstance(e['before'], Lin) and cs.eq(e['before'], d), 'value', cs, 'host does not receive the message byte')


# ---- bit fields
def sp_bits(s, cs):
    p = cs.p
    key = cs.bc(1, 2)
    n = Lin(1) if s.op == 'OP_IO_BIT_BOOL' else cs.bc(3)
    hs = 1 if s.op == 'OP_IO_BIT_BOOL' else 8
    pos = cs.cur0.scale(8) + cs.bo0
    end = A(cs.run.dl).scale(8)
    if p.kind == 'ret':
        def oob(cs):
            t = s.trunc_reason(cs, cs.len).scale(-1) - 1
            return cs.impossible(end - pos - n, t) and cs.impossible(t, cs.h('is_next_optional') - 1)
        al = {'OOB': [oob], 'CALLBACK': [True]}
        if hs == 1:
            al['VALIDATION'] = [lambda cs: cs.enc and len(p.cbs) == 1 and cs.ge(p.cbs[0]['after'] - 2)]
        else: al['INVALID_OP'] = [n - 65]
        s.failure(cs, al)
        if p.retname() in ('VALIDATION', 'INVALID_OP'): s.nowrites(cs, 'rejected bit field must not be written')
        return
    if hs == 8: s.need(cs.ge(Lin(64) - n), 'bounds', cs, 'bit field wider than 64 bits accepted')
    if not cs.ge(end - pos - n):
        if not s.need(cs.ge(n + pos - end - 1), 'bounds', cs, 'succeeds without establishing that the bits fit into the message'): return
        optional_short(s, cs, None, key, s.op, hs); return
    s.need(True, 'bounds', cs, '')
    bitpos(s, cs, pos + n, dict(MODS), cs.bcraw(3) if hs == 8 else ZERO); s.ctxwrites(cs)
    if not s.ncb(cs, 1): return
    e = p.cbs[0]
    s.cb(cs, e, key, s.op, hs); s.cbok(cs, e)
    if not cs.enc: s.nowrites(cs)
    elif hs == 1: s.need(cs.ge(Lin(1) - e['after']), 'gate', cs, 'boolean above 1 encoded')


def join_slices(cs, n):
    """a copy of the state relating an 8-bit operand to the slices of it the code looks at (n = n/8*8 + n%8)"""
    st = cs.st.fork()
    a = n.single()
    if a is None: return st
    x, y = bits_atom(a, 0, 3), bits_atom(a, 3, 5)
    d = Lin(0, tuple(sorted({a.id: 1, x.id: -1, y.id: -8}.items())))
    if not (st.assume(st.simp(d)) and st.assume(st.simp(d.scale(-1)))): return None
    return st


def bitpos(s, cs, want, exp, n=ZERO):
    c1, b1 = cs.f('cursor'), cs.f('bit_offset')
    got = c1.scale(8) + b1
    ok = cs.eq(got, want)
    if not ok:
        st = join_slices(cs, n)
        ok = st is None or st.decide_eq(got - want) is True or st.infeasible()
    s.need(ok, 'advance', cs, lambda: 'bit position %r after the instruction, must be %r' % (cs.st.simp(got), cs.st.simp(want)))
    s.need(cs.ge(Lin(7) - b1), 'advance', cs, 'bit offset above 7')
    s.fields(cs, dict(exp, cursor=None, bit_offset=None))


def sp_pad(s, cs):
    n = cs.bc(1)
    pos = cs.cur0.scale(8) + cs.bo0
    end = A(cs.run.dl).scale(8)
    if cs.p.kind == 'ret':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len), pos + n - end - 1]}); return
    s.need(cs.ge(end - pos - n), 'bounds', cs, 'padding beyond the end of the message accepted')
    s.ncb(cs, 0)
    bitpos(s, cs, pos + n, {}, cs.bcraw(1)); s.ctxwrites(cs)
    if not cs.enc: s.nowrites(cs)


def sp_fill(s, cs):
    pos = cs.cur0.scale(8) + cs.bo0
    end = A(cs.run.dl).scale(8)
    if cs.p.kind == 'ret':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len)]}); return
    s.ncb(cs, 0)
    if cs.eq(cs.bo0, ZERO): bitpos(s, cs, pos, {}); s.nowrites(cs)
    else: bitpos(s, cs, (cs.cur0 + 1).scale(8), {})
    s.ctxwrites(cs)
    if not cs.enc: s.nowrites(cs)


# ---- strings and raw bytes
def strlen_of(cs, e):
    """length term of the string the host handed out (None = null pointer / not a string)"""
    r = e.get('str')
    if r is None: return None
    st = cs.st
    if st.conds.get(('null', r.id)) is True: return ZERO
    for a in ATOMS.values() if isinstance(ATOMS, dict) else ATOMS:
        if a is not None and a.key[0] == 'strlen' and a.key[1] == r.id: return A(a)
    return None


def skip_optional_string(s, cs, e):
    """encode: host has no value for an optional string"""
    if cs.eq(e['rc'], ZERO): return False
    s.need(cs.ge(cs.h('is_next_optional') - 1) and cs.enc, 'cbfail', cs, 'continues after a failed callback')
    s.nowrites(cs, 'message modified after the failed callback')
    s.fields(cs, dict(MODS)); s.ctxwrites(cs)
    return True


def sp_strpre(s, cs):
    p = cs.p
    size = STRP[s.op]
    key = cs.bc(1, 2)
    dl = A(cs.run.dl)
    M = (1 << (8 * size)) - 1
    if p.kind == 'ret':
        def oob(cs):
            t = s.trunc_reason(cs, cs.len).scale(-1) - 1
            if cs.impossible(t): return True
            if cs.enc:
                if not p.cbs: return False
                L = strlen_of(cs, p.cbs[0])
                if L is None: return False
                return cs.impossible(t, dl - cs.start - size - L, Lin(M) - L) and cs.impossible(t, dl - cs.start - size - M, L - M)
            return cs.impossible(t, dl - cs.start - size, dl - cs.start - size - cs.data0(cs.start, size))
        def cbr(cs): return not (cs.enc and cs.ge(cs.h('is_next_optional') - 1))
        s.failure(cs, {'OOB': [oob], 'CALLBACK': [cbr]})
        if p.retname() == 'OOB': s.nowrites(cs, 'message modified before the length check')
        return
    if not s.ncb(cs, 1): return
    e = p.cbs[0]
    if cs.enc:
        s.cb(cs, e, key, s.op, 8)
        s.need(e['before'] is NULL, 'value', cs, 'string pointer not cleared before asking the host')
        if skip_optional_string(s, cs, e): return
        L = strlen_of(cs, e)
        if not s.need(L is not None, 'value', cs, 'length of the host string is never determined'): return
        if cs.ge(Lin(M) - L): n = L
        elif cs.ge(L - M): n = Lin(M)
        else:
            s.need(False, 'value', cs, 'string length not limited to what the prefix can express'); return
        s.need(cs.ge(dl - cs.start - size - n), 'bounds', cs, 'string written without establishing that it fits')
        s.fields(cs, dict(MODS, cursor=cs.start + size + n)); s.ctxwrites(cs)
        s.within(cs, cs.start, cs.start + size + n)
        bytes_eq(s, cs, cs.databytes1(cs.start, size), n, 'value', 'length prefix is not the string length')
        copied(s, cs, e, cs.start + size, n)
    else:
        s.cbok(cs, e)
        s.cb(cs, e, key, s.op, space='data')
        n = cs.data0(cs.start, size)
        s.need(cs.ge(dl - cs.start - size - n), 'bounds', cs, 'string accepted although its length exceeds the message')
        if e['space'] == 'data': s.need(cs.eq(e['off'], cs.start + size), 'value', cs, lambda: 'host given position %r, must be just after the prefix' % e['off'])
        s.fields(cs, dict(MODS, cursor=cs.start + size + n)); s.ctxwrites(cs)
        s.nowrites(cs)


def copied(s, cs, e, at, n):
    """the n string bytes are copied to `at`"""
    if cs.eq(n, ZERO): return
    ok = False
    for w in cs.p.wr:
        src = w.get('src')
        if isinstance(src, P) and src.r is e.get('str') and cs.eq(src.o, ZERO) and cs.eq(w['off'], at) and cs.eq(w['n'], n): ok = True
    s.need(ok, 'value', cs, 'string bytes are not copied to the message in full')


def sp_strnull(s, cs):
    p = cs.p
    key = cs.bc(1, 2); mx = cs.bc(3, 2)
    dl = A(cs.run.dl)
    if p.kind == 'ret':
        t = s.trunc_reason(cs, cs.len).scale(-1) - 1
        def oob(cs):
            if cs.impossible(t): return True
            if cs.enc:
                if not p.cbs: return False
                L = strlen_of(cs, p.cbs[0])
                if L is None: return False
                return cs.impossible(t, dl - cs.start - L - 1, mx - L) and cs.impossible(t, dl - cs.start - mx - 1, L - mx)
            # no terminator in the rest of the message
            for k, v in cs.st.conds.items():
                if k[0] == 'memchr_none':
                    q, l = v
                    if q.r is cs.run.data and cs.eq(q.o, cs.start) and cs.ge(l - dl + cs.start): return True
            return cs.impossible(dl - cs.start - 1, t)
        def val(cs):
            if cs.enc: return False
            b = cs.st.simp(cs.run.en.U(cs.st, cs.run.en.cell(cs.s0, cs.run.data, cs.start + mx, 1, T1)))
            return cs.ne(b, ZERO) and any(k[0] == 'memchr_none' and v[0].r is cs.run.data and cs.eq(v[0].o, cs.start) for k, v in cs.st.conds.items())
        def cbr(cs): return not (cs.enc and cs.ge(cs.h('is_next_optional') - 1))
        s.failure(cs, {'OOB': [oob], 'CALLBACK': [cbr], 'VALIDATION': [val]})
        return
    if not s.ncb(cs, 1): return
    e = p.cbs[0]
    if cs.enc:
        s.cb(cs, e, key, s.op, 8)
        s.need(e['before'] is NULL, 'value', cs, 'string pointer not cleared before asking the host')
        if skip_optional_string(s, cs, e): return
        L = strlen_of(cs, e)
        if not s.need(L is not None, 'value', cs, 'length of the host string is never determined'): return
        if cs.ge(mx - L): n = L
        elif cs.ge(L - mx): n = mx
        else:
            s.need(False, 'value', cs, 'string length not limited to max_len'); return
        s.need(cs.ge(dl - cs.start - n - 1), 'bounds', cs, 'string written without establishing that it fits')
        s.fields(cs, dict(MODS, cursor=cs.start + n + 1)); s.ctxwrites(cs)
        s.within(cs, cs.start, cs.start + n + 1)
        copied(s, cs, e, cs.start, n)
        z = cs.U(cs.run.en.cell(cs.st, cs.run.data, cs.start + n, 1, T1))
        s.need(cs.eq(z, ZERO), 'value', cs, lambda: 'byte after the string is %r, must be the terminator' % z)
    else:
        s.cbok(cs, e)
        s.cb(cs, e, key, s.op, space='data')
        if e['space'] == 'data': s.need(cs.eq(e['off'], cs.start), 'value', cs, 'host not given the start of the string')
        s.nowrites(cs)
        cur = cs.f('cursor')
        n = cs.st.simp(cur - cs.start - 1)
        s.need(cs.ge(dl - cur) and cs.ge(n), 'bounds', cs, 'string runs past the message')
        s.need(cs.ge(mx - n), 'bounds', cs, lambda: 'accepts a string of %r bytes, more than max_len' % n)
        # the consumed string ends with its first terminator
        z = cs.st.simp(cs.run.en.U(cs.st, cs.run.en.cell(cs.s0, cs.run.data, cur - 1, 1, T1)))
        first = False
        for k, v in cs.st.conds.items():
            if k[0] == 'memchr_first' and v[0].r is cs.run.data and cs.eq(v[0].o, cs.start) and cs.eq(v[1], n): first = True
            if k[0] == 'memchr_none' and v[0].r is cs.run.data and cs.eq(v[0].o, cs.start) and cs.ge(v[1] - n): first = True
        s.need(cs.eq(z, ZERO) or first and cs.eq(z, ZERO), 'value', cs, 'the byte consumed as terminator is not zero: the host sees an unterminated string')
        s.need(first or cs.eq(n, ZERO), 'value', cs, 'string does not end at its first terminator')
        s.fields(cs, dict(MODS, cursor=None)); s.ctxwrites(cs)


def sp_raw(s, cs):
    p = cs.p
    key = cs.bc(1, 2); n = cs.bc(3, 4)
    dl = A(cs.run.dl)
    if p.kind == 'ret':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len), cs.start + n - dl - 1], 'CALLBACK': [True]}); return
    if not s.ncb(cs, 1): return
    e = p.cbs[0]
    s.cbok(cs, e); s.cb(cs, e, key, s.op, space='data')
    if e['space'] == 'data': s.need(cs.eq(e['off'], cs.start), 'value', cs, 'host not given the current position')
    s.need(cs.ge(dl - cs.start - n), 'bounds', cs, 'raw bytes beyond the end of the message')
    s.fields(cs, dict(MODS, cursor=cs.start + n)); s.ctxwrites(cs); s.nowrites(cs)


# ---- constants, checks
def sp_constwrite(s, cs):
    p = cs.p
    if cs.ty is None:
        s.failure(cs, {'INVALID_OP': [True], 'OOB': [lambda cs: not cs.ge(A(cs.run.bl) - cs.run.po - 2)]}); return
    dl = A(cs.run.dl)
    if p.kind == 'ret':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len), cs.start + cs.sz - dl - 1]}); return
    s.ncb(cs, 0)
    s.need(cs.ge(dl - cs.start - cs.sz), 'bounds', cs, 'constant beyond the end of the message')
    s.fields(cs, dict(MODS, cursor=cs.start + cs.sz)); s.ctxwrites(cs)
    if cs.enc:
        s.within(cs, cs.start, cs.start + cs.sz)
        bytes_eq(s, cs, cs.databytes1(cs.start, cs.sz), cs.bc(2, cs.sz), 'value', 'constant written differs from the operand')
    else: s.nowrites(cs, 'decoding must not modify the message')


def sp_constcheck(s, cs):
    p = cs.p
    if cs.ty is None:
        s.failure(cs, {'INVALID_OP': [True], 'OOB': [lambda cs: not cs.ge(A(cs.run.bl) - cs.run.po - 4)]}); return
    dl = A(cs.run.dl); n = cs.sz
    want = cs.bc(4, n)
    if p.kind == 'ret':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len), cs.start + n - dl - 1], 'CALLBACK': [lambda cs: not cs.enc],
                       'VALIDATION': [lambda cs: not cs.enc and cs.ne(cs.data0(cs.start, n), want)]}); return
    s.need(cs.ge(dl - cs.start - n), 'bounds', cs, 'constant beyond the end of the message')
    s.fields(cs, dict(MODS, cursor=cs.start + n)); s.ctxwrites(cs)
    if cs.enc:
        s.ncb(cs, 0); s.within(cs, cs.start, cs.start + n)
        bytes_eq(s, cs, cs.databytes1(cs.start, n), want, 'value', 'constant written differs from the operand')
    else:
        s.nowrites(cs)
        s.need(cs.eq(cs.data0(cs.start, n), want), 'gate', cs, 'message differing from the constant accepted')
        if s.ncb(cs, 1):
            e = p.cbs[0]
            s.cb(cs, e, cs.bc(1, 2), 'OP_IO_' + cs.ty, n); s.cbok(cs, e)
            s.need(isinstance(e['before'], Lin) and cs.eq(e['before'], want), 'value', cs, 'host not told the constant')


def sp_range(s, cs):
    p = cs.p
    if cs.ty is None:
        s.failure(cs, {'INVALID_OP': [True], 'OOB': [lambda cs: not cs.ge(A(cs.run.bl) - cs.run.po - 2)]}); return
    n = cs.sz
    lo, hi = cs.bc(2, n), cs.bc(2 + n, n)
    s.ncb(cs, 0); s.nowrites(cs)
    if p.kind == 'ret' and p.retname() == 'OOB':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len), Lin(n - 1) - cs.cur0]}); return
    if p.kind == 'ret' and p.retname() != 'VALIDATION':
        s.failure(cs, {}); return
    if not cs.ge(cs.cur0 - n):
        s.need(False, 'bounds', cs, 'checks a value before the start of the message'); return
    v = cs.data0(cs.cur0 - n, n)
    if cs.ty in ('F32', 'F64'):
        k = lambda l: ('bits', n, cs.st.simp(l))
        fv, fl, fh = k(v), k(lo), k(hi)
        def cmp(a, b):
            """a <= b known true/false on this path?"""
            for (x, y) in ((a, b),):
                r = fle(cs, x, y, n)
                return r
        a, b = cmp(fl, fv), cmp(fv, fh)
        if p.kind == 'ret': s.need(a is False or b is False, 'gate', cs, 'value inside the range rejected (or NaN undecided)')
        else: s.need(a is True and b is True, 'gate', cs, 'value outside the range (or NaN) accepted')
    else:
        signed = cs.ty[0] == 'I'
        if signed:
            ok = signed_range(s, cs, v, lo, hi, n, p.kind == 'next')
        else:
            if p.kind == 'next': ok = cs.ge(v - lo) and cs.ge(hi - v)
            else: ok = cs.impossible(v - lo, hi - v)
        s.need(ok, 'gate', cs, 'value inside the range rejected' if p.kind == 'ret' else 'value outside the range accepted')
    if p.kind == 'next':
        s.fields(cs, {}); s.ctxwrites(cs)


def signed_range(s, cs, v, lo, hi, n, inside):
    """signed lo <= v <= hi, by splitting on the three sign bits"""
    H = 1 << (8 * n - 1)
    if n < 8:
        en = cs.run.en
        a, b, c = [en.sext(cs.st, I(8 * n, cs.st.simp(l)), 64).l for l in (v, lo, hi)]
        if inside:
            if cs.ge(a - b) and cs.ge(c - a): return True
        elif cs.impossible(a - b, c - a): return True
    def parts(st, l):
        out = []
        a = st.fork()
        if a.assume(Lin(H - 1) - l): out.append((a, l))
        b = st.fork()
        if b.assume(l - H): out.append((b, l - 2 * H))
        return out
    for s1, a in parts(cs.st, v):
        for s2, b in parts(s1, lo):
            for s3, c in parts(s2, hi):
                if s3.infeasible(): continue
                if inside:
                    if not (s3.prove(a - b) and s3.prove(c - a)): return False
                else:
                    t = s3.fork()
                    if t.assume(a - b) and t.assume(c - a) and not t.infeasible(): return False
    return True


def fle(cs, x, y, n):
    """is (x <= y) recorded on the path?  x,y are 'bits' keys"""
    for k, v in cs.st.conds.items():
        if k[0] != 'fcmp': continue
        pr, a, b = k[1], k[2].k, k[3].k
        a, b = strip(a), strip(b)
        if (pr == 'ole' and feq(cs, a, x) and feq(cs, b, y)): return v
        if (pr == 'olt' and feq(cs, a, y) and feq(cs, b, x)):
            # y < x: true means not (x <= y); false says nothing about NaN
            if v: return False
    return None


def strip(k):
    return k[2] if k[0] == 'fpext' else k


def feq(cs, a, b):
    if a == b: return True
    return a[0] == 'bits' and b[0] == 'bits' and a[1] == b[1] and isinstance(a[2], Lin) and cs.eq(a[2], b[2])


def sp_enum(s, cs):
    p = cs.p
    if cs.ty is None:
        s.failure(cs, {'INVALID_OP': [True], 'OOB': [lambda cs: not cs.ge(A(cs.run.bl) - cs.run.po - 4)]}); return
    n = cs.sz
    s.ncb(cs, 0); s.nowrites(cs)
    if p.kind == 'ret' and p.retname() == 'OOB':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len), Lin(n - 1) - cs.start]}); return
    if p.kind == 'ret' and p.retname() != 'VALIDATION':
        s.failure(cs, {}); return
    if p.kind == 'next':
        s.need(cs.ge(cs.start - n), 'bounds', cs, 'checks a value before the start of the message')
        s.fields(cs, {}); s.ctxwrites(cs)
        # some table entry inside the operand equals the value just before the cursor
        v = cs.data0(cs.start - n, n)
        ok = enum_member(s, cs, v, n) or enum_scan(s, cs, v, n, True)
        s.need(ok, 'gate', cs, 'accepted without having found the value in the list')
    else:
        if not cs.ge(cs.start - n):
            s.need(False, 'bounds', cs, 'checks a value before the start of the message'); return
        s.need(cs.ge(cs.bc(2, 2).scale(-1)) or enum_scan(s, cs, cs.data0(cs.start - n, n), n, False), 'gate', cs,
               'rejected without having compared the value with the whole list')


def enum_scan(s, cs, v, n, accept):
    """a loop over the list: accept = a flag is set that only an equal entry sets; reject = all entries were compared,
    each different or recorded in a flag that is still clear"""
    en = cs.run.en; cnt = cs.bc(2, 2); po = cs.run.po
    def equal(bs, k):
        ent = ZERO
        for i in range(n):
            ent = ent + en.U(bs, en.cell(cs.s0, cs.run.bc, po + 4 + k.scale(n) + i, 1, T1)).scale(1 << (8 * i))
        r = bs.decide_eq(bs.simp(ent) - bs.simp(v))
        if r is None and n < 8:
            x, y = [en.sext(bs, I(8 * n, bs.simp(l)), 64).l for l in (ent, v)]
            r = bs.decide_eq(x - y)
        return r
    def lin(bs, m, a):
        x = m.get(a)
        return bs.simp(en.U(bs, x)) if isinstance(x, I) else None
    for li in path_loops(cs):
        K = A(li.k)
        flags = []
        for a in li.init:
            i0 = li.init[a]
            if not isinstance(i0, I) or li.entry.decide_eq(en.U(li.entry, i0)) is not True: continue
            f = cs.st.decide_eq(A(ATOMS[a]))
            if f is (False if accept else True): flags.append(a)
        eqs = [(bs, m, equal(bs, K)) for bs, m in li.backs]
        if accept:
            for a in flags:
                ok = True
                for bs, m, e in eqs:
                    nv = lin(bs, m, a)
                    if nv is None: ok = False
                    elif bs.decide_eq(nv - A(ATOMS[a])) is True: pass
                    elif e is True and bs.prove(cnt - K - 1): pass
                    else: ok = False
                if ok: return True
        else:
            if not cs.ge(K - cnt): continue
            ok = True
            for bs, m, e in eqs:
                if e is False: continue
                if e is not True or not any(lin(bs, m, a) is not None and bs.decide_eq(lin(bs, m, a)) is False for a in flags): ok = False
            if ok and all(all(lin(bs, m, a) is not None and bs.prove(lin(bs, m, a) - A(ATOMS[a])) for bs, m, _ in eqs) for a in flags): return True
    return False


def enum_member(s, cs, v, n):
    """an equality fact (value == table entry at a position inside the list) is known on the path"""
    po = cs.run.po
    cnt = cs.bc(2, 2)
    offs = bc_offs(cs)
    for o in offs:
        ent = ZERO
        en = cs.run.en
        for i in range(n):
            ent = ent + en.U(cs.st, en.cell(cs.s0, cs.run.bc, o + i, 1, T1)).scale(1 << (8 * i))
        d = o - po - 4
        if not cs.eq(ent, v):
            if n == 8: continue
            x, y = [en.sext(cs.st, I(8 * n, cs.st.simp(l)), 64).l for l in (ent, v)]
            if not cs.eq(x, y): continue
        if not (cs.ge(d) and cs.ge(cnt.scale(n) - d - n)): continue
        # aligned to an entry
        if n == 1 or all(k % n == 0 for _, k in cs.st.simp(d).t) and cs.st.simp(d).c % n == 0: return True
    return False


def bc_off(a, region):
    ky = ATOMS[a].key
    while ky[0] == 'bits': ky = ATOMS[ky[1]].key
    if ky[0] == 'in' and ky[2] == region.id: return ky[3]
    return None


def bc_offs(cs):
    """bytecode positions mentioned by what is known on the path"""
    out = set()
    def visit(lin):
        for a, k in lin.t:
            o = bc_off(a, cs.run.bc)
            if o is not None: out.add(o)
            ky = ATOMS[a].key
            for x in ky:
                if isinstance(x, Lin): visit(x)
    for f in cs.st.facts: visit(f)
    for a in list(cs.st.bnd): visit(A(ATOMS[a]))
    return sorted(out, key=repr)


def sp_crc(s, cs):
    p = cs.p
    n = 2 if s.op == 'OP_CRC_16' else 4
    dl = A(cs.run.dl)
    s.ncb(cs, 0)
    if p.kind == 'ret':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len), cs.start + n - dl - 1], 'CRC_MISMATCH': [lambda cs: not cs.enc]})
        s.nowrites(cs); return
    s.need(cs.ge(dl - cs.start - n), 'bounds', cs, 'checksum beyond the end of the message')
    s.fields(cs, dict(MODS, cursor=cs.start + n)); s.ctxwrites(cs)
    if cs.enc:
        s.within(cs, cs.start, cs.start + n)
        s.need(len([w for w in p.wr]) > 0, 'value', cs, 'no checksum written')
    else:
        s.nowrites(cs)
        # the stored checksum is compared: the path pins the message bytes
        v = cs.data0(cs.start, n)
        pinned = crc_pinned(cs, v, n)
        s.need(pinned, 'gate', cs, 'message accepted without comparing the stored checksum')


def crc_pinned(cs, v, n):
    """v is equal to some value not derived from v itself on this path"""
    ats = set(a for a, _ in v.t)
    if cs.st.simp(v).isc(): return True
    for f in cs.st.facts:
        fa = set(a for a, _ in f.t)
        if ats <= fa:
            g = f.scale(-1)
            rest = None
            # f: v - x >= 0 or x - v >= 0 ; equality when both hold
            if cs.ge(g): return True
    return False


# ---- arrays
def frame_off(s, d): return Lin(s.vm.c['o_loop_stack']) + d.scale(s.vm.c['frame'])


def sp_array(s, cs):
    p = cs.p; c = s.vm.c
    dl = A(cs.run.dl)
    ops = s.vm.ops
    cbs = p.cbs
    d0 = cs.h('loop_depth')
    t = s.trunc_reason(cs, cs.len).scale(-1) - 1
    size = ARRP.get(s.op, 0)
    i = 0
    # callbacks of the header
    hdr = []
    if s.op == 'OP_ARR_DYNAMIC': hdr = ['query', 'hdr']
    elif s.op == 'OP_ARR_EOF': hdr = []
    else: hdr = ['hdr']
    nh = len(hdr)
    bad = p.kind == 'ret' and p.retname() in ('CALLBACK',)
    count = None
    for j, h in enumerate(hdr):
        if j >= len(cbs): break
        e = cbs[j]
        last = j == len(cbs) - 1
        if h == 'query': s.cb(cs, e, cs.bc(3, 2), 'OP_CTX_QUERY', 8)
        else:
            s.cb(cs, e, cs.bc(1, 2), s.op, {'OP_ARR_FIXED': 4, 'OP_ARR_DYNAMIC': 4}.get(s.op, size))
            count = e['after']
            b = e['before']
            if s.op == 'OP_ARR_FIXED': s.need(isinstance(b, Lin) and cs.eq(b, cs.bc(3, 4)), 'value', cs, 'host not told the fixed element count')
            elif s.op == 'OP_ARR_DYNAMIC': s.need(isinstance(b, Lin) and cs.eq(b, cbs[0]['after']), 'value', cs, 'host not told the queried element count')
            elif not cs.enc: s.need(isinstance(b, Lin) and cs.eq(b, cs.data0(cs.start, size)), 'value', cs, 'host not told the element count in the message')
        if not (bad and last): s.cbok(cs, e)
    fast = cbs[nh] if len(cbs) > nh else None
    if fast is not None:
        # bulk transfer of a byte array
        s.need(len(cbs) == nh + 1, 'callback', cs, 'unexpected host callbacks in an array header')
        nx = cs.run.po + cs.len
        en = cs.run.en
        bcat = lambda o: cs.st.simp(en.U(cs.st, en.cell(cs.st, cs.run.bc, nx + o, 1, T1)))
        s.cb(cs, fast, bcat(1) + bcat(2).scale(256), 'OP_RAW_BYTES', space='data')
        s.need(cs.impossible(bcat(0) - ops['OP_IO_U8'] - 1, Lin(ops['OP_IO_I8'] - 1) - bcat(0)) and cs.ge(bcat(0) - ops['OP_IO_U8']) and cs.ge(Lin(ops['OP_IO_I8']) - bcat(0))
               and cs.eq(bcat(3), Lin(ops['OP_ARR_END'])), 'loop', cs, 'bulk transfer of an array whose body is not exactly one byte field')
        if fast['space'] == 'data':
            s.need(cs.eq(fast['off'], cs.start + size), 'value', cs, 'bulk transfer not at the current position')
            s.need(count is not None and cs.ge(dl - cs.start - size - count), 'bounds', cs, 'bulk transfer beyond the end of the message')
    cnt = count
    # prefix
    def prefix(where):
        if not size: return
        s.need(cs.ge(dl - cs.start - size), 'bounds', cs, 'element count outside the message')
        if cs.enc and fast is None: bytes_eq(s, cs, cs.databytes1(cs.start, size), cnt, 'value', 'element count written differs from the host value')
    if p.kind == 'ret':
        rn = p.retname()
        al = {'CALLBACK': [lambda cs: bool(cbs)]}
        def oob(cs):
            if cs.impossible(t): return True
            if size and cs.impossible(t, dl - cs.start - size): return True
            if s.op == 'OP_ARR_EOF': return cs.impossible(dl - cs.start - 1) or True
            if cnt is None: return False
            if cs.eq(cnt, ZERO): return True           # malformed body
            # no frame left / reserved count
            return cs.impossible(Lin(c['LDEPTH'] - 1) - d0, cnt - 1, Lin(0xFFFFFFFE) - cnt)
        al['OOB'] = [oob]
        al['INVALID_OP'] = [lambda cs: s.op == 'OP_ARR_EOF' and cs.ge(cs.start - dl) or cnt is not None and cs.eq(cnt, ZERO)]
        if s.op == 'OP_ARR_EOF': al['STACK_OVERFLOW'] = [d0 - c['LDEPTH']]
        if s.op == 'OP_ARR_DYNAMIC': al['ARITHMETIC'] = [lambda cs: len(cbs) == 1 and cs.ge(cbs[0]['after'] - 0x100000000)]
        s.failure(cs, al)
        return
    s.need(len(cbs) >= nh, 'callback', cs, 'array header does not call the host')
    if len(cbs) < nh: return
    if s.op == 'OP_ARR_DYNAMIC': s.need(cs.ge(Lin(0xFFFFFFFF) - cbs[0]['after']), 'value', cs, 'element count truncated to 32 bits')
    if not cs.enc: s.nowrites(cs)
    else: s.within(cs, cs.start, cs.start + size)
    if fast is not None and cs.eq(fast['rc'], ZERO):
        s.fields(cs, dict(MODS, cursor=cs.start + size + cnt, pc=cs.run.po + cs.len + 4)); s.ctxwrites(cs)
        return
    prefix('')
    if s.op == 'OP_ARR_EOF': zero = cs.ge(cs.start - dl); some = cs.ge(dl - cs.start - 1)
    else: zero = cs.eq(cnt, ZERO); some = cs.ge(cnt - 1)
    if not s.need(zero or some, 'loop', cs, 'array entered without deciding whether it has elements'): return
    if zero:
        s.need(fast is None, 'loop', cs, 'bulk transfer of an empty array')
        s.fields(cs, {'cursor': cs.start + size, 'pc': None})
        s.need(cs.p.pc is not None and cs.ge(cs.p.pc - cs.run.po - cs.len - 1), 'loop', cs, 'empty array: body not skipped')
        skip_end(s, cs)
        s.ctxwrites(cs)
        return
    s.fields(cs, {'cursor': cs.start + size, 'loop_depth': d0 + 1})
    fo = frame_off(s, d0)
    s.ctxwrites(cs, [(fo, c['frame'])])
    en = cs.run.en
    ip = cs.U(en.cell(cs.st, cs.run.ctx, fo + c['lo_start_ip'], 8, T8))
    rem = cs.U(en.cell(cs.st, cs.run.ctx, fo + c['lo_remaining'], 4, T4))
    s.need(cs.eq(ip, cs.run.po + cs.len), 'loop', cs, lambda: 'loop body start recorded as %r' % ip)
    if s.op == 'OP_ARR_EOF': s.need(cs.eq(rem, Lin(0xFFFFFFFF)), 'loop', cs, 'end-of-message array not marked as such')
    else:
        s.need(cs.eq(rem, cnt), 'loop', cs, lambda: 'iteration count recorded as %r, must be %r' % (rem, cnt))
        s.need(cs.ge(Lin(0xFFFFFFFE) - rem), 'loop', cs, 'element count collides with the end-of-message marker')


def skip_end(s, cs):
    """the walk over the body of an empty array began at the body and stopped right behind the matching end"""
    lis = [li for li in path_loops(cs) if li.pos is not None]
    if not s.need(bool(lis), 'loop', cs, 'empty array: the body is not stepped over instruction by instruction'): return
    ok = False
    for li in lis:
        if li.depth is None: return
        en = cs.run.en
        v0 = li.init[li.pos]; o0 = v0.o if isinstance(v0, P) else en.U(li.entry, v0)
        if li.entry.decide_eq(o0 - cs.run.po - cs.len) is not True: continue
        x = A(ATOMS[li.pos]); d = A(ATOMS[li.depth]) - li.base + 1
        if cs.eq(cs.p.pc, x) and cs.eq(d, ZERO): ok = True
        op = cs.st.simp(en.U(cs.st, en.cell(cs.st, cs.run.bc, x, 1, T1)))
        if cs.eq(cs.p.pc, x + 1) and cs.eq(d, Lin(1)) and cs.eq(op, Lin(s.vm.ops['OP_ARR_END'])): ok = True
    s.need(ok, 'loop', cs, 'empty array: execution does not continue right behind the matching array end')


def sp_arrend(s, cs):
    p = cs.p; c = s.vm.c
    d0 = cs.h('loop_depth')
    en = cs.run.en
    if p.kind == 'ret':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len)], 'CALLBACK': [lambda cs: len(p.cbs) == 1], 'INVALID_OP': [d0.scale(-1)]}); return
    if not s.need(cs.ge(d0 - 1), 'loop', cs, 'array end without an open array accepted'): return
    fo = frame_off(s, d0 - 1)
    ip0 = cs.U(en.cell(cs.s0, cs.run.ctx, fo + c['lo_start_ip'], 8, T8))
    r0 = cs.U(en.cell(cs.s0, cs.run.ctx, fo + c['lo_remaining'], 4, T4))
    r1 = cs.U(en.cell(cs.st, cs.run.ctx, fo + c['lo_remaining'], 4, T4))
    ip1 = cs.U(en.cell(cs.st, cs.run.ctx, fo + c['lo_start_ip'], 8, T8))
    s.ctxwrites(cs, [(fo + c['lo_remaining'], 4)])
    s.nowrites(cs)
    E = Lin(0xFFFFFFFF)
    eof = cs.eq(r0, E); cnt = cs.ge(Lin(0xFFFFFFFE) - r0)
    if not s.need(eof or cnt, 'loop', cs, 'array end does not tell counted from end-of-message arrays apart'): return
    # continue or finish
    if p.cbs:
        s.ncb(cs, 1); e = p.cbs[0]
        s.cb(cs, e, ZERO, 'OP_ARR_END', space='null'); s.cbok(cs, e)
        s.fields(cs, {'loop_depth': d0 - 1})
        if eof: s.need(cs.ge(cs.start - A(cs.run.dl)), 'loop', cs, 'end-of-message array ended before the end of the message')
        else: s.need(cs.ge(Lin(1) - r0), 'loop', cs, 'array ended with iterations left')
    else:
        s.fields(cs, {'pc': ip0})
        s.need(cs.eq(ip1, ip0), 'loop', cs, 'loop body start changed')
        if eof:
            s.need(cs.ge(A(cs.run.dl) - cs.start - 1), 'loop', cs, 'end-of-message array continues at the end of the message')
            s.need(cs.eq(r1, E), 'loop', cs, 'end-of-message marker lost')
        else:
            s.need(cs.ge(r0 - 2), 'loop', cs, 'array continues after its last iteration')
            s.need(cs.eq(r1, r0 - 1), 'loop', cs, lambda: 'remaining iterations %r, must be one less than %r' % (r1, r0))


# ---- control flow
def s32(cs, lin):
    return cs.run.en.sext(cs.st, I(32, lin), 64).l


def jump_target(s, cs, rel, base):
    """signed 32-bit relative target"""
    H = 1 << 31
    if cs.ge(Lin(H - 1) - rel): return base + rel
    if cs.ge(rel - H): return base + rel - 2 * H
    return None


def do_jump(s, cs, rel, base):
    tgt = jump_target(s, cs, rel, base)
    if tgt is None:
        # not decided on this path: both signs
        H = 1 << 31
        ok = True
        for neg in (0, 1):
            st = cs.st.fork()
            if not (st.assume(rel - H) if neg else st.assume(Lin(H - 1) - rel)) or st.infeasible(): continue
            c2 = Case(s, cs.p, st, cs.mode, cs.endian, cs.mis); c2.len = cs.len
            do_jump(s, c2, rel, base)
        return
    if cs.p.kind == 'ret':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len), tgt.scale(-1) - 1, tgt - A(cs.run.bl) - 1]}); return
    s.need(cs.ge(tgt) and cs.ge(A(cs.run.bl) - tgt), 'branch', cs, 'jump target outside the program accepted')
    s.need(cs.p.pc is not None and cs.eq(cs.p.pc, tgt), 'branch', cs, lambda: 'continues at %r, target is %r' % (cs.p.pc, cs.st.simp(tgt)))


def sp_jump(s, cs):
    s.ncb(cs, 0); s.nowrites(cs)
    do_jump(s, cs, cs.bc(1, 4), cs.run.po + 5)
    if cs.p.kind == 'next': s.fields(cs, {'pc': None}); s.ctxwrites(cs)


def stack_at(s, cs, i, st=None):
    """expression stack slot i (Lin), in state st"""
    return cs.U(cs.run.en.cell(st or cs.st, cs.run.ctx, Lin(s.vm.c['o_expr_stack']) + i.scale(8), 8, T8))


def sp_jin(s, cs):
    sp = cs.h('expr_sp')
    s.ncb(cs, 0); s.nowrites(cs)
    if cs.p.kind == 'ret' and cs.p.retname() == 'STACK_UNDERFLOW':
        s.failure(cs, {'STACK_UNDERFLOW': [sp.scale(-1)]}); return
    if cs.ge(sp.scale(-1)):
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len)]}) if cs.p.kind == 'ret' else s.need(False, 'stack', cs, 'pops an empty stack')
        return
    if cs.p.kind == 'ret' and cs.impossible(s.trunc_reason(cs, cs.len).scale(-1) - 1):
        s.need(True, 'errcode', cs, ''); return
    if not s.need(cs.ge(sp - 1), 'stack', cs, 'pops an empty stack'): return
    cond = stack_at(s, cs, sp - 1, cs.s0)
    z = cs.st.decide_eq(cond)
    if not s.need(z is not None, 'branch', cs, 'branch does not depend on the popped condition'): return
    if z: do_jump(s, cs, cs.bc(1, 4), cs.run.po + 5)
    elif cs.p.kind == 'ret': s.failure(cs, {})
    if cs.p.kind == 'next':
        s.fields(cs, {'pc': None if z else cs.run.po + 5, 'expr_sp': sp - 1}); s.ctxwrites(cs)


def sp_switch(s, cs):
    p = cs.p
    dense = s.op == 'OP_SWITCH_TABLE'
    base = cs.run.po + 7
    tab = base + cs.bc(3, 4)
    bl = A(cs.run.bl)
    en = cs.run.en
    def u(off, n):
        r = ZERO
        for i in range(n): r = r + en.U(cs.st, en.cell(cs.s0, cs.run.bc, off + i, 1, T1)).scale(1 << (8 * i))
        return cs.st.simp(r)
    if p.cbs:
        s.ncb(cs, 1)
        e = p.cbs[0]
        s.cb(cs, e, cs.bc(1, 2), 'OP_CTX_QUERY', 8)
        s.need(isinstance(e['before'], Lin) and cs.eq(e['before'], ZERO), 'value', cs, 'discriminator not cleared before asking the host')
    s.nowrites(cs)
    if p.kind == 'ret':
        # OOB: truncated / table outside / target outside
        s.failure(cs, {'OOB': [lambda cs: switch_oob(s, cs, dense, base, tab, u)], 'CALLBACK': [lambda cs: len(p.cbs) == 1]}); return
    if not s.need(len(p.cbs) == 1, 'callback', cs, 'switch does not ask for the discriminator'): return
    s.cbok(cs, e)
    s.fields(cs, {'pc': None}); s.ctxwrites(cs)
    d = e['after']
    s.need(cs.ge(bl - p.pc) and cs.ge(p.pc), 'branch', cs, 'switch target outside the program')
    if dense:
        mn, mx = u(tab, 8), u(tab + 8, 8)
        s.need(cs.ge(bl - tab - 20), 'branch', cs, 'switch table header outside the program')
        if cs.ge(d - mn) and cs.ge(mx - d): ent = tab + 20 + (d - mn).scale(4)
        elif cs.impossible(d - mn, mx - d): ent = tab + 16
        else:
            s.need(False, 'branch', cs, 'dense switch does not decide whether the value is in range'); return
        s.need(cs.ge(bl - ent - 4), 'branch', cs, 'switch entry outside the program')
        rel = u(ent, 4)
        jt(s, cs, rel, base)
    else:
        s.need(cs.ge(bl - tab - 6), 'branch', cs, 'switch table header outside the program')
        sparse(s, cs, d, tab, base, u)


def path_loops(cs):
    ids = set(a for f in cs.st.facts for a, _ in f.t) | set(cs.st.bnd)
    return [li for li in cs.run.loops if li.k.id in ids or any(a in ids for a in li.init)]


def sparse(s, cs, d, tab, base, u):
    """the target is that of a case equal to the discriminator, or the default when there is none"""
    cnt = u(tab, 2); dflt = u(tab + 2, 4)
    rel = cs.st.simp(cs.p.pc - base)
    if sparse_target(s, cs, d, tab, base, u): return
    lis = path_loops(cs)
    var = li = None
    for a, k in rel.t:
        for x in lis:
            if k == 1 and a in x.init: var, li = a, x
    if var is not None:
        jt(s, cs, A(ATOMS[var]), base)
        i0 = li.init[var]
        s.need(isinstance(i0, I) and li.entry.decide_eq(cs.run.en.U(li.entry, i0) - dflt) is True, 'branch', cs, 'switch target does not start out as the default')
    else:
        jt(s, cs, dflt, base)
        lis = [x for x in lis if any(True for _ in x.backs)]
        li = lis[0] if lis else None
    if li is None:
        s.need(cs.ge(cnt.scale(-1)), 'branch', cs, 'default taken without looking at the cases'); return
    flags = [a for a in li.init if a != var]
    def settled(st): return any(st.decide_eq(A(ATOMS[a])) is False or st.decide_eq(A(bits_atom(ATOMS[a], 0, 1))) is False for a in flags)
    s.need(cs.ge(A(li.k) - cnt) or settled(cs.st), 'branch', cs, 'default taken before all cases were compared')
    for bs, m in li.backs:
        c2 = Case(s, cs.p, bs, cs.mode, cs.endian, cs.mis)
        e0 = tab + 6 + A(li.k).scale(12)
        nv = m.get(var)
        if var is not None and not (isinstance(nv, I) and bs.decide_eq(cs.run.en.U(bs, nv) - A(ATOMS[var])) is True):
            ok = isinstance(nv, I) and bs.decide_eq(u(e0, 8) - d) is True and bs.decide_eq(cs.run.en.U(bs, nv) - u(e0 + 8, 4)) is True
            s.need(ok, 'branch', cs, 'switch takes the target of a case that is not the discriminator')
        else:
            s.need(bs.decide_eq(u(e0, 8) - d) is False or settled(bs), 'branch', cs, 'switch passes over a case equal to the discriminator')


def jt(s, cs, rel, base):
    H = 1 << 31
    for neg in (0, 1):
        st = cs.st.fork()
        if not (st.assume(rel - H) if neg else st.assume(Lin(H - 1) - rel)) or st.infeasible(): continue
        tgt = base + rel - (2 * H if neg else 0)
        s.need(st.decide_eq(cs.p.pc - tgt) is True, 'branch', cs, lambda: 'switch continues at %r, must be %r' % (st.simp(cs.p.pc), st.simp(tgt)))


def sparse_target(s, cs, d, tab, base, u):
    """target provably comes from a matching entry"""
    rel = cs.st.simp(cs.p.pc - base)
    cnt = u(tab, 2)
    for o in bc_offs(cs):
        x = cs.st.simp(o - tab - 6)
        if not x.t or not all(k % 12 == 0 for _, k in x.t) or x.c % 12: continue
        if not cs.eq(u(o, 8), d) or not (cs.eq(rel, u(o + 8, 4)) or cs.eq(rel + (1 << 32), u(o + 8, 4))): continue
        if not (cs.ge(x) and cs.ge(cnt.scale(12) - x - 12)): continue
        jt(s, cs, u(o + 8, 4), base)
        return True
    return False


def switch_oob(s, cs, dense, base, tab, u):
    bl = A(cs.run.bl)
    t = s.trunc_reason(cs, cs.len).scale(-1) - 1
    if cs.impossible(t): return True
    hd = 20 if dense else 6
    if cs.impossible(bl - tab - hd): return True
    if dense:
        mn, mx = u(tab, 8), u(tab + 8, 8)
        # table too large for the program (or inverted bounds)
        if cs.impossible(bl - tab - 20 - (mx - mn + 1).scale(4), mx - mn): return True
        if cs.impossible(mx - mn): return True
    else:
        if cs.impossible(bl - tab - 6 - u(tab, 2).scale(12)): return True
    # target outside: after the discriminator was obtained
    return len(cs.p.cbs) == 1


# ---- stack and ALU
def stackop(s, cs, pops, pushes, extra_fail=None, ncb=0):
    """common part; returns list of popped values (top first) on continuing paths, else None"""
    sp = cs.h('expr_sp'); N = s.vm.c['SDEPTH']
    p = cs.p
    if p.kind == 'ret':
        al = {'OOB': [s.trunc_reason(cs, cs.len)], 'STACK_UNDERFLOW': [Lin(pops - 1) - sp] if pops else [],
              'STACK_OVERFLOW': [sp - pops + pushes - N - 1 + 0] if pushes > pops else []}
        if not pops: del al['STACK_UNDERFLOW']
        if pushes <= pops: del al['STACK_OVERFLOW']
        if ncb: al['CALLBACK'] = [True]
        if extra_fail: al.update(extra_fail)
        s.failure(cs, al)
        return None
    if not s.need(cs.ge(sp - pops), 'stack', cs, 'pops more values than the stack holds'): return None
    if not s.need(cs.ge(Lin(N) - sp + pops - pushes), 'stack', cs, 'pushes beyond the stack limit'): return None
    s.ncb(cs, ncb)
    if s.op != 'OP_EMIT': s.nowrites(cs)
    return [stack_at(s, cs, sp - 1 - i, cs.s0) for i in range(pops)]


def stack_result(s, cs, pops, vals, aspect='alu'):
    """final stack: sp = sp0 - pops + len(vals); slots below unchanged; vals (bottom first)"""
    sp = cs.h('expr_sp')
    n = len(vals)
    s.fields(cs, {'expr_sp': sp - pops + n})
    lo = Lin(s.vm.c['o_expr_stack']) + (sp - pops).scale(8)
    s.ctxwrites(cs, [(lo, 8 * max(n, pops))])
    for i, v in enumerate(vals):
        if v is None: continue
        got = stack_at(s, cs, sp - pops + i)
        s.need(cs.eq(got, v), aspect, cs, lambda: 'result is %.200r, must be %.200r' % (got, v))


def sp_push(s, cs):
    if stackop(s, cs, 0, 1) is None: return
    stack_result(s, cs, 0, [cs.bc(1, 8)])


def sp_pop(s, cs):
    if stackop(s, cs, 1, 0) is None: return
    stack_result(s, cs, 1, [])


def sp_dup(s, cs):
    sp = cs.h('expr_sp')
    if cs.p.kind == 'ret':
        s.failure(cs, {'OOB': [s.trunc_reason(cs, cs.len)], 'STACK_UNDERFLOW': [sp.scale(-1)], 'STACK_OVERFLOW': [sp - s.vm.c['SDEPTH']]}); return
    v = stackop(s, cs, 1, 2)
    if v is None: return
    stack_result(s, cs, 1, [v[0], v[0]])


def sp_swap(s, cs):
    v = stackop(s, cs, 2, 2)
    if v is None: return
    stack_result(s, cs, 2, [v[0], v[1]])


def sp_load(s, cs):
    if stackop(s, cs, 0, 1, ncb=1) is None: return
    e = cs.p.cbs[0]
    s.cb(cs, e, cs.bc(1, 2), s.op, 8); s.cbok(cs, e)
    s.need(isinstance(e['before'], Lin) and cs.eq(e['before'], ZERO), 'value', cs, 'value not cleared before asking the host')
    stack_result(s, cs, 0, [e['after']])


def sp_store(s, cs):
    v = stackop(s, cs, 1, 0, ncb=1)
    if v is None: return
    e = cs.p.cbs[0]
    s.cb(cs, e, cs.bc(1, 2), s.op, 8); s.cbok(cs, e)
    s.need(isinstance(e['before'], Lin) and cs.eq(e['before'], v[0]), 'value', cs, 'host not given the popped value')
    stack_result(s, cs, 1, [])


FCMP = {'OP_EQ_F': ('oeq', 0, 0), 'OP_NEQ_F': ('oeq', 0, 1), 'OP_LT_F': ('olt', 0, 0), 'OP_LTE_F': ('ole', 0, 0), 'OP_GT_F': ('olt', 1, 0), 'OP_GTE_F': ('ole', 1, 0)}
FMATH = {'OP_SIN': 'sin', 'OP_COS': 'cos', 'OP_TAN': 'tan', 'OP_SQRT': 'sqrt', 'OP_LOG': 'log', 'OP_ABS': 'fabs'}


def fkey(cs, lin):
    lin = cs.st.simp(lin)
    en = cs.run.en
    v = en.coerce(cs.st, I(64, lin), TDbl, 8)
    return v.k


def fres(cs, lin):
    """float term stored as a 64-bit pattern"""
    en = cs.run.en
    v = en.coerce(cs.st, I(64, cs.st.simp(lin)), TDbl, 8)
    return v.k


def fcond(cs, pred, a, b):
    """value of an ordered comparison on this path"""
    k = ('fcmp', pred, F(a), F(b))
    d = cs.run.en.decide_fcmp(cs.st, k)
    if d is not None: return d
    # a <= b follows from not(b < a) only without NaN
    return None


def sp_alu(s, cs):
    n = s.op
    pops = 2 if n in BIN else 1
    zero = lambda v: [lambda cs: cs.eq(v, ZERO)]
    sp = cs.h('expr_sp')
    ef = {}
    if cs.p.kind == 'ret' and cs.p.retname() == 'ARITHMETIC':
        if not s.need(cs.ge(sp - pops), 'stack', cs, 'reports an arithmetic error with too few operands'): return
        top = stack_at(s, cs, sp - 1, cs.s0)
        ft = fkey(cs, top)
        Z = ('c', 0.0)
        if n in ('OP_DIV', 'OP_MOD'): ok = cs.eq(top, ZERO)
        elif n == 'OP_FDIV': ok = fcond(cs, 'oeq', ft, Z) is True
        elif n == 'OP_SQRT': ok = fcond(cs, 'olt', ft, Z) is True
        elif n == 'OP_LOG': ok = fcond(cs, 'ole', ft, Z) is True
        elif n == 'OP_POW': ok = True
        elif n == 'OP_FTOI': ok = True
        else: ok = False
        s.need(ok, 'errcode', cs, 'reports an arithmetic error for defined operands')
        return
    v = stackop(s, cs, pops, 1)
    if v is None: return
    en = cs.run.en
    b = v[0]; a = v[1] if pops == 2 else None
    Ia = I(64, a) if a is not None else None; Ib = I(64, b)
    X = {'OP_ADD': 'add', 'OP_SUB': 'sub', 'OP_MUL': 'mul', 'OP_DIV': 'udiv', 'OP_MOD': 'urem', 'OP_BIT_AND': 'and', 'OP_BIT_OR': 'or', 'OP_BIT_XOR': 'xor'}
    if n in ('OP_DIV', 'OP_MOD'): s.need(cs.ne(b, ZERO), 'alu', cs, 'division by zero not rejected')
    got = stack_at(s, cs, sp - pops)
    if n in X:
        ref = cs.U(bin64(cs, X[n], Ia, Ib))
        stack_result(s, cs, pops, [ref]); return
    if n == 'OP_NEG': stack_result(s, cs, 1, [cs.U(bin64(cs, 'sub', I(64, ZERO), Ib))]); return
    if n == 'OP_BIT_NOT': stack_result(s, cs, 1, [Lin((1 << 64) - 1) - b]); return
    if n in ('OP_SHL', 'OP_SHR'):
        if cs.ge(b - 64): ref = ZERO
        elif cs.ge(Lin(63) - b): ref = cs.U(bin64(cs, 'shl' if n == 'OP_SHL' else 'lshr', Ia, Ib))
        else: s.need(False, 'alu', cs, 'shift amount of 64 or more not handled separately'); return
        stack_result(s, cs, pops, [ref]); return
    CM = {'OP_EQ': ('eq', 0), 'OP_NEQ': ('eq', 1), 'OP_LT': ('ult', 0), 'OP_GTE': ('ult', 1), 'OP_GT': ('ugt', 0), 'OP_LTE': ('ugt', 1)}
    if n in CM or n in ('OP_LOG_AND', 'OP_LOG_OR', 'OP_LOG_NOT'):
        stack_result(s, cs, pops, [None])
        branches(s, cs, n, a, b, sp, pops)
        return
    if n in FCMP:
        pr, sw, ng = FCMP[n]
        fa, fb = fkey(cs, a), fkey(cs, b)
        if sw: fa, fb = fb, fa
        stack_result(s, cs, pops, [None])
        for val in (True, False):
            st = cs.st.fork()
            k = ('fcmp', pr, F(fa), F(fb))
            d = en.decide_fcmp(st, k)
            if d is not None and d != val: continue
            st.conds[k] = val
            g = cs.run.U(st, en.cell(st, cs.run.ctx, Lin(s.vm.c['o_expr_stack']) + (sp - pops).scale(8), 8, T8))
            want = Lin(1 if val != bool(ng) else 0)
            s.need(st.decide_eq(g - want) is True, 'alu', cs, lambda: 'float comparison gives %r, must be %r when the ordered comparison %s is %s' % (g, want, pr, val))
        return
    # float arithmetic: result term
    rk = norm(fres(cs, got))
    fb = fkey(cs, b)
    if n in ('OP_FADD', 'OP_FSUB', 'OP_FMUL', 'OP_FDIV'): ref = (n[3:].lower(), fkey(cs, a), fb)
    elif n == 'OP_FNEG': ref = ('fneg', fb)
    elif n in FMATH: ref = (FMATH[n], fb)
    elif n == 'OP_POW': ref = ('pow', fkey(cs, a), fb)
    elif n == 'OP_ITOF':
        l = en.S(cs.st, Ib)
        if l is None: l = en.sext(cs.st, Ib, 65).l
        l = cs.st.simp(l)
        ref = ('itof', 'double', l)
        if l.isc(): ref = ('c', float(l.c))
    elif n == 'OP_FTOI':
        x = got.single()
        if x is not None and x.key[0] == 'mod' and x.key[1] == 64: x = x.key[2].single()
        stack_result(s, cs, 1, [None])
        s.need(x is not None and x.key[0] == 'fptosi' and norm(x.key[2]) == norm(fb) or got.isc(), 'alu', cs, lambda: 'result %.200r is not the integer part of the operand' % got)
        return
    stack_result(s, cs, pops, [None])
    ref = norm(ref)
    ok = rk == ref or (n == 'OP_FNEG' and rk == norm(('fsub', ('c', -0.0), fb)))
    s.need(ok, 'alu', cs, lambda: 'result is %.200r, must be %.200r' % (rk, ref))


def branches(s, cs, n, a, b, sp, pops):
    """boolean results, by cases"""
    en = cs.run.en
    def res(st): return cs.run.U(st, en.cell(st, cs.run.ctx, Lin(s.vm.c['o_expr_stack']) + (sp - pops).scale(8), 8, T8))
    def chk(lins_ge, nes, want):
        st = cs.st.fork()
        for l in lins_ge:
            if not st.assume(st.simp(l)): return
        for l in nes:
            if not st.assume_ne(st.simp(l)): return
        if st.infeasible(): return
        g = res(st)
        s.need(st.decide_eq(g - want) is True, 'alu', cs, lambda: 'result is %.120r, must be %d' % (g, want))
    z = lambda l: [l, l.scale(-1)]
    if n in ('OP_EQ', 'OP_NEQ'):
        d = a - b; t = 1 if n == 'OP_EQ' else 0
        chk(z(d), [], t); chk([d - 1], [], 1 - t); chk([d.scale(-1) - 1], [], 1 - t)
    elif n in ('OP_LT', 'OP_GTE'):
        d = b - a - 1; t = 1 if n == 'OP_LT' else 0
        chk([d], [], t); chk([d.scale(-1) - 1], [], 1 - t)
    elif n in ('OP_GT', 'OP_LTE'):
        d = a - b - 1; t = 1 if n == 'OP_GT' else 0
        chk([d], [], t); chk([d.scale(-1) - 1], [], 1 - t)
    elif n == 'OP_LOG_NOT':
        chk(z(b), [], 1); chk([b - 1], [], 0)
    elif n == 'OP_LOG_AND':
        chk([a - 1, b - 1], [], 1); chk(z(a), [], 0); chk([a - 1] + z(b), [], 0)
    elif n == 'OP_LOG_OR':
        chk(z(a) + z(b), [], 0); chk([a - 1], [], 1); chk(z(a) + [b - 1], [], 1)


def sp_emit(s, cs):
    p = cs.p
    dl = A(cs.run.dl)
    sp = cs.h('expr_sp')
    if p.kind == 'ret':
        al = {'OOB': [s.trunc_reason(cs, cs.len)], 'STACK_UNDERFLOW': [sp.scale(-1)]}
        if cs.ty is None: al['INVALID_OP'] = [True]
        else:
            al['OOB'].append(cs.start + cs.sz - dl - 1)
            def val(cs):
                if cs.enc or not cs.ge(sp - 1): return False
                v = stack_at(s, cs, sp - 1, cs.s0)
                x = cs.data0(cs.start, cs.sz)
                if cs.ty in ('F32', 'F64'): return True
                return cs.ne(x, cs.st.simp(extract(v, 64, 0, 8 * cs.sz)) if cs.sz < 8 else v)
            al['VALIDATION'] = [val]
        s.failure(cs, al)
        s.nowrites(cs); s.ncb(cs, 0)
        return
    v = stackop(s, cs, 1, 0)
    if v is None: return
    if not s.need(cs.ty is not None, 'errcode', cs, 'invalid type operand accepted'): return
    v = v[0]
    n = cs.sz
    s.need(cs.ge(dl - cs.start - n), 'bounds', cs, 'value beyond the end of the message')
    s.fields(cs, dict(MODS, expr_sp=sp - 1, cursor=cs.start + n))
    s.ctxwrites(cs, [(Lin(s.vm.c['o_expr_stack']) + (sp - 1).scale(8), 8)])
    if cs.enc:
        s.within(cs, cs.start, cs.start + n)
        bs = cs.databytes1(cs.start, n)
        if cs.ty == 'F32':
            k = float_slices(bs)
            s.need(k is not None and k[0] == 'fbits' and norm(k[2]) == norm(('fptrunc', 'float', fkey(cs, v))) or all(b.isc() for b in bs), 'value', cs, lambda: 'encoded float %.100r is not the computed value' % (bs,))
        else: bytes_eq(s, cs, bs, v, 'value', 'encoded value differs from the computed value', 64)
    else:
        s.nowrites(cs)
        x = cs.data0(cs.start, n)
        if cs.ty in ('F32', 'F64'):
            s.need(emit_float_gate(s, cs, v, x, n), 'gate', cs, 'message value accepted without being close to the computed value')
        else:
            w = cs.st.simp(extract(v, 64, 0, 8 * n)) if n < 8 else v
            s.need(cs.eq(x, w), 'gate', cs, 'message value differing from the computed value accepted')


def emit_float_gate(s, cs, v, x, n):
    """bit-equal, or an upper and a lower bound on the difference"""
    if n == 8 and cs.eq(v, x): return True
    up = lo = False
    for k, val in cs.st.conds.items():
        if k[0] != 'fcmp' or not val: continue
        pr, a, b = k[1], k[2].k, k[3].k
        if pr not in ('ole', 'olt'): continue
        if a[0] == 'c' and isdiff(cs, b, v, x, n): lo = lo or -0.001 < a[1] <= 0
        if b[0] == 'c' and isdiff(cs, a, v, x, n): up = up or 0 <= b[1] < 0.001
    if up and lo: return True
    if n == 4:
        # the message bytes are the bytes of the computed value
        fb = cs.run.en.fbits(F(('fptrunc', 'float', fkey(cs, v))), 4).l
        bs = cs.databytes0(cs.start, 4)
        return all(cs.eq(b, cs.st.simp(extract(fb, 32, 8 * i, 8))) for i, b in enumerate(bs))
    return False


def isdiff(cs, k, v, x, n):
    k = strip(k)
    if k[0] != 'fsub': return False
    want = [fkey(cs, v) if n == 8 else ('fptrunc', 'float', fkey(cs, v)), ('bits', n, cs.st.simp(x))]
    def same(a, b):
        a = strip(a); b = strip(b)
        return norm(a) == norm(b) or feq(cs, a, b)
    return (same(k[1], want[0]) and same(k[2], want[1])) or (same(k[1], want[1]) and same(k[2], want[0]))


SPECS = {'OP_NOOP': sp_noop, 'OP_SET_ENDIAN_LE': sp_le, 'OP_SET_ENDIAN_BE': sp_be, 'OP_ENTER_STRUCT': sp_struct, 'OP_EXIT_STRUCT': sp_struct,
         'OP_META_VERSION': sp_noop, 'OP_META_NAME': sp_noop, 'OP_ENTER_BIT_MODE': sp_noop, 'OP_EXIT_BIT_MODE': sp_bitmode_exit,
         'OP_IO_BOOL': sp_bool, 'OP_ALIGN_PAD': sp_pad, 'OP_ALIGN_FILL': sp_fill, 'OP_STR_NULL': sp_strnull, 'OP_RAW_BYTES': sp_raw,
         'OP_CONST_WRITE': sp_constwrite, 'OP_CONST_CHECK': sp_constcheck, 'OP_RANGE_CHECK': sp_range, 'OP_ENUM_CHECK': sp_enum,
         'OP_CRC_16': sp_crc, 'OP_CRC_32': sp_crc, 'OP_SCALE_LIN': sp_scale, 'OP_TRANS_POLY': sp_table, 'OP_TRANS_SPLINE': sp_table,
         'OP_MARK_OPTIONAL': sp_optional, 'OP_TRANS_ADD': sp_trans_i, 'OP_TRANS_SUB': sp_trans_i, 'OP_TRANS_MUL': sp_trans_i, 'OP_TRANS_DIV': sp_trans_i,
         'OP_ARR_END': sp_arrend, 'OP_JUMP': sp_jump, 'OP_JUMP_IF_NOT': sp_jin, 'OP_SWITCH': sp_switch, 'OP_SWITCH_TABLE': sp_switch,
         'OP_PUSH_IMM': sp_push, 'OP_POP': sp_pop, 'OP_DUP': sp_dup, 'OP_SWAP': sp_swap, 'OP_LOAD_CTX': sp_load, 'OP_STORE_CTX': sp_store, 'OP_EMIT': sp_emit}
for n in list(PRIM) + list(FLT): SPECS[n] = sp_prim
for n in BITS: SPECS[n] = sp_bits
for n in STRP: SPECS[n] = sp_strpre
for n in ARRS: SPECS[n] = sp_array
for n in ALU: SPECS[n] = sp_alu


def walks(vm, ck):
    from . import walk
    def check(ok, msg, st, loc=None, tr=None):
        ck.n['loop'] = ck.n.get('loop', 0) + 1
        if ok: return
        if st is not None:
            tr = [(x[0], x[1], x[2]) for x in st.trace()[-8:]]
            loc = '%s:%s' % (tr[-1][0], tr[-1][1]) if tr else None
        ck.viol.append(Viol(ck.op, 'loop', msg, loc, tr))
    n = walk.skip_walks(ck.run, vm.ops, check)
    ck.n['loop'] = ck.n.get('loop', 0) + n


def check_opcode(vm, k):
    """all runs of opcode byte k -> list of (run, Check)"""
    name = vm.opname.get(k)
    if name is not None and name not in SPECS: name = None if name == 'OP_CTX_QUERY' else name
    fixes = [None]
    if name in STACK: fixes = [{'expr_sp': d} for d in range(vm.c['SDEPTH'] + 1)]
    out = []
    for fx in fixes:
        for r in V.analyse(vm, k, fx):
            ck = Check(vm, name, r)
            if name in ARRS: walks(vm, ck)
            out.append((r, ck.go()))
    return out
