"""What the compiler emits: the parser functions followed with the property simulation of esp.py.

The client knows the parser's primitives (token stream, code buffer, name tables, number parsing); everything else in the compiler is followed into.
A path that calls parser_error is dropped: the code it emits is never written (that is a property of its own).
"""
from . import ir, vm as V, vmspec as S, esp
from .esp import St, fold, pbase, is_term, contains, own, ptr
from .ir import AnalysisError, GRef

TOKS = ('EOF IDENTIFIER NUMBER STRING STRUCT PACKET ENUM SWITCH CASE DEFAULT IF ELSE TRUE FALSE SELF LBRACE RBRACE LBRACKET RBRACKET LPAREN RPAREN '
        'SEMICOLON COLON COMMA AT EQUALS DOT BANG AMP PIPE CARET TILDE EQ_EQ BANG_EQ GT LT GT_EQ LT_EQ AMP_AMP PIPE_PIPE LSHIFT RSHIFT PLUS MINUS STAR '
        'SLASH PERCENT DOC_COMMENT ERROR').split()
SIZE = {'OP_IO_U8': 1, 'OP_IO_I8': 1, 'OP_IO_U16': 2, 'OP_IO_I16': 2, 'OP_IO_U32': 4, 'OP_IO_I32': 4, 'OP_IO_U64': 8, 'OP_IO_I64': 8, 'OP_IO_F32': 4, 'OP_IO_F64': 8}
INTS = [n for n in SIZE if n[6] in 'UI']
LAY = {'OP_STR_NULL': (2, 2), 'OP_ARR_FIXED': (2, 4), 'OP_RAW_BYTES': (2, 4), 'OP_ARR_DYNAMIC': (2, 2), 'OP_IO_BIT_U': (2, 1), 'OP_IO_BIT_I': (2, 1),
       'OP_CONST_CHECK': (2, 1, 'v'), 'OP_CONST_WRITE': (1, 'v'), 'OP_RANGE_CHECK': (1, 'v', 'v'), 'OP_ENUM_CHECK': (1, 2, 'n'), 'OP_SCALE_LIN': (8, 8), 'OP_TRANS_POLY': (1, 'n'),
       'OP_TRANS_SPLINE': (1, 'n'), 'OP_CRC_16': (2, 2, 2, 1), 'OP_CRC_32': (4, 4, 4, 1), 'OP_SWITCH': (2, 4), 'OP_SWITCH_TABLE': (2, 4), 'OP_PUSH_IMM': (8,)}
for n in S.LEN:
    if n not in LAY:
        k = S.LEN[n] - 1
        LAY[n] = () if k == 0 else (k,)
for n in S.ALU: LAY.setdefault(n, ())
TYPES = {'OP_CONST_CHECK': set(INTS), 'OP_CONST_WRITE': set(INTS), 'OP_ENUM_CHECK': set(INTS), 'OP_RANGE_CHECK': set(SIZE), 'OP_EMIT': set(SIZE) | {'OP_IO_BOOL'}}
PARSE = {'parse_expression', 'parse_field', 'parse_block', 'parse_if', 'parse_switch', 'parse_top_level', 'parse_import', 'parse_struct', 'parse_enum', 'parse_packet', 'parse_precedence', 'parse_primary'}
PUSH = {'buf_push': 1, 'buf_push_u16': 2, 'buf_push_u32': 4, 'buf_push_u64': 8}
_k = None


def konst():
    global _k
    if _k is None:
        ex = {'TOK_' + t: 'TOK_' + t for t in TOKS}
        for f in ('current', 'previous', 'target', 'global_bc', 'strtab', 'registry', 'enums', 'imports', 'in_bit_mode', 'had_error', 'current_struct_fields', 'lexer', 'current_path', 'current_struct_name', 'current_struct_name_len', 'pending_unaligned', 'packet_count', 'import_depth', 'current_bit_count', 'is_bit_count_valid'): ex['p_' + f] = 'offsetof(Parser,%s)' % f
        for f in ('type', 'start', 'length', 'line'): ex['t_' + f] = 'offsetof(Token,%s)' % f
        ex['e_type'] = 'offsetof(EnumDef,underlying_type)'; ex['e_count'] = 'offsetof(EnumDef,count)'; ex['e_values'] = 'offsetof(EnumDef,values)'; ex['ev_value'] = 'offsetof(EnumValue,value)'; ex['ev_name'] = 'offsetof(EnumValue,name)'; ex['ev_size'] = 'sizeof(EnumValue)'
        ex['s_bytecode'] = 'offsetof(StructDef,bytecode)'; ex['b_data'] = 'offsetof(Buffer,data)'; ex['b_size'] = 'offsetof(Buffer,size)'
        _k = ir.probe_consts(ex, headers=('cnd_internal.h',))
    return _k


def strip(o):
    while isinstance(o, ir.Inst) and o.op in ('zext', 'sext', 'trunc'): o = o.ops[0]
    return o


def counter(p):
    """the phi counts 0, 1, 2, ... in its loop"""
    l = ir.loops(p.blk.fn).get(p.blk)
    if l is None: return False
    for pb, v in p.x:
        if pb in l.blocks:
            v = strip(v)
            if not (isinstance(v, ir.Inst) and v.op == 'add' and any(isinstance(y, ir.CInt) and y.v == 1 and strip(v.ops[1 - j]) is p for j, y in enumerate(v.ops))): return False
        elif not (isinstance(v, ir.CInt) and v.v == 0): return False
    return True


def induction(l, b):
    """-> (bound, equal values) of a loop that makes bound rounds and is left in b before the round begins: an up counter compared with the bound, a down counter
    compared with 0, or a pointer compared with the end of an array"""
    t = b.insts[-1]
    c = t.ops[0] if t.op == 'br' and t.ops else None
    if not isinstance(c, ir.Inst) or c.op != 'icmp': return None
    stay = t.x[0] in l.blocks
    for i in (0, 1):
        p = strip(c.ops[i]); e = c.ops[1 - i]
        if not isinstance(p, ir.Inst) or p.op != 'phi' or p.blk is not l.header: continue
        pred = c.x if i == 0 else {'ult': 'ugt', 'slt': 'sgt', 'ugt': 'ult', 'sgt': 'slt', 'ule': 'uge', 'sle': 'sge', 'uge': 'ule', 'sge': 'sle'}.get(c.x, c.x)
        up = pred in ('ult', 'slt', 'ne') and stay or pred in ('uge', 'sge', 'eq') and not stay
        down = pred in ('ugt', 'sgt', 'ne') and stay or pred in ('ule', 'sle', 'eq') and not stay
        if up and counter(p): return e, ()
        ins = [(v, pb in l.blocks) for pb, v in p.x]
        first = [v for v, k in ins if not k]
        if len(first) != 1: continue
        if down and isinstance(e, ir.CInt) and e.v == 0 and all(is_dec(v, p) for v, k in ins if k): return first[0], ()
        if up and isinstance(e, ir.Inst) and e.op == 'gep' and len(e.x[1]) == 1 and e.x[0] == 0:
            v, w = e.x[1][0]
            if all(isinstance(x, ir.Inst) and x.op == 'gep' and x.ops[0] is p and x.x[0] == w and not x.x[1] for x, k in ins if k): return v, ((e.ops[0], first[0]),)
    return None


def is_dec(v, p):
    v = strip(v)
    if not isinstance(v, ir.Inst) or v.op not in ('add', 'sub'): return False
    o = v.ops[1]
    return strip(v.ops[0]) is p and isinstance(o, ir.CInt) and (o.v if v.op == 'sub' else -o.v) % (1 << 8) == 1


def lin(t, k=1):
    """-> (factor, core) of a term multiplied by constants"""
    while is_term(t) and t[0] in ('zext', 'sext', 'trunc', 'bin'):
        if t[0] == 'trunc': t = t[2]
        elif t[0] != 'bin': t = t[3]
        elif t[1] == 'mul' and isinstance(t[4], int): k *= t[4]; t = t[3]
        elif t[1] == 'shl' and isinstance(t[4], int): k <<= t[4]; t = t[3]
        else: break
    return (k * t, None) if isinstance(t, int) else (k, t)


def same_count(bound, r, cnt, per):
    a, b = lin(bound, r), lin(cnt, per)
    return a == b


def narrow(t, bits):
    """-> (core, bits of it that are kept) of the low bits of t"""
    n = 64
    while is_term(t):
        if t[0] == 'trunc': n = min(n, t[1]); t = t[2]
        elif t[0] in ('zext', 'sext') and t[1] >= min(bits, n): t = t[3]
        elif t[0] == 'bin' and t[1] == 'and' and isinstance(t[4], int) and t[4] & ((1 << bits) - 1) == (1 << bits) - 1: n = min(n, t[4].bit_length()); t = t[3]
        else: break
    return t, n


def join(done):
    """value of an operand that is emitted in pieces, low bytes first"""
    if len(done) == 1: return done[0][0]
    if all(isinstance(v, int) for v, _ in done):
        x = o = 0
        for v, s in done: x |= (v & ((1 << 8 * s) - 1)) << o; o += 8 * s
        return x
    whole = None; o = done[0][1]
    for v, s in done[1:]:
        v, n = narrow(v, 8 * s)
        if n < 8 * s or not (is_term(v) and v[0] == 'bin' and v[1] in ('lshr', 'ashr') and v[4] == 8 * o): return ('pieces',) + done
        a = v[3]
        if whole is None: whole = (v[2], a)
        elif narrow(a, 8)[0] != narrow(whole[1], 8)[0] or narrow(a, 8)[1] < 8 * (o + s): return ('pieces',) + done
        o += s
    v, n = narrow(done[0][0], 8 * done[0][1])
    x, m = narrow(whole[1], 8)
    if v != x or n < 8 * done[0][1] or whole[0] < 8 * o: return ('pieces',) + done
    return fold('trunc', 8 * o, whole[1]) if whole[0] > 8 * o else whole[1]


class Client:
    """parser primitives; subclasses give the property automaton.  q = (g, pend, u): grammar state, instruction being emitted, user state"""
    ptype = 32

    def __init__(c, m):
        c.m = m; c.k = konst(); c.ops = V.opcode_table(); c.name = {v: n for n, v in c.ops.items()}
        c.tname = {c.k['TOK_' + t]: t for t in TOKS}
        c.all = frozenset(v for v, t in c.tname.items() if t != 'ERROR')
        c.viol = {}; c.n = 0; c.P = ('P',)
        c.sites = set(); c.skip = set()

    # --- to be overridden
    def token(c, st, esp, ins, typ): pass
    def keyword(c, st, leaf, kw): pass
    def instr(c, st, esp, ins, op, opnd): pass
    def append(c, st, esp, ins, args): return [(st, None)]
    def key(c, st): return None
    def dead(c, st): return False
    memo = False
    def norm(c, st): pass
    def parsed(c, st, esp, ins, name): pass

    def bad(c, rule, msg, ins, key=None):
        c.viol.setdefault((rule, key or msg), (msg, ins.loc() if hasattr(ins, 'loc') else str(ins)))

    # --- tokens
    def cell(c, which, f): return ('ptr', c.P, c.k['p_' + which] + c.k['t_' + f])
    def cur(c, st, f, which='current'):
        size = 8 if f == 'start' else 4
        v = st.load(c.cell(which, f), size)
        if v is None:
            v = ('tk', f, ('in', which)); st.store(c.cell(which, f), size, v)
            if f == 'type': st.cons.setdefault(v, c.all)
        return v

    def newtok(c, st, esp, ins, which='current'):
        t = ('t', which, esp.fr, ins.id)
        if esp.inloop: st.forget(t)
        for f, n in (('type', 4), ('start', 8), ('length', 4), ('line', 4)): st.store(c.cell(which, f), n, ('tk', f, t))
        st.cons[('tk', 'type', t)] = c.all

    def advance(c, st, esp, ins, types=None):
        """-> states; current becomes previous"""
        ty = c.cur(st, 'type')
        d = st.dom(ty)
        if isinstance(d, tuple): d = frozenset(x for x in c.all if x not in d[1])
        out = []
        vals = sorted(d)
        if len(vals) > 6: vals = [None]
        for v in vals:
            y = st.copy() if len(vals) > 1 else st
            if v is not None and is_term(ty) and not y.restrict(ty, frozenset((v,))): continue
            c.token(y, esp, ins, c.tname.get(v))
            for f, n in (('type', 4), ('start', 8), ('length', 4), ('line', 4)):
                x = c.cur(y, f)
                y.store(c.cell('previous', f), n, x)
            c.newtok(y, esp, ins)
            out.append((y, None))
        return out

    def role(c, st, role):
        """names the current token"""
        r = ('role',) + role
        for f in ('type', 'start', 'length', 'line'): st.forget(('tk', f, r))
        for f in ('type', 'start', 'length', 'line'):
            x = c.cur(st, f)
            if is_term(x) and x != ('tk', f, r): st.rename(x, ('tk', f, r))

    # --- hooks of the engine
    def on_kw(c, st, leaf, kw): c.keyword(st, leaf, kw)
    def edge(c, esp, st, b, t, cond, fr):
        g, pend, u = st.q
        if pend is None or len(pend) < 6: return
        ls = ir.loops(b.fn)
        op, i, vt, ph, n, r = pend[:6]
        if t in ls and b not in ls[t].blocks and ph == 'before':
            st.q = (g, (op, i, vt, 'in', 0, 0), u)
            for y in ls[t].blocks:      # what the loop is bounded by may be dead inside it
                if y.insts[-1].op == 'br' and y.insts[-1].ops and any(z not in ls[t].blocks for z in y.insts[-1].x):
                    iv = induction(ls[t], y)
                    for j, v in enumerate(sum(iv[1], iv[:1]) if iv else ()):
                        if not isinstance(v, ir.Inst) or v.blk not in ls[t].blocks: st.env[('trip', y.name, j)] = esp.val(st, v, fr, esp.args.get(fr, ()))
            return
        if ph != 'in': return
        if t in ls and b in ls[t].blocks:
            if len(pend) > 6: c.bad('layout', '%s: a round of the loop ends in the middle of a value' % op, b.insts[-1], op); return False
            if n == 0 or r and r != n: c.bad('count', '%s: a round of the loop emits %s' % (op, 'no value' if n == 0 else 'another number of values than the one before'), b.insts[-1], op); return False
            st.q = (g, (op, i, vt, 'in', 0, n), u)
            return
        L = [l for l in ls.values() if b in l.blocks and t not in l.blocks]
        if not L: return
        l = min(L, key=lambda l: len(l.blocks))
        iv = induction(l, b) if n == 0 and len(pend) == 6 else None
        if iv:
            iv = [st.env[('trip', b.name, j)] if ('trip', b.name, j) in st.env else esp.val(st, x, fr, esp.args.get(fr, ())) for j, x in enumerate(sum(iv[1], iv[:1]))]
            if any(iv[j] != iv[j + 1] for j in range(1, len(iv), 2)): iv = None
        for x in [x for x in st.env if isinstance(x, tuple) and x[0] == 'trip']: del st.env[x]
        if iv is None: c.bad('count', '%s: the loop that emits the values is not left by comparing its counter, in steps of 1, with a bound' % op, b.insts[-1], op); return False
        bound = iv[0]
        cnt = st.env.get(('x', i - 1)); per = 2 if op == 'OP_TRANS_SPLINE' else 1
        if r and not same_count(bound, r, cnt, per):
            c.bad('count', '%s: the number of values emitted is not the count in front of them' % op, b.insts[-1], op); return False
        opnd = [st.env.pop(('x', j), None) for j in range(len(LAY[op]))]
        st.q = (g, None, u)
        c.instr(st, esp, b.insts[-1], op, opnd)
    def load(c, esp, st, ins, p, size): return None
    def store(c, esp, st, ins, p, size, v): return None

    def call(c, esp, st, ins, name, a):
        k = c.k
        if name == 'advance': return c.advance(st, esp, ins)
        if name == 'consume':
            ty = c.cur(st, 'type')
            if not st.assume(fold('icmp', 'eq', 32, ty, a[1]), True): return []
            return c.advance(st, esp, ins)
        if name == 'parser_error': return []
        if name == 'match_keyword':
            kw = esp.string(a[1])
            if kw is None: raise AnalysisError('match_keyword with unknown text at %s' % ins.loc())
            b, o = pbase(a[0])
            ty = st.load(('ptr', b, o + k['t_type']), 4); sta = st.load(('ptr', b, o + k['t_start']), 8)
            if ty is None or sta is None: raise AnalysisError('match_keyword with an unknown token at %s' % ins.loc())
            out = []
            y = st.copy()
            if y.assume(fold('icmp', 'eq', 32, ty, k['TOK_IDENTIFIER']), True) and is_term(sta) and y.assume(('eqk', ('kwof', sta), kw), True, c.on_kw): out.append((y, 1))
            if is_term(sta):
                if st.const(fold('icmp', 'eq', 32, ty, k['TOK_IDENTIFIER'])) != 1 or st.assume(('eqk', ('kwof', sta), kw), False): out.append((st, 0))
            else: out.append((st, 0))
            return out
        if name in PUSH: return c.push(st, esp, ins, a[0], PUSH[name], a[1])
        if name == 'buf_current_offset': return [(st, esp.fresh(st, ins, esp.fr, esp.inloop))]
        if name in ('buf_write_u8_at', 'buf_write_u16_at', 'buf_write_u32_at'): return [(st, None)]
        if name in ('buf_append', 'buf_append_with_prefix'): return c.append(st, esp, ins, name, a)
        if name == 'strtab_add':
            b, o = pbase(a[0])
            if isinstance(o, int): st.kill(b, o, 24)
            return [(st, ('strtab', a[0], a[1], a[2]))]
        if name in ('strtab_init', 'strtab_free'):
            b, o = pbase(a[0])
            if isinstance(o, int): st.kill(b, o, 24)
            return [(st, None)]
        if name in ('parse_number_u32', 'parse_number_i64', 'parse_number_double'): return [(st, ('num', name[13:], a[0], a[1]))]
        if name == 'reg_find': return [(st, ('reg', a[1]))]
        if name == 'enum_reg_find': return [(st, ('enum', a[1]))]
        if name in ('reg_add', 'enum_reg_add'):
            t = esp.fresh(st, ins, esp.fr, esp.inloop); st.exclude(t, 0)
            return [(st, t)]
        if name in PARSE or name is None and esp.depth1():
            if st.q[1] is not None: c.bad('layout', '%s is called in the middle of %s' % (name or 'a rule', st.q[1][0]), ins); return []
            c.parsed(st, esp, ins, name)
            for b in list(st.mem):
                if not own(b): del st.mem[b]
            keep = {k['p_target'], k['p_in_bit_mode']}
            st.mem[c.P] = {o: v for o, v in (st.mem.get(c.P) or {}).items() if o in keep}
            c.newtok(st, esp, ins, 'previous'); c.newtok(st, esp, ins)
            t = esp.fresh(st, ins, esp.fr, esp.inloop) if ins.ty.k != 'void' else None
            return [(st, t)]
        if name is None: return None
        if name.startswith('sb_'):
            b, o = pbase(a[0]); st.kill(b)
            return [(st, esp.fresh(st, ins, esp.fr, esp.inloop) if ins.ty.k != 'void' else None)]
        return None

    # --- instructions
    def target(c, st, b):
        t = st.load(('ptr', c.P, c.k['p_target']), 8)
        if t is None: t = ('target',); st.store(('ptr', c.P, c.k['p_target']), 8, t)
        return b == t

    def push(c, st, esp, ins, buf, size, v):
        """the next bytes of the code; states are split by opcode and by operand type"""
        c.sites.add(ins.loc()); c.n += 1
        if not c.target(st, buf):
            c.bad('buffer', 'code is emitted into another buffer than the one being compiled into', ins); return []
        g, pend, u = st.q
        if pend is None:
            if size != 1: c.bad('layout', 'an instruction begins with a %d byte operand' % size, ins, ins.loc()); return []
            return c.split(st, v, lambda y, x: c.opcode(y, esp, ins, x), ins, 'opcode')
        op, i, vt = pend[:3]; lay = LAY[op]; w = lay[i]
        if w == 'v' or w == 'n':
            w = (SIZE[vt] if vt else 8)
        if lay[i] == 'n':
            if pend[3] != 'in': c.bad('count', '%s: a value is emitted outside a loop over the count' % op, ins, op); return []
            done = (pend[6] if len(pend) > 6 else ()) + ((v, size),); n = sum(x[1] for x in done)
            if n > w: c.bad('layout', '%s: a value has %d bytes instead of %d' % (op, n, w), ins, op); return []
            if n < w: st.q = (g, pend[:6] + (done,), u); return [(st, None)]
            v = join(done)
            st.q = (g, (op, i, vt, 'in', min(pend[4] + 1, 3), pend[5]), u)
            c.element(st, esp, ins, op, v)
            return [(st, None)]
        done = (pend[3] if len(pend) > 3 else ()) + ((v, size),); n = sum(x[1] for x in done)
        if n > w: c.bad('layout', '%s: operand %d has %d bytes instead of %d' % (op, i + 1, n, w), ins, op); return []
        if n < w: st.q = (g, (op, i, vt, done), u); return [(st, None)]
        v = join(done)
        st.env[('x', i)] = v
        isty = op in TYPES and (i == 1 if op == 'OP_CONST_CHECK' else i == 0)
        if isty:
            def f(y, x):
                n = c.name.get(x)
                if n not in TYPES[op]: c.bad('layout', '%s: operand type %s is not one the VM accepts' % (op, n or x), ins, op); return []
                y.env[('x', i)] = x
                return c.operand(y, esp, ins, op, i, n)
            return c.split(st, v, f, ins, 'operand type of ' + op)
        return c.operand(st, esp, ins, op, i, vt)

    def split(c, st, v, f, ins, what):
        d = st.dom(v)
        if isinstance(d, tuple) or len(d) > 32:
            c.bad('layout', 'the %s is not known' % what, ins, ins.loc()); return []
        out = []
        for x in sorted(d):
            y = st.copy() if len(d) > 1 else st
            if not isinstance(v, int) and not y.assume(fold('icmp', 'eq', 8, v, x), True, c.on_kw): continue
            out += f(y, x)
        return out

    def opcode(c, st, esp, ins, x):
        n = c.name.get(x)
        if n not in LAY: c.bad('layout', 'byte 0x%02x (%s) is emitted as an opcode' % (x, n), ins, ins.loc()); return []
        c.begin(st, esp, ins, n)
        return c.operand(st, esp, ins, n, -1, None)

    def begin(c, st, esp, ins, op): pass
    def element(c, st, esp, ins, op, v): pass

    def operand(c, st, esp, ins, op, i, vt):
        """operand i (-1: the opcode) is complete"""
        g, pend, u = st.q; i += 1
        lay = LAY[op]
        if i == len(lay):
            opnd = [st.env.pop(('x', j), None) for j in range(len(lay))]
            st.q = (g, None, u)
            c.instr(st, esp, ins, op, opnd)
            return [(st, None)]
        if lay[i] == 'n':
            st.q = (g, (op, i, vt, 'before', 0, 0), u)
            return [(st, None)]
        st.q = (g, (op, i, vt), u)
        return [(st, None)]


class Code(Client):
    """instruction layout in the functions other than parse_field; u: 'code', or 'table' behind the code of a switch"""
    def push(c, st, esp, ins, buf, size, v):
        g, pend, u = st.q
        if c.root == 'parse_switch' and pend is None and (size > 1 or u == 'table'):
            c.n += 1; c.sites.add(ins.loc())
            if not c.target(st, buf): c.bad('buffer', 'code is emitted into another buffer than the one being compiled into', ins); return []
            if size == 1: c.bad('layout', 'an instruction is emitted behind the table of a switch', ins)
            st.q = (g, None, 'table')
            return [(st, None)]
        return super().push(st, esp, ins, buf, size, v)

    def append(c, st, esp, ins, name, a):
        c.n += 1
        if st.q[1] is not None: c.bad('layout', 'code is appended in the middle of %s' % st.q[1][0], ins); return []
        return [(st, esp.fresh(st, ins, esp.fr, esp.inloop) if ins.ty.k != 'void' else None)]

    def root_run(c, name):
        c.root = name
        e = c.esp = esp.Esp(c.m, c)
        st = St((('?',), None, 'code'))
        for w in ('current', 'previous'):
            for f in ('type', 'start', 'length', 'line'): c.cur(st, f, w)
        f = c.m.functions[name]
        args = [('ptr', c.P, 0)] + [('arg', i) for i in range(1, len(f.args))]
        outs = e.run(f, args, st, ())
        for y, _ in outs:
            if y.q[1] is not None: c.bad('layout', '%s can return in the middle of %s' % (name, y.q[1][0]), name)
        c.seen = getattr(c, 'seen', set()) | e.seen
        return outs
