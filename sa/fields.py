"""What one field declaration compiles to, compared with the declaration."""
from . import ir, esp, emit
from .emit import Client, SIZE, INTS
from .esp import St, fold, pbase, is_term, contains
from .ir import AnalysisError

KW = {'uint8': 'OP_IO_U8', 'byte': 'OP_IO_U8', 'u8': 'OP_IO_U8', 'int8': 'OP_IO_I8', 'i8': 'OP_IO_I8', 'uint16': 'OP_IO_U16', 'u16': 'OP_IO_U16', 'int16': 'OP_IO_I16', 'i16': 'OP_IO_I16',
      'uint32': 'OP_IO_U32', 'u32': 'OP_IO_U32', 'int32': 'OP_IO_I32', 'i32': 'OP_IO_I32', 'uint64': 'OP_IO_U64', 'u64': 'OP_IO_U64', 'int64': 'OP_IO_I64', 'i64': 'OP_IO_I64',
      'float': 'OP_IO_F32', 'f32': 'OP_IO_F32', 'double': 'OP_IO_F64', 'f64': 'OP_IO_F64', 'bool': 'OP_IO_BOOL'}
PRE = {'uint8': 'U8', 'u8': 'U8', 'uint16': 'U16', 'u16': 'U16', 'uint32': 'U32', 'u32': 'U32'}
FLAG = {'big_endian': 'be', 'be': 'be', 'little_endian': 'le', 'le': 'le', 'crc_refin': 'refin', 'crc_refout': 'refout', 'optional': 'optional', 'eof': 'eof'}
ARGS = {'fill': 'fill', 'count': 'count', 'len': 'count', 'const': 'const', 'match': 'const', 'pad': 'pad', 'range': 'range', 'crc': 'crc', 'crc_poly': 'crc_poly', 'crc_init': 'crc_init', 'crc_xor': 'crc_xor',
        'scale': 'scale', 'offset': 'offset', 'mul': 'mul', 'div': 'div', 'add': 'add', 'sub': 'sub', 'poly': 'poly', 'spline': 'spline', 'expr': 'expr'}
TRANS = {'scale', 'offset', 'mul', 'div', 'add', 'sub', 'poly', 'spline'}
VALUE = set(SIZE) | {'OP_IO_BOOL', 'OP_IO_BIT_U', 'OP_IO_BIT_I', 'OP_IO_BIT_BOOL', 'OP_STR_NULL', 'OP_STR_PRE_U8', 'OP_STR_PRE_U16', 'OP_STR_PRE_U32', 'OP_CONST_CHECK', 'OP_CRC_16', 'OP_CRC_32',
                     'OP_RAW_BYTES', 'OP_ENTER_STRUCT', 'OP_EMIT'}


def tk(f, *role): return ('tk', f, ('role',) + role)
def text(*role): return (tk('start', *role), tk('length', *role))
def num(kind, *role): return ('num', kind) + text(*role)


class Field(Client):
    """u = (facts, out)"""
    keep = ()
    rules = ()
    drop = ()       # decorators that are left out: fields with them are another run's

    def bad(c, rule, msg, ins, key=None):
        if rule in c.rules: super().bad(rule, msg, ins, key)

    def __init__(c, m):
        super().__init__(m)
        c.NAME = None

    def key_of(c, *role): return ('strtab', ('ptr', c.P, c.k['p_strtab'])) + text(*role)
    def facts(c, st): return dict(st.q[2][0])
    def setf(c, st, **kw):
        g, p, (f, o) = st.q
        d = dict(f)
        for k, v in kw.items():
            if k in c.keep:
                if v is None: d.pop(k, None)
                else: d[k] = v
        st.q = (g, p, (frozenset(d.items()), o))
    def out(c, st, o): g, p, (f, _) = st.q; st.q = (g, p, (f, o))
    def setg(c, st, g): st.q = (g,) + st.q[1:]

    # grammar position: where the current token stands in the declaration
    def token(c, st, esp, ins, t):
        g = st.q[0]
        if t is None: c.setg(st, ('?',)); return
        k = g[0]
        n = g
        if k == 'start':
            n = {'AT': ('at',), 'IDENTIFIER': ('type',), 'DOC_COMMENT': g, 'SWITCH': ('ctl',), 'IF': ('ctl',), 'SEMICOLON': ('end',)}.get(t, ('?',))
            if t == 'IDENTIFIER': c.role(st, ('type',)); c.typed(st)
        elif k == 'at':
            n = ('deco', None)
            c.role(st, ('deco',))
        elif k == 'deco':
            d = g[1]
            if t == 'LPAREN': n = ('args', d, 0)
            elif t == 'AT': n = ('at',)
            elif t == 'IDENTIFIER': n = ('type',); c.role(st, ('type',)); c.typed(st)
            else: n = ('end',) if t == 'SEMICOLON' else ('?',)
        elif k == 'args':
            d, i = g[1], g[2]
            if t == 'RPAREN':
                n = ('start',)
                if d: c.deco(st, d, i)
            elif t in ('NUMBER', 'IDENTIFIER'):
                if d:
                    c.role(st, ('arg', d, i if t == 'NUMBER' else 'id'))
                    n = ('args', d, 'id' if t == 'IDENTIFIER' else 1 if i == 0 else 2)
        elif k == 'type':
            n = ('name',) if t == 'IDENTIFIER' else ('?',)
            if t == 'IDENTIFIER': c.role(st, ('name',)); c.setf(st, named=1)
        elif k == 'name':
            n = {'COLON': ('colon',), 'LBRACKET': ('lbrk',), 'IDENTIFIER': ('prefix',), 'SEMICOLON': ('end',)}.get(t, ('?',))
            if t == 'IDENTIFIER': c.role(st, ('word',))
        elif k == 'colon':
            n = ('name',); c.role(st, ('width',)); c.setf(st, width=1)
        elif k == 'lbrk':
            if t == 'RBRACKET': n = ('name',); c.setf(st, shape='[]')
            else: n = ('lbrkn',); c.role(st, ('size',)); c.setf(st, shape='[n]')
        elif k == 'lbrkn': n = ('name',)
        elif k == 'prefix':
            w = st.const2(('kwof', tk('start', 'word')))
            if t == 'SEMICOLON': n = ('end',)
            elif t == 'IDENTIFIER' and w == 'until_': n = g
            elif t == 'IDENTIFIER' and w == 'prefix': n = ('name',); c.role(st, ('ptype',))
            elif t == 'IDENTIFIER': c.role(st, ('word',))
            elif t == 'NUMBER':
                c.role(st, ('arg', w or '?', 0)); c.setf(st, **({w: 1} if w in ('max', 'until') else {}))
        c.setg(st, n)

    def typed(c, st): pass

    def keyword(c, st, leaf, kw):
        s = leaf[1]
        if s == tk('start', 'deco') and st.q[0][0] in ('deco', 'args'):
            d = FLAG.get(kw) or ARGS.get(kw)
            if d is None: return
            if kw in FLAG:
                if d == 'be': c.setf(st, be=1)
                elif d == 'le': c.setf(st, be=None)
                else: c.setf(st, **{d: 1})
                return
            if d in c.drop: c.setg(st, ('dropped',)); return
            c.setg(st, (st.q[0][0], d if c.tracked(d) else None) + st.q[0][2:])
        elif s == tk('start', 'type'):
            c.setf(st, type=KW.get(kw, kw), string=1 if kw == 'string' else None)
        elif s == tk('start', 'ptype'): c.setf(st, prefix=PRE.get(kw, '?'))

    def tracked(c, d): return d in c.keep
    def deco(c, st, d, i):
        """a decorator with arguments is complete"""
        c.setf(st, **{d: 1})

    def norm(c, st):
        """facts that no longer matter are dropped"""
    def noarray(c, st):
        """the field is known not to be declared as an array"""
        if st.q[0] != ('name',) or 'shape' in c.facts(st): return False
        d = st.dom(c.cur(st, 'type'))
        return not {c.k['TOK_LBRACKET'], c.k['TOK_COLON']} & (d if not isinstance(d, tuple) else c.all - d[1])

    def load(c, esp, st, ins, p, size):
        b, o = pbase(p)
        if is_term(b) and b[0] in ('enum', 'reg'):
            k = c.k
            if b[0] == 'enum' and o == k['e_type'] and size == 1:
                t = ('etype', b); st.cons.setdefault(t, frozenset(c.ops[n] for n in INTS))
                return [(st, t)]
            if isinstance(o, int): return [(st, ('fld', b, o, size))]
        if is_term(b) and b[0] == 'fld' and is_term(b[1]) and b[1][0] == 'enum' and b[2:] == (c.k['e_values'], 8):
            x = 0
            while is_term(o) and o[0] == 'bin' and o[1] == 'add' and isinstance(o[4], int): x += o[4]; o = o[3]
            if isinstance(o, int): x += o
            ok = x % c.k['ev_size'] == c.k['ev_value'] and (isinstance(o, int) or is_term(o) and (o[0] == 'phi' or o[0] == 'bin' and o[1] == 'mul' and o[4] % c.k['ev_size'] == 0))
            return [(st, ('elem', b[1]) if ok and varies(ins.ops[0], esp.fr0, esp.calls, c.k['ev_size']) else esp.fresh(st, ins, esp.fr, esp.inloop))]
        a = ins.ops[0]; x = 0
        if isinstance(a, ir.Inst) and a.op == 'gep' and not a.x[1]: x = a.x[0]; a = a.ops[0]
        if size == 8 and x == c.k['ev_value'] and isinstance(a, ir.Inst) and a.op == 'phi' and varies(a, esp.fr0, esp.calls, c.k['ev_size']):
            for w, t in st.env.items():     # a pointer that runs through the table of an enum
                if isinstance(w, tuple) and w[0] == 'trip' and w[2] == 2:
                    f, z = pbase(t)
                    if z == 0 and is_term(f) and f[0] == 'fld' and is_term(f[1]) and f[1][0] == 'enum' and f[2:] == (c.k['e_values'], 8): return [(st, ('elem', f[1]))]
        if is_term(b) and b[0] == 'a' and not isinstance(o, int): return [(st, ('elem', b, o))]

    def parsed(c, st, esp, ins, name):
        if name == 'parse_expression': st.q = st.q[:1] + (None,) + st.q[2:]

    def initial(c):
        st = St((('start',), None, (frozenset(), c.out0)))
        k = c.k
        st.store(('ptr', c.P, k['p_had_error']), 4, 0)
        for w in ('current', 'previous'):
            for f in ('type', 'start', 'length', 'line'): c.cur(st, f, w)
        out = []
        for bm in (0, 1):
            y = st.copy()
            y.store(('ptr', c.P, k['p_in_bit_mode']), 4, bm)
            c.setf(y, bits=bm or None)
            out.append(y)
        return out

    out0 = ()

    def run(c):
        e = esp.Esp(c.m, c); c.esp = e
        f = c.m.functions.get('parse_field')
        if f is None or f.decl: raise AnalysisError('parse_field not found')
        args = [('ptr', c.P, 0), ('doc',)][:len(f.args)]
        exits = []
        for st in c.initial():
            for y, _ in e.run(f, args, st, ()):
                exits.append(y)
        c.exits = len(exits)
        for y in exits:
            if y.q[1] is not None: c.bad('layout', 'parse_field can return in the middle of %s' % y.q[1][0], 'parse_field'); continue
            c.leave(y)
        return c

    def dead(c, st): return st.q[0][0] in ('dropped', 'ctl')
    def leave(c, st): pass
    def append(c, st, esp, ins, name, a):
        c.n += 1
        if st.q[1] is not None: c.bad('layout', 'code is appended in the middle of %s' % st.q[1][0], ins); return []
        return c.nested(st, esp, ins, name, a)
    def nested(c, st, esp, ins, name, a):
        return [(st, esp.fresh(st, ins, esp.fr, esp.inloop) if ins.ty.k != 'void' else None)]


class Layout(Field):
    """every instruction complete"""
    rules = ('layout', 'count', 'buffer')
    keep = ('range', 'type', 'bits')


def varies(o, fr, calls, step):
    """the address runs through the elements of an array: its index is the counter of a loop, or it is a pointer that moves on by one element"""
    idx = []
    while isinstance(o, (ir.Inst, ir.Arg)):
        if isinstance(o, ir.Arg):
            c = calls.get(fr)
            if c is None: return False
            o = c.ops[o.idx]; fr = fr[:-1]; continue
        if o.op == 'gep':
            idx += [(v, fr) for v, _ in o.x[1]]; o = o.ops[0]; continue
        if o.op == 'phi':
            l = ir.loops(o.blk.fn).get(o.blk)
            if l is None or idx: return False
            for pb, v in o.x:
                if pb in l.blocks and not (isinstance(v, ir.Inst) and v.op == 'gep' and v.ops[0] is o and v.x[0] == step and not v.x[1]): return False
            return True
        if o.op in ('bitcast', 'freeze'): o = o.ops[0]; continue
        break
    if len(idx) != 1: return False
    v, fr = idx[0]
    while True:
        v = emit.strip(v)
        if not isinstance(v, ir.Arg): break
        c = calls.get(fr)
        if c is None: return False
        v = c.ops[v.idx]; fr = fr[:-1]
    return isinstance(v, ir.Inst) and v.op == 'phi' and emit.counter(v)


def core(t):
    while is_term(t) and t[0] in ('zext', 'sext', 'trunc'): t = t[2] if t[0] == 'trunc' else t[3]
    return t


def is_num(t, *role, kinds=('i64', 'u32'), bits):
    """t is the number written there, not cut below the given number of bits"""
    w = 64
    while is_term(t) and t[0] in ('zext', 'sext', 'trunc'):
        if t[0] == 'trunc': w = min(w, t[1]); t = t[2]
        else: w = min(w, t[1]); t = t[3]
    if not (is_term(t) and t[0] == 'num' and t[1] in kinds and t[2:] == text(*role)): return False
    return min(w, 32 if t[1] == 'u32' else 64) >= bits


class Arrays(Field):
    """array headers and ends.  out: (phase, header)"""
    rules = ('array',)
    drop = ('crc',)
    keep = ('shape', 'prefix', 'countr', 'countn', 'eof', 'named')
    out0 = ('pre', None)

    def tracked(c, d): return d == 'count'
    def deco(c, st, d, i): c.setf(st, **{'countr' if i == 'id' else 'countn': 1})
    def norm(c, st):
        g, p, (f, o) = st.q
        if not f: return
        f = dict(f); n = len(f)
        if o[1] or o[0] != 'pre': f = {k: v for k, v in f.items() if k in ('shape', 'named')}
        elif g == ('name',) and 'shape' not in f:
            if c.noarray(st): f = {'named': 1, 'shape': 'none'}
        elif g == ('name',):
            if f['shape'] == '[n]': f.pop('countn', None); f.pop('prefix', None)
            elif 'prefix' in f and ('countn' in f or 'countr' in f): del f['prefix']
        if len(f) != n: st.q = (g, p, (frozenset(f.items()), o))

    def instr(c, st, esp, ins, op, x):
        ph, h = st.q[2][1]; f = c.facts(st); sh = f.get('shape')
        if sh == 'none': sh = None
        if op == 'OP_ARR_END':
            if h is None: c.bad('array', 'ARR_END for a field that has no array header', ins)
            elif ph != 'items': c.bad('array', 'ARR_END %s' % ('in front of the element' if ph == 'pre' else 'twice'), ins)
            c.out(st, ('end', h)); return
        if op.startswith('OP_ARR_'):
            if h or ph != 'pre': c.bad('array', '%s behind %s' % (op, h or 'the element'), ins); return
            ok = {'OP_ARR_EOF': 'eof' in f, 'OP_ARR_DYNAMIC': 'countr' in f, 'OP_ARR_FIXED': 'countn' in f or sh == '[n]'}.get(op)
            if ok is None: ok = op == 'OP_ARR_PRE_' + f.get('prefix', '') and sh == '[]' and not ('countn' in f or 'countr' in f)
            if sh is None: c.bad('array', '%s for a field that is not declared as an array' % op, ins)
            elif not ok: c.bad('array', '%s for an array declared with %s' % (op, c.declared(f)), ins)
            if x[0] != c.key_of('name'): c.bad('array', '%s does not name the field' % op, ins)
            if op == 'OP_ARR_DYNAMIC' and x[1] != c.key_of('arg', 'count', 'id'): c.bad('array', 'OP_ARR_DYNAMIC does not name the field given to @count', ins)
            if op == 'OP_ARR_FIXED' and not is_num(x[1], *(('size',) if sh == '[n]' else ('arg', 'count', 0)), bits=32): c.bad('array', 'OP_ARR_FIXED: the count is not the declared one', ins)
            c.out(st, ('pre', op)); return
        if op in VALUE:
            if 'named' not in f: return     # the code of an @expr
            if ph == 'end': c.bad('array', '%s behind the end of the array' % op, ins)
            if ph == 'pre' and sh is not None and h is None: c.bad('array', 'no array header in front of the element of an array declared with %s' % c.declared(f), ins)
            c.out(st, ('items', h))

    def declared(c, f): return ', '.join('%s%s' % (k, '' if v == 1 else ' ' + str(v)) for k, v in sorted(f.items()) if k != 'named') or 'nothing'
    def leave(c, st):
        ph, h = st.q[2][1]
        if h and ph != 'end': c.bad('array', 'an array field is left without ARR_END', 'parse_field')
        if c.facts(st).get('shape', 'none') != 'none' and not h: c.bad('array', 'an array declared with %s compiles without a header' % c.declared(c.facts(st)), 'parse_field')


class Plain(Field):
    """one value instruction per field, of the declared type; fields without @const, @crc and @expr.  out: value instruction emitted"""
    rules = ('value', 'type', 'key', 'width')
    keep = ('type', 'width', 'bits', 'named')
    drop = ('const', 'crc', 'expr')
    out0 = None

    def norm(c, st):
        g, p, (f, o) = st.q
        if o and p is None and len(f) > 1: st.q = (g, p, (frozenset(x for x in f if x[0] not in ('type', 'width', 'bits', 'string')), o))

    def dead(c, st):
        # no struct or enum is named string
        return super().dead(st) or str(st.q[2][1]).startswith(('OP_STR_PRE', 'string')) and (c.nonnull(st, 'reg') or c.nonnull(st, 'enum'))

    def nonnull(c, st, k):
        d = st.dom((k, tk('start', 'type')))
        return isinstance(d, tuple) and 0 in d[1] or not isinstance(d, tuple) and 0 not in d

    def second(c, st, ins, op):
        o = st.q[2][1]
        if o: c.bad('value', '%s behind %s: two values for one field' % (op, o), ins)
        c.out(st, op)
        return o

    def instr(c, st, esp, ins, op, x):
        f = c.facts(st)
        if op not in VALUE or 'named' not in f: return
        t = f.get('type'); named = t in SIZE or t in ('OP_IO_BOOL', 'string')
        st_, en = c.nonnull(st, 'reg'), c.nonnull(st, 'enum')
        if named and (st_ or en): c.out(st, op); return          # a struct or an enum that is named like a built-in type
        if c.second(st, ins, op): return
        if op == 'OP_ENTER_STRUCT' or op.startswith('OP_STR') or op.startswith('OP_IO') or op == 'OP_CONST_CHECK':
            if x[0] != c.key_of('name'): c.bad('key', '%s does not name the field' % op, ins)
        c.check(st, ins, op, x, f, t, st_, en)

    def check(c, st, ins, op, x, f, t, st_, en):
        if op in ('OP_CONST_CHECK', 'OP_CRC_16', 'OP_CRC_32', 'OP_EMIT', 'OP_RAW_BYTES'): c.bad('value', '%s for a field without @const, @crc and @expr' % op, ins); return
        if st_:
            if op != 'OP_ENTER_STRUCT': c.bad('value', '%s for a struct' % op, ins)
            return
        if en:
            if op not in INTS: c.bad('value', '%s for an enum' % op, ins)
            elif st.const(('etype', ('enum', tk('start', 'type')))) != c.ops[op]: c.bad('value', '%s is not the type of the enum' % op, ins)
            return
        if op == 'OP_ENTER_STRUCT': c.bad('value', '%s for a field that is no struct' % op, ins); return
        if t == 'string' or op.startswith('OP_STR'):
            if t not in ('string', None) or not op.startswith('OP_STR'): c.bad('type', '%s for %s' % (op, t), ins)
            return
        if t not in KW.values(): c.bad('type', '%s for the unknown type %s' % (op, t), ins); return
        want = t
        if 'width' in f or 'bits' in f:
            want = 'OP_IO_BIT_' + ('BOOL' if t == 'OP_IO_BOOL' else t[6])
            if op != want: c.bad('type', '%s for the bitfield of type %s' % (op, t), ins); return
            if op == 'OP_IO_BIT_BOOL': return
            ok = is_num(x[1], 'width', bits=8) if 'width' in f else st.const(x[1]) == 8 * SIZE[t]
            if not ok: c.bad('width', '%s: the width is not that of the field' % op, ins)
            return
        if op != want: c.bad('type', '%s for %s' % (op, t), ins)

    def leave(c, st):
        if st.q[2][1] == 'string': c.bad('value', 'a string field with @const, @crc or @expr compiles', 'parse_field')
        if 'named' in c.facts(st) and not st.q[2][1]: c.bad('value', 'a field of type %s compiles to nothing' % c.facts(st).get('type'), 'parse_field')


class Special(Plain):
    """fields with @const, @crc or @expr"""
    keep = ('type', 'spec', 'named')
    drop = ()
    SPEC = ('const', 'crc', 'expr')

    def tracked(c, d): return d in c.SPEC
    def deco(c, st, d, i):
        s = c.facts(st).get('spec')
        c.setf(st, spec=d if s in (None, d) else 'multi')
    def dead(c, st):
        g, p, (f, o) = st.q
        return super().dead(st) or g[0] == 'name' and not o and dict(f).get('spec') in (None, 'multi')

    def check(c, st, ins, op, x, f, t, st_, en):
        k = f.get('spec')
        if st_ or en: c.bad('value', '%s for a @%s field of a struct or enum type' % (op, k), ins); return
        if op.startswith('OP_STR'): c.out(st, 'string'); return       # refused behind the prefix
        if t is None and op == 'OP_CONST_CHECK': c.bad('type', '%s for an unknown type' % op, ins)
        elif k == 'const':
            if op != 'OP_CONST_CHECK': c.bad('value', '%s for a @const field' % op, ins); return
            if c.name.get(x[1]) != t: c.bad('type', 'OP_CONST_CHECK of type %s for %s' % (c.name.get(x[1]), t), ins)
            if not is_num(x[2], 'arg', 'const', 0, bits=8 * SIZE.get(c.name.get(x[1]), 8)): c.bad('value', 'OP_CONST_CHECK: the value is not the declared one', ins)
        elif k == 'crc':
            if op not in ('OP_CRC_16', 'OP_CRC_32'): c.bad('value', '%s for a @crc field' % op, ins)
            elif t != 'OP_IO_U' + op[-2:]: c.bad('type', '%s for %s' % (op, t), ins)
        else:
            if op != 'OP_EMIT': c.bad('value', '%s for an @expr field' % op, ins)
            elif c.name.get(x[0]) != t: c.bad('type', 'OP_EMIT of type %s for %s' % (c.name.get(x[0]), t), ins)


class Kinds(Plain):
    """fields with several of @const, @crc, @expr and a bit width"""
    keep = ('const', 'crc', 'expr', 'width', 'bits', 'string', 'named')
    drop = ()
    SPEC = ('const', 'crc', 'expr')

    def dead(c, st):
        g, p, (f, o) = st.q
        return super().dead(st) or g[0] == 'name' and not o and not set(c.SPEC) & set(dict(f))

    def check(c, st, ins, op, x, f, t, st_, en):
        k = [d for d in c.SPEC if d in f]
        w = {'OP_CONST_CHECK': 'const', 'OP_CRC_16': 'crc', 'OP_CRC_32': 'crc', 'OP_EMIT': 'expr'}.get(op)
        if op.startswith('OP_STR'): c.out(st, 'string'); return       # refused behind the prefix
        if k != [w]: c.bad('value', '%s for a field declared with %s' % (op, ' and '.join('@' + d for d in k)), ins)
        elif 'width' in f or 'bits' in f: c.bad('value', '%s for a bitfield' % op, ins)


class Endian(Field):
    """out: phase"""
    rules = ('endian',)
    keep = ('be', 'named')
    out0 = 'none'

    def instr(c, st, esp, ins, op, x):
        f = c.facts(st); o = st.q[2][1]
        if op == 'OP_SET_ENDIAN_BE':
            if 'be' not in f: c.bad('endian', 'SET_ENDIAN_BE for a field without @be', ins)
            elif 'named' not in f: c.bad('endian', 'SET_ENDIAN_BE in front of the decorators\' end', ins)
            elif o != 'none': c.bad('endian', 'SET_ENDIAN_BE behind %s' % o, ins)
            c.out(st, 'BE')
        elif op == 'OP_SET_ENDIAN_LE':
            if 'be' not in f: c.bad('endian', 'SET_ENDIAN_LE for a field without @be', ins)
            elif o not in ('BE', 'value'): c.bad('endian', 'SET_ENDIAN_LE behind %s' % o, ins)
            c.out(st, 'LE')
        elif 'named' in f:
            if 'be' in f and o != 'BE' and o != 'value': c.bad('endian', '%s outside the big endian part of a @be field' % op, ins)
            c.out(st, 'value')

    def leave(c, st):
        f = c.facts(st)
        if 'be' in f and 'named' in f and st.q[2][1] != 'LE': c.bad('endian', 'big endian stays in force behind a @be field', 'parse_field')


class Markers(Field):
    """@optional, @pad and @fill.  out: what is owed"""
    rules = ('marker',)
    keep = ('pad', 'fill', 'named')
    out0 = None

    def keyword(c, st, leaf, kw):
        super().keyword(st, leaf, kw)
        if leaf[1] == tk('start', 'deco') and st.q[0][0] in ('deco', 'args') and kw in ('optional', 'pad', 'fill'): c.out(st, kw)

    def token(c, st, esp, ins, t):
        o = st.q[2][1]; g = st.q[0]
        if o in ('optional', 'pad', 'fill') and (g[0] == 'start' or g[0] == 'deco' and t != 'LPAREN'): c.bad('marker', '@%s emits nothing' % o, ins); c.out(st, None)
        if g[0] == 'args' and t == 'NUMBER' and o == 'fill': c.out(st, 'fillv')
        super().token(st, esp, ins, t)

    def instr(c, st, esp, ins, op, x):
        o = st.q[2][1]
        if op == 'OP_MARK_OPTIONAL':
            if o != 'optional': c.bad('marker', 'MARK_OPTIONAL without @optional', ins)
        elif op == 'OP_ALIGN_PAD':
            if o != 'pad' or not is_num(x[0], 'arg', 'pad', 0, bits=8): c.bad('marker', 'ALIGN_PAD with another count than that of @pad', ins)
        elif op == 'OP_ALIGN_FILL':
            if o == 'fill' and st.const(x[0]) != 0 or o == 'fillv' and not is_num(x[0], 'arg', 'fill', 0, bits=1) or o not in ('fill', 'fillv'): c.bad('marker', 'ALIGN_FILL with another bit than that of @fill', ins)
        else: return
        c.out(st, None)

    def leave(c, st):
        if st.q[2][1]: c.bad('marker', '@%s emits nothing' % st.q[2][1], 'parse_field')


class Transforms(Field):
    """out: None, ('T', op) directly behind a transform, 'done'"""
    rules = ('transform',)
    keep = ('trans', 'scale', 'offset', 'other', 'named')
    WANT = {'lin': 'OP_SCALE_LIN', 'mul': 'OP_TRANS_MUL', 'div': 'OP_TRANS_DIV', 'add': 'OP_TRANS_ADD', 'sub': 'OP_TRANS_SUB', 'poly': 'OP_TRANS_POLY', 'spline': 'OP_TRANS_SPLINE'}
    out0 = None

    def tracked(c, d): return d in TRANS
    def deco(c, st, d, i):
        t = c.facts(st).get('trans')
        if d in ('scale', 'offset'):
            if t != 'lin': c.setf(st, trans='lin', scale=None, offset=None, other=1 if t else None)
            c.setf(st, **{d: 1})
        else: c.setf(st, trans=d, scale=None, offset=None, other=1 if t else None)

    def begin(c, st, esp, ins, op):
        o = st.q[2][1]
        if isinstance(o, tuple):
            if op not in SIZE: c.bad('transform', '%s between %s and the instruction it is for' % (op, o[1]), ins)
            c.out(st, 'done')

    def instr(c, st, esp, ins, op, x):
        f = c.facts(st); o = st.q[2][1]; t = f.get('trans')
        if op not in c.WANT.values(): return
        if 'named' not in f: c.bad('transform', '%s in the decorators' % op, ins)
        if t is None: c.bad('transform', '%s for a field without a transform' % op, ins); return
        if c.WANT[t] != op: c.bad('transform', '%s for a field declared with @%s' % (op, 'scale/@offset' if t == 'lin' else t), ins); return
        if o: c.bad('transform', 'a second transform', ins)
        if t == 'lin':
            for i, k, dv in ((0, 'scale', '1.0'), (1, 'offset', '0.0')):
                if k == 'offset' and 'other' in f and k not in f: continue
                if not (is_num(x[i], 'arg', k, 0, kinds=('double',), bits=64) if k in f else x[i] in (('f', dv), 0 if dv == '0.0' else 0x3ff0000000000000)): c.bad('transform', 'SCALE_LIN: the %s is not the declared one' % ('factor' if i == 0 else 'offset'), ins)
        elif t in ('mul', 'div', 'add', 'sub') and not is_num(x[0], 'arg', t, 0, kinds=('i64',), bits=64): c.bad('transform', '%s: the operand is not the declared one' % op, ins)
        c.out(st, ('T', op))

    def leave(c, st):
        f = c.facts(st)
        if 'named' in f and f.get('trans') and st.q[2][1] != 'done': c.bad('transform', 'a field declared with a transform compiles without it', 'parse_field')
        if isinstance(st.q[2][1], tuple): c.bad('transform', 'a transform at the end of the field', 'parse_field')


class Ranges(Field):
    """out: None, ('v', type) directly behind the value, 'done'"""
    rules = ('range',)
    keep = ('range', 'type', 'const', 'named')
    out0 = None

    def instr(c, st, esp, ins, op, x):
        f = c.facts(st); o = st.q[2][1]
        if op == 'OP_RANGE_CHECK':
            if 'range' not in f: c.bad('range', 'RANGE_CHECK for a field without @range', ins); return
            if not isinstance(o, tuple): c.bad('range', 'RANGE_CHECK that does not follow the value', ins); return
            n = c.name.get(x[0])
            if n != o[1]: c.bad('range', 'RANGE_CHECK of type %s behind a value of type %s' % (n, o[1]), ins)
            kinds = ('double',) if n in ('OP_IO_F32', 'OP_IO_F64') else ('i64', 'u32') if n in ('OP_IO_U8', 'OP_IO_U16', 'OP_IO_U32') else ('i64',)
            for i in (0, 1):
                v = x[1 + i]
                if n == 'OP_IO_F32' and is_term(v) and v[0] == 'fptrunc': v = v[2]
                if not is_num(v, 'arg', 'range', i, kinds=kinds, bits=64 if kinds == ('double',) else 8 * SIZE[n]): c.bad('range', 'RANGE_CHECK of type %s: the %s limit is not the declared one' % (n, 'lower' if i == 0 else 'upper'), ins)
            c.out(st, 'done')
        elif 'named' in f:
            if op in SIZE: c.out(st, ('v', op))
            elif op in ('OP_CONST_CHECK', 'OP_ENUM_CHECK'): c.out(st, ('v', c.name.get(x[1 if op == 'OP_CONST_CHECK' else 0])))
            elif isinstance(o, tuple): c.out(st, None)

    def leave(c, st):
        f = c.facts(st)
        if 'named' in f and 'range' in f and st.q[2][1] != 'done': c.bad('range', 'a field declared with @range compiles without the check', 'parse_field')


class Crc(Field):
    """the CRC instruction and its operands, one operand per run.  out: emitted"""
    rules = ('crc',)
    out0 = None
    DEF = {16: (0x1021, 0xffff, 0, 0), 32: (0x04C11DB7, 0xffffffff, 0xffffffff, 3)}
    PAR = ('crc_poly', 'crc_init', 'crc_xor')

    def __init__(c, m, what='crc_poly'):
        super().__init__(m)
        c.what = what
        c.keep = ('crc', 'named', 'type') + (('refin', 'refout') if what == 'flags' else (what,))

    def width(c, st):
        for l, d in st.cons.items():
            if not isinstance(d, tuple) and len(d) == 1 and is_num(l, 'arg', 'crc', 0, bits=32): return next(iter(d))
    def key(c, st): return c.width(st)

    def typed(c, st): pass
    def setf(c, st, **kw):
        kw.pop('type', None); super().setf(st, **kw)
    def deco(c, st, d, i):
        # the parameters of the width replace what was declared before
        if d == 'crc': c.setf(st, **{k: None for k in c.PAR + ('refin', 'refout')})
        c.setf(st, **{d: 1})
    def dead(c, st):
        return super().dead(st) or st.q[0][0] == 'name' and 'crc' not in c.facts(st)
    def norm(c, st):
        g, p, (f, o) = st.q
        if g[0] in ('start', 'at', 'deco') and not any(k == 'crc' for k, _ in f) and f: st.q = (g, p, (frozenset(), o))

    def instr(c, st, esp, ins, op, x):
        if op not in ('OP_CRC_16', 'OP_CRC_32'): return
        f = c.facts(st); w = int(op[-2:])
        if 'crc' not in f: c.bad('crc', '%s for a field without @crc' % op, ins); return
        c.out(st, op)
        if c.width(st) != w: c.bad('crc', '%s for another width than the one of @crc' % op, ins); return
        for i, k in enumerate(c.PAR):
            if k != c.what: continue
            ok = is_num(x[i], 'arg', k, 0, bits=w) if k in f else st.const(x[i]) == c.DEF[w][i]
            if not ok: c.bad('crc', '%s: operand %s is not %s' % (op, k, 'the declared one' if k in f else 'the one of the standard CRC'), ins)
        if c.what == 'flags':
            fl = c.DEF[w][3] | ('refin' in f) | 2 * ('refout' in f)
            if st.const(x[3]) != fl: c.bad('crc', '%s: the reflection flags are %s instead of %d' % (op, st.const(x[3]), fl), ins)

    def leave(c, st):
        f = c.facts(st)
        if 'named' in f and 'crc' in f and st.q[2][1] is None: c.bad('crc', 'a field declared with @crc compiles without the CRC', 'parse_field')


class Strings(Field):
    """facts: sp is the string prefix that is due ('-': none)"""
    rules = ('string',)
    keep = ('string', 'prefix', 'shape', 'max', 'count', 'named')
    out0 = None

    def deco(c, st, d, i): c.setf(st, **{d: ''.join(sorted({*c.facts(st).get(d, ''), 'r' if i == 'id' else 'n'}))})

    def norm(c, st):
        g, p, (f, o) = st.q
        if not f: return
        d = dict(f); f0 = dict(f)
        if o: d = {'named': 1}
        elif g == ('name',):
            if 'shape' not in d and c.noarray(st): d['shape'] = 'x'
            if d.get('shape', '[]') != '[]': d.pop('count', None); d['shape'] = 'x'
            if 'prefix' in d and 'shape' in d:
                if d['shape'] == '[]' and 'count' not in d: d['prefix'] = 'array'
                d['shape'] = 'x'; d.pop('count', None)
        if d != f0: st.q = (g, p, (frozenset(d.items()), o))

    def instr(c, st, esp, ins, op, x):
        if not op.startswith('OP_STR_'): return
        f = c.facts(st)
        if x[0] != c.key_of('name'): c.bad('string', '%s does not name the field' % op, ins)
        p = f.get('prefix')
        if p == 'array': p = None
        if op == 'OP_STR_NULL':
            if p: c.bad('string', 'a terminated string for a prefixed one', ins)
            elif not (is_num(x[1], 'arg', 'max', 0, bits=16) if 'max' in f else st.const(x[1]) == 255): c.bad('string', 'OP_STR_NULL: the maximum is not the declared one', ins)
        elif op != 'OP_STR_PRE_%s' % p: c.bad('string', '%s for a string with prefix %s' % (op, p), ins)
        c.out(st, 1)


class Nested(Field):
    """structs and enums.  out: position"""
    rules = ('struct', 'enum')
    keep = ('named',)
    out0 = None

    def instr(c, st, esp, ins, op, x):
        if 'named' not in c.facts(st): return
        o = st.q[2][1]
        E = ('enum', tk('start', 'type'))
        if op == 'OP_ENTER_STRUCT':
            if o: c.bad('struct', 'OP_ENTER_STRUCT behind %s' % o, ins)
            c.out(st, 'enter')
        elif op == 'OP_EXIT_STRUCT':
            if o != 'body': c.bad('struct', 'OP_EXIT_STRUCT that does not follow the fields of the struct', ins)
            c.out(st, None)
        elif o == 'enter': c.bad('struct', '%s between OP_ENTER_STRUCT and the fields' % op, ins)
        elif op == 'OP_ENUM_CHECK':
            if core(x[1]) != ('fld', E, c.k['e_count'], 8): c.bad('enum', 'OP_ENUM_CHECK: the count is not that of the enum', ins)
            if o != 'enum' or st.const(x[0]) != st.const(('etype', E)): c.bad('enum', 'OP_ENUM_CHECK that does not follow the value', ins)
            c.out(st, 'checked')
        elif op in INTS and c.isenum(st): c.out(st, 'enum')
        elif o == 'enum': c.bad('enum', '%s between the value of an enum and its check' % op, ins)

    def isenum(c, st):
        d = st.dom(('enum', tk('start', 'type'))); r = st.dom(('reg', tk('start', 'type')))
        return isinstance(d, tuple) and 0 in d[1] and not (isinstance(r, tuple) and 0 in r[1])

    def element(c, st, esp, ins, op, v):
        if op != 'OP_ENUM_CHECK': return
        v = core(v); E = ('enum', tk('start', 'type'))
        ok = v == ('elem', E)
        if not ok: c.bad('enum', 'OP_ENUM_CHECK: what is listed is not the value of the next enumerator', ins)

    def nested(c, st, esp, ins, name, a):
        if st.q[2][1] != 'enter': c.bad('struct', 'the fields of a struct outside ENTER_STRUCT', ins)
        R = ('reg', tk('start', 'type')); k = c.k
        if not c.target(st, a[0]): c.bad('struct', 'the fields of a struct go to another buffer', ins)
        if a[1] != ('fld', R, k['s_bytecode'] + k['b_data'], 8) or a[2] != ('fld', R, k['s_bytecode'] + k['b_size'], 8): c.bad('struct', 'what is nested is not the code of the struct', ins)
        if name != 'buf_append_with_prefix': c.bad('struct', 'the keys of a nested struct are not prefixed', ins)
        c.out(st, 'body')
        r = esp.fresh(st, ins, esp.fr, esp.inloop)
        return [(st, r)]

    def leave(c, st):
        if st.q[2][1] in ('enter', 'body', 'enum'): c.bad('struct', 'the field ends %s' % {'enter': 'behind OP_ENTER_STRUCT', 'body': 'without OP_EXIT_STRUCT', 'enum': 'without OP_ENUM_CHECK'}[st.q[2][1]], 'parse_field')


class Exprs(Field):
    rules = ('expr',)
    keep = ('expr', 'named', 'shape', 'string')
    out0 = 0

    def norm(c, st):
        g, p, (f, o) = st.q; d = dict(f)
        if g == ('name',) and 'shape' not in d and c.noarray(st): st.q = (g, p, (f | {('shape', 'x')}, o))

    def parsed(c, st, esp, ins, name):
        if name == 'parse_expression':
            if 'expr' not in c.keep or st.q[0][:2] != ('args', 'expr'): c.bad('expr', 'an expression outside @expr', ins)
            if st.q[2][1]: c.bad('expr', 'the value of an expression is left on the stack', ins)
            c.out(st, 1)

    def instr(c, st, esp, ins, op, x):
        f = c.facts(st); o = st.q[2][1]
        if o == 0: 
            if op in ('OP_DUP', 'OP_STORE_CTX', 'OP_EMIT'): c.bad('expr', '%s without an @expr' % op, ins)
            return
        if 'named' not in f: return
        seq = {1: 'OP_DUP', 2: 'OP_STORE_CTX', 3: 'OP_EMIT'}
        if op in ('OP_SET_ENDIAN_BE', 'OP_SET_ENDIAN_LE') and o in (1, 4): return
        if seq.get(o) != op: c.bad('expr', '%s where the value of the expression is to be stored and emitted' % op, ins); return
        if op == 'OP_STORE_CTX' and x[0] != c.key_of('name'): c.bad('expr', 'the value of the expression is stored under another name', ins)
        c.out(st, o + 1)

    def leave(c, st):
        if st.q[2][1] not in (0, 4): c.bad('expr', 'the value of the expression is not emitted', 'parse_field')


class CrcInit(Crc):
    def __init__(c, m): super().__init__(m, 'crc_init')
class CrcXor(Crc):
    def __init__(c, m): super().__init__(m, 'crc_xor')
class CrcFlags(Crc):
    def __init__(c, m): super().__init__(m, 'flags')


ALL = [Layout, Arrays, Plain, Special, Kinds, Endian, Markers, Transforms, Ranges, Crc, CrcInit, CrcXor, CrcFlags, Strings, Nested, Exprs]
