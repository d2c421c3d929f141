"""What declarations do to the parser's state and to the code: struct, packet, enum, blocks, imports and the top level of a schema."""
from . import ir, esp, emit, fields, branch
from .branch import Place, G, add, drive, rel
from .emit import narrow
from .esp import fold, is_term, pbase, contains, leaves, sx, peel
from .exprs import diff
from .fields import text, tk, KW, is_num

M64 = (1 << 64) - 1


class Decl(Place):
    """u: a tuple of what has happened so far"""
    u0 = ()
    SZ = {}

    def u(c, st): return st.q[2]
    def mark(c, st, x):
        g, p, u = st.q
        if len(u) < 14: st.q = (g, p, u + (x,))
    def has(c, st, x): return x in st.q[2]
    def drop(c, st, *xs): g, p, u = st.q; st.q = (g, p, tuple(x for x in u if x not in xs and not (isinstance(x, tuple) and x[0] in xs)))

    def field(c, f): return ('ptr', c.P, c.k['p_' + f])
    def getf(c, st, f, n=4):
        v = st.load(c.field(f), n)
        return v
    def init(c, st, f, n, v, dom=None):
        st.store(c.field(f), n, v)
        if dom is not None: st.cons[v] = frozenset(dom)
    def const(c, st, v): return None if v is None else st.const(v)
    def dom(c, st, v): return esp.NOT0 if v is None else st.dom(v)
    def can(c, st, v, x):
        """v may have the value x"""
        d = c.dom(st, v)
        return x not in d[1] if isinstance(d, tuple) else x in d

    def key_of(c, *role): return ('strtab', ('ptr', c.P, c.k['p_strtab'])) + text(*role)
    def is_key(c, v, *role): return narrow(v, 16)[0] == c.key_of(*role) and narrow(v, 16)[1] >= 16
    def patch(c, st, esp, ins, size, loc, v): c.bad(c.rule, 'code that is already there is overwritten', ins)

    def token1(c, st, esp, ins, t): pass
    def token(c, st, esp, ins, t): c.token1(st, esp, ins, t)

    def is_key_start(c, v): return c.is_key(v, 'name')

    # a name that is looked up: both parts must come from the same token
    def call(c, esp, st, ins, name, a):
        if name in ('reg_find', 'enum_reg_find'):
            ok = is_term(a[1]) and a[1][:2] == ('tk', 'start') and a[2] == ('tk', 'length', a[1][2])
            if ok and not c.table(a[0], 'registry' if name == 'reg_find' else 'enums'): ok = False
            if not ok: return [(st, esp.fresh(st, ins, esp.fr, esp.inloop))]
        elif name in ('reg_add', 'enum_reg_add'): return c.added(st, esp, ins, name, a)
        elif name in ('strtab_init', 'strtab_free') and a and a[0] == c.field('current_struct_fields') and 'nofields' not in c.u(st): c.mark(st, 'nofields')
        elif name == 'strtab_add' and a[0] == c.field('current_struct_fields'): c.drop(st, 'nofields')
        elif name == 'parser_error': c.error(st, ins)
        return super().call(esp, st, ins, name, a)

    def table(c, p, f): return p == c.field(f)
    def added(c, st, esp, ins, name, a): c.bad(c.rule, 'something is defined here', ins); return []
    def error(c, st, ins): pass
    def begin(c, st, esp, ins, op): st.env['at'] = c.pos(st)

    def unique(c, st, what):
        for t, w in (('reg', 'struct'), ('enum', 'enum')):
            v = (t, tk('start', 'name'))
            if c.can(st, v, 0) and st.const(v) == 0: continue
            c.bad('name', '%s whose name is that of %s is accepted' % (what, 'a struct' if w == 'struct' else 'an enum'), c.root)

    def run(c): return drive(c)


BITS = frozenset(range(48))


class Struct(Decl):
    root = 'parse_struct'; rule = 'struct'; pend = 0

    def begin0(c):
        st = super().begin0()
        st.store(c.field('target'), 8, ('target',))
        st.store(c.field('pending_unaligned'), 4, c.pend)
        st.store(c.field('in_bit_mode'), 4, 0)
        for f, n in (('current_struct_name', 8), ('current_struct_name_len', 4), ('current_bit_count', 4), ('is_bit_count_valid', 4)): st.store(c.field(f), n, ('in', f))
        return st

    def token1(c, st, esp, ins, t):
        if 'name' in c.u(st): c.bad('struct', 'a token of the struct is skipped', ins); return
        if t == 'IDENTIFIER': c.role(st, ('name',))
        c.mark(st, 'name')

    def added(c, st, esp, ins, name, a):
        if name != 'reg_add' or not c.table(a[0], 'registry') or tuple(a[1:3]) != text('name'): c.bad('struct', 'the struct is not defined under its name', ins)
        if 'def' in c.u(st): c.bad('struct', 'a struct is defined twice', ins)
        c.mark(st, 'def'); c.unique(st, 'a struct')
        st.cons[('def',)] = ('not', frozenset((0,)))
        return [(st, ('def',))]

    def here(c, st, ins):
        if c.getf(st, 'target', 8) not in (('ptr', ('def',), c.k['s_bytecode']), ('def',) if not c.k['s_bytecode'] else None): c.bad('struct', 'code of a struct does not go into the code of that struct', ins)

    def instr(c, st, esp, ins, op, x): c.n += 1; c.here(st, ins); c.mark(st, op)

    def parsed(c, st, esp, ins, name):
        c.n += 1
        if name != 'parse_block': c.bad('struct', '%s is called for the body of a struct' % name, ins); return
        c.here(st, ins)
        if c.const(st, c.getf(st, 'in_bit_mode')) != c.pend: c.bad('struct', 'the fields of a struct that is %sdeclared @unaligned_bytes are %scompiled as bit fields' % (('', 'not ') if c.pend else ('not ', '')), ins)
        if c.pend and (c.const(st, c.getf(st, 'current_bit_count')) != 0 or c.can(st, c.getf(st, 'is_bit_count_valid'), 0)): c.bad('bits', 'the bits of an unaligned struct are not counted from 0', ins)
        if c.getf(st, 'current_struct_name', 8) != tk('start', 'name') or c.getf(st, 'current_struct_name_len') != tk('length', 'name'): c.bad('struct', 'a struct that contains itself is not recognised', ins)
        if 'nofields' not in c.u(st): c.bad('struct', 'the names of the fields of an earlier struct are still taken', ins)
        c.drop(st, 'nofields'); c.mark(st, 'block')

    def call(c, esp, st, ins, name, a):
        pu = c.getf(st, 'pending_unaligned')
        r = super().call(esp, st, ins, name, a)
        if name == 'parse_block':
            for y, _ in r:
                for f in ('current_bit_count', 'is_bit_count_valid'):
                    v = ('blk', f); y.forget(v); y.store(c.field(f), 4, v)
                    y.cons[v] = frozenset((0, 1)) if f[0] == 'i' else BITS
                if pu is not None: y.store(c.field('pending_unaligned'), 4, pu)
                for f, n in (('current_struct_name', 8), ('current_struct_name_len', 4)): y.store(c.field(f), n, ('blk', f))
        return r

    def aligned(c, st):
        """-> True: the struct is known to be whole bytes, or not known how long; False: known not to be; None: may be either"""
        v, n = c.dom(st, ('blk', 'is_bit_count_valid')), c.dom(st, ('blk', 'current_bit_count'))
        if isinstance(v, tuple) or isinstance(n, tuple): return None
        if v == {0} or all(x % 8 == 0 for x in n): return True
        if v == {1} and all(x % 8 for x in n): return False

    def norm(c, st):
        if 'block' in c.u(st) and 'aligned' not in c.u(st) and c.aligned(st): c.mark(st, 'aligned')

    def error(c, st, ins):
        v, n = c.dom(st, ('blk', 'is_bit_count_valid')), c.dom(st, ('blk', 'current_bit_count'))
        whole = v == {1} and not isinstance(n, tuple) and n != BITS and any(x % 8 == 0 for x in n)
        if 'block' in c.u(st) and (not c.pend or whole or 'aligned' in c.u(st) or c.aligned(st)): c.bad('bits', 'a struct that consists of whole bytes is rejected', ins)

    def leave(c, st):
        c.n += 1; u = c.u(st)
        seq = [x for x in u if x.startswith('OP_') or x == 'block']
        want = (['OP_ENTER_BIT_MODE', 'OP_SET_ENDIAN_BE'] if c.pend else []) + ['block'] + (['OP_EXIT_BIT_MODE'] if c.pend else [])
        if seq != want and seq != want[1::-1] + want[2:]: c.bad('struct', 'the code of %s struct is %s' % ('an unaligned' if c.pend else 'a', ', '.join(seq) or 'empty'), c.root)
        if 'def' not in u: c.bad('struct', 'a struct is not defined', c.root)
        if c.getf(st, 'target', 8) != ('target',): c.bad('struct', 'what follows a struct goes into the code of the struct', c.root)
        if c.const(st, c.getf(st, 'in_bit_mode')) != 0: c.bad('struct', 'what follows an unaligned struct is compiled as bit fields', c.root)
        if c.pend and c.const(st, c.getf(st, 'pending_unaligned')) != 0: c.bad('struct', '@unaligned_bytes applies to the next struct, too', c.root)
        if c.getf(st, 'current_struct_name', 8) != ('in', 'current_struct_name'): c.bad('struct', 'a packet is taken for the struct in front of it', c.root)
        if c.pend and 'aligned' not in c.u(st) and c.aligned(st) is not True: c.bad('bits', 'an unaligned struct that does not end on a byte boundary is accepted', c.root)


class Unaligned(Struct): pend = 1


class Packet(Decl):
    root = 'parse_packet'; rule = 'packet'

    def begin0(c):
        st = super().begin0()
        st.store(c.field('target'), 8, ('target',))
        return st

    def token1(c, st, esp, ins, t):
        u = c.u(st)
        if 'name' not in u:
            if t == 'IDENTIFIER': c.role(st, ('name',))
            c.mark(st, 'name')
        elif '=' not in u:
            if t != 'EQUALS': c.bad('packet', 'a token of the packet is skipped', ins)
            c.mark(st, '=')
        elif 'of' not in u:
            if t == 'IDENTIFIER': c.role(st, ('of',))
            c.mark(st, 'of')
        elif t == 'SEMICOLON' and ';' not in u: c.mark(st, ';')
        else: c.bad('packet', 'a token of the packet is skipped', ins)

    def instr(c, st, esp, ins, op, x):
        at = st.env.pop('at', None); c.n += 1
        if op != 'OP_META_NAME' or any(isinstance(y, tuple) for y in c.u(st)): c.bad('packet', '%s in a packet' % op, ins); return
        c.setg(st, 'M', at); c.setg(st, 'K', x[0]); c.mark(st, ('META',))

    def patch(c, st, esp, ins, size, loc, v):
        m = c.g(st, 'M')
        if m is not None and diff(loc, add(m, 1)) == 0 and size == 2: c.setg(st, 'K', v); return
        c.bad('packet', 'something else than the name of the packet is overwritten', ins)

    def parsed(c, st, esp, ins, name):
        c.n += 1
        if name != 'parse_block': c.bad('packet', '%s is called for the body of a packet' % name, ins); return
        if '=' in c.u(st): c.bad('packet', 'a block follows packet name = struct', ins)
        if 'nofields' not in c.u(st): c.bad('packet', 'the names of the fields of an earlier struct are still taken', ins)
        c.drop(st, 'nofields'); c.label(st, esp, ins); c.mark(st, ('block',))

    def load(c, esp, st, ins, p, size):
        b, o = pbase(p)
        if b == ('reg', tk('start', 'of')) and isinstance(o, int): return [(st, ('code', o))]
        return super().load(esp, st, ins, p, size)

    def append(c, st, esp, ins, name, a):
        c.n += 1
        k = c.k['s_bytecode']
        if name != 'buf_append' or not c.target(st, a[0]) or a[1] != ('code', k + c.k['b_data']) or a[2] != ('code', k + c.k['b_size']) or c.can(st, ('reg', tk('start', 'of')), 0):
            c.bad('packet', 'something else than the whole code of the struct named behind = is copied', ins)
        c.label(st, esp, ins); c.mark(st, ('copy',))
        return [(st, None)]

    def leave(c, st):
        c.n += 1; u = c.u(st)
        seq = [x[0] for x in u if isinstance(x, tuple)]
        if seq != ['META', 'copy' if '=' in u else 'block']: c.bad('packet', 'the code of a packet%s is %s' % (' = struct' if '=' in u else '', ', '.join({'META': 'its name', 'copy': 'that of a struct', 'block': 'that of its block'}[x] for x in seq) or 'empty'), c.root)
        if '=' in u and ';' not in u: c.bad('packet', 'packet name = struct without ; is accepted', c.root)
        v = c.g(st, 'K')
        if v is None or not c.is_key(v, 'name'): c.bad('packet', 'the name in the image is not the name of the packet', c.root)
        if c.getf(st, 'target', 8) not in (None, ('target',)): c.bad('packet', 'what follows a packet goes elsewhere', c.root)
        c.unique(st, 'a packet')


class Block(Decl):
    root = 'parse_block'; rule = 'block'

    def token1(c, st, esp, ins, t):
        u = c.u(st)
        if not u:
            if t != 'LBRACE': c.bad('block', 'a block begins with something else than {', ins)
            c.mark(st, '{')
        elif '}' in u: c.bad('block', 'tokens behind a block are skipped', ins)
        elif t == 'RBRACE': c.mark(st, '}')
        elif t != 'DOC_COMMENT': c.bad('block', 'a token of a field is skipped', ins)

    def parsed(c, st, esp, ins, name):
        c.n += 1
        if name != 'parse_field' or c.u(st) != ('{',): c.bad('block', '%s is called %s' % (name, {(): 'in front of a block', ('{',): 'in a block'}.get(c.u(st), 'behind a block')), ins)
        if c.can(st, c.cur(st, 'type'), c.k['TOK_RBRACE']): c.bad('block', 'the } of a block is taken for a field', ins)

    def instr(c, st, esp, ins, op, x): c.bad('block', '%s for a block' % op, ins)
    def leave(c, st):
        c.n += 1
        if c.u(st) != ('{', '}'): c.bad('block', 'a block is left before its }', c.root)


class Import(Decl):
    root = 'parse_import'; rule = 'import'
    LEX = 24
    IN = {'lexer': {0: ('in', 'lexer'), 1: ('in', 'lexpos'), 2: ('in', 'lexline')}, 'path': {7: ('in', 'current_path')}, 'depth': {8: ('in', 'import_depth')}}

    def begin0(c):
        st = super().begin0()
        for f, n in (('lexer', 8), ('current_path', 8), ('import_depth', 4), ('target', 8)): st.store(c.field(f), n, ('in', f))
        b, o = pbase(c.field('lexer'))
        st.store(('ptr', b, o + 8), 8, ('in', 'lexpos')); st.store(('ptr', b, o + 16), 4, ('in', 'lexline'))
        st.cons[('in', 'import_depth')] = frozenset((0, 1, 2))
        return st

    def saved(c, st):
        b, o = pbase(c.field('lexer')); r = [('lexer', st.load(('ptr', b, o + i), n)) for i, n in ((0, 8), (8, 8), (16, 4))]
        for w in ('current', 'previous'):
            for f in ('type', 'start', 'length') if w == 'current' else ('start',): r.append((w + ' token', st.load(c.cell(w, f), 8 if f == 'start' else 4)))
        return r + [('path', c.getf(st, 'current_path', 8)), ('depth', c.getf(st, 'import_depth'))]

    def token1(c, st, esp, ins, t):
        if 'inner' in c.u(st):
            if 'ahead' in c.u(st): c.bad('import', 'a token of the imported file is skipped', ins)
            c.mark(st, 'ahead'); return
        if 'parsed' in c.u(st): c.bad('import', 'a token behind the import is skipped', ins)
        if t == 'STRING': c.role(st, ('file',)); c.mark(st, 'file')
        elif t == 'LPAREN': c.mark(st, '(')
        elif t == 'RPAREN' and c.u(st) == ('(', 'file'): c.mark(st, ')')
        else: c.bad('import', 'tokens behind an import are skipped', ins)

    def call(c, esp, st, ins, name, a):
        if name == 'lexer_init' and a[0] == c.field('lexer'):
            if 'parsed' in c.u(st) or 'inner' in c.u(st): c.bad('import', 'a file is imported twice', ins); return []
            for i, (w, v) in enumerate(c.saved(st)): c.setg(st, ('s', i), v)
            c.mark(st, 'inner')
            if a[1] != c.g(st, 'text'): c.bad('import', 'something else than the imported file is read', ins)
            b, o = pbase(a[0]); st.kill(b, o, c.LEX)
            return [(st, None)]
        if name == 'strtab_add' and a[0] == c.field('imports'): c.setg(st, 'noted', a[1])
        if name == 'cnd_read_source':
            if c.g(st, 'noted') is None or c.g(st, 'noted') != a[0]: c.bad('import', 'a file is read that has not been noted as imported', ins)
            t = esp.fresh(st, ins, esp.fr, esp.inloop); c.setg(st, 'text', t); c.setg(st, 'path', a[0])
            return [(st, t)]
        if name in ('resolve_path', 'cnd_canonicalize_path', 'strcmp'): return [(st, esp.fresh(st, ins, esp.fr, esp.inloop))]
        if name == 'free' and 'inner' in c.u(st) and 'parsed' not in c.u(st) and a[0] in (c.g(st, 'text'), c.g(st, 'path')): c.bad('import', 'what the imported file is read from is released too early', ins)
        depth = c.getf(st, 'import_depth')
        r = super().call(esp, st, ins, name, a)
        if name in emit.PARSE and depth is not None:
            for y, _ in r: y.store(c.field('import_depth'), 4, depth)
        return r

    def parsed(c, st, esp, ins, name):
        c.n += 1
        if name != 'parse_top_level' or not {'inner', 'ahead'} <= set(c.u(st)) or 'parsed' in c.u(st): c.bad('import', '%s is called for an import' % name, ins); return
        if c.getf(st, 'current_path', 8) != c.g(st, 'path'): c.bad('import', 'paths in the imported file are not relative to that file', ins)
        if c.can(st, c.getf(st, 'import_depth'), 0): c.bad('import', 'an imported file needs a packet of its own', ins)
        if c.const(st, c.g(st, 'text')) == 0 or c.can(st, c.g(st, 'text'), 0): c.bad('import', 'a file that cannot be read is imported', ins)
        c.drop(st, 'inner', 'ahead'); c.mark(st, 'parsed')

    def instr(c, st, esp, ins, op, x): c.bad('import', '%s for an import' % op, ins)

    def leave(c, st):
        c.n += 1
        if ')' not in c.u(st): c.bad('import', 'an import without ( file ) is accepted', c.root)
        if 'inner' in c.u(st): c.bad('import', 'the imported file is not compiled', c.root)
        for i, (w, v) in enumerate(c.saved(st)):
            if 'parsed' in c.u(st) and (v is None or v != (c.IN.get(w, {}).get(i) or c.g(st, ('s', i))) and diff(v, c.IN.get(w, {}).get(i)) != 0): c.bad('import', 'the %s of the importing file is not restored' % w, c.root, w)


class Top(Decl):
    root = 'parse_top_level'; rule = 'top'
    NEED = {'STRUCT': 'parse_struct', 'ENUM': 'parse_enum', 'PACKET': 'parse_packet'}
    DEC = {'version': 'version', 'import': 'import', 'big_endian': 'be', 'little_endian': 'le', 'le': 'le', 'unaligned_bytes': 'un'}
    WANT = {'version': ('OP_META_VERSION',), 'import': ('parse_import',), 'be': ('OP_SET_ENDIAN_BE',), 'le': ('OP_SET_ENDIAN_LE',)}
    # u = (what is being parsed, keyword, what it led to)
    u0 = ('idle', None, ())

    def mark(c, st, x):
        if not isinstance(x, str) or x == 'nofields': return
    def drop(c, st, *xs): pass

    def begin0(c):
        st = super().begin0()
        c.init(st, 'packet_count', 4, ('pc',), (0, 1, 2)); c.init(st, 'import_depth', 4, ('dep',), (0, 1, 2))
        return st

    def set(c, st, *u): g, p, _ = st.q; st.q = (g, p, u)
    def norm(c, st):
        for f, t in (('packet_count', ('pc',)), ('import_depth', ('dep',))):
            v = c.getf(st, f)
            if v is None or is_term(v) and v[0] == 'phi':
                d = st.cons.get(v) if v is not None else None
                st.forget(t)
                if v is not None: st.rename(v, t)
                st.store(c.field(f), 4, t); st.cons[t] = d if d is not None else frozenset((0, 1, 2))

    def key(c, st):
        pc, dep = c.getf(st, 'packet_count'), c.getf(st, 'import_depth')
        return (c.const(st, pc) is not None or pc, c.can(st, pc, 0), c.can(st, dep, 0), c.const(st, c.getf(st, 'pending_unaligned')))

    def close(c, st, ins):
        ph, kw, out = c.u(st)
        if ph == 'dec':
            d = st.dom(('kwof', tk('start', 'dec'))) if kw is None else ('not', c.DEC)
            for k in sorted(set(c.DEC) - set(d[1] if isinstance(d, tuple) else ())): c.bad('top', '@%s is not recognised' % k, ins)
            if out != c.WANT.get(kw, ()): c.bad('top', '@%s in front of a declaration leads to %s' % ({'be': 'big_endian', 'le': 'little_endian', 'un': 'unaligned_bytes', None: 'something else'}.get(kw, kw), ', '.join(out) or 'nothing'), ins)
            if kw == 'un' and (c.getf(st, 'pending_unaligned') is None or c.can(st, c.getf(st, 'pending_unaligned'), 0)): c.bad('top', '@unaligned_bytes is not remembered', ins)
        elif ph == 'need': c.bad('top', 'a declaration is skipped', ins)
        c.set(st, *c.u0)

    def token1(c, st, esp, ins, t):
        ph, kw, out = c.u(st); c.n += 1
        if ph == 'at':
            if t == 'IDENTIFIER': c.role(st, ('dec',))
            c.set(st, 'dec', None, ()); return
        if ph == 'dec' and t in ('LPAREN', 'RPAREN', 'NUMBER', 'IDENTIFIER', 'STRING', 'COMMA', None) and kw in ('version', None):
            if t == 'NUMBER' and kw == 'version': c.role(st, ('ver',))
            return
        if ph == 'dec' and kw is None and t not in ('AT', 'STRUCT', 'ENUM', 'PACKET', 'DOC_COMMENT', 'SEMICOLON', 'EOF'): return
        c.close(st, ins)
        if t == 'AT': c.set(st, 'at', None, ())
        elif t in c.NEED: c.set(st, 'need', t, ())
        elif t not in ('DOC_COMMENT', 'SEMICOLON'): c.bad('top', 'a token between declarations is skipped', ins)

    def keyword(c, st, leaf, kw):
        ph, k, out = c.u(st)
        if ph == 'dec' and leaf[1] == tk('start', 'dec'): c.set(st, 'dec', c.DEC.get(kw), out)

    def instr(c, st, esp, ins, op, x):
        ph, kw, out = c.u(st); c.n += 1
        if ph != 'dec': c.bad('top', '%s between declarations' % op, ins); return
        if op == 'OP_META_VERSION' and kw == 'version' and not is_num(x[0], 'ver', bits=8): c.bad('top', 'the version in the image is not the one declared', ins)
        c.set(st, ph, kw, (out + (op,))[-4:])

    def parsed(c, st, esp, ins, name):
        ph, kw, out = c.u(st); c.n += 1
        if ph == 'dec' and name == 'parse_import': c.set(st, ph, kw, (out + (name,))[-4:]); return
        if ph == 'dec': c.close(st, ins)
        if ph != 'need' or c.NEED[kw] != name: c.bad('top', '%s is called for %s' % (name, 'another declaration' if ph == 'need' else 'no declaration'), ins)
        if name == 'parse_packet':
            v = c.getf(st, 'packet_count')
            if c.dom(st, ('pc',)) != {0}: c.bad('top', 'a second packet is accepted', ins)
            if c.can(st, v, 0): c.bad('top', 'a packet is not counted', ins)
            d = c.dom(st, v)
            st.forget(('pc',)); st.store(c.field('packet_count'), 4, ('pc',)); st.cons[('pc',)] = frozenset(min(x, 2) for x in d) if not isinstance(d, tuple) else frozenset((0, 1, 2))
        c.set(st, *c.u0)

    def call(c, esp, st, ins, name, a):
        keep = {f: c.getf(st, f) for f in ('import_depth', 'pending_unaligned')} if name in emit.PARSE else None
        pc = c.getf(st, 'packet_count')
        r = super().call(esp, st, ins, name, a)
        if keep:
            for y, _ in r:
                if keep['import_depth'] is not None: y.store(c.field('import_depth'), 4, keep['import_depth'])
                if name == 'parse_import':       # the imported file may hold the packet
                    y.forget(('pc',)); y.store(c.field('packet_count'), 4, ('pc',)); y.cons[('pc',)] = frozenset((0, 1, 2))
                elif name == 'parse_packet': y.store(c.field('packet_count'), 4, ('pc',))
                elif pc is not None: y.store(c.field('packet_count'), 4, pc)
                if name in ('parse_struct', 'parse_import'): y.store(c.field('pending_unaligned'), 4, ('pu', name)); y.cons[('pu', name)] = frozenset((0, 1))
                elif keep['pending_unaligned'] is not None: y.store(c.field('pending_unaligned'), 4, keep['pending_unaligned'])
        return r

    def leave(c, st):
        c.n += 1
        c.close(st, c.root)
        if c.getf(st, 'import_depth') != ('dep',): c.bad('top', 'the depth of imports is changed', c.root)
        if c.can(st, c.getf(st, 'packet_count'), 0) and c.can(st, c.getf(st, 'import_depth'), 0) and c.can(st, c.getf(st, 'had_error'), 0): c.bad('top', 'a schema without a packet is accepted', c.root)


BND = {'OP_IO_U8': (0, 255), 'OP_IO_U16': (0, 65535), 'OP_IO_U32': (0, (1 << 32) - 1), 'OP_IO_I8': (-128, 127), 'OP_IO_I16': (-32768, 32767), 'OP_IO_I32': (-(1 << 31), (1 << 31) - 1)}
MIN, MAX = -(1 << 63), (1 << 63) - 1


class Enum(Decl):
    """u = (phase, keyword of the type, flags)"""
    root = 'parse_enum'; rule = 'enum'
    u0 = ('head', 'OP_IO_U32', frozenset())

    def __init__(c, m): super().__init__(m); c.acc = {}
    def begin0(c):
        st = super().begin0()
        for k in ('NV', 'NW', 'NX'): c.setg(st, k, 0)
        c.setg(st, 'PV', M64)
        return st

    def mark(c, st, x):
        if x != 'nofields': g, p, (ph, kw, fl) = st.q; st.q = (g, p, (ph, kw, fl | {x}))
    def drop(c, st, *xs): g, p, (ph, kw, fl) = st.q; st.q = (g, p, (ph, kw, frozenset(x for x in fl if x not in xs and not (isinstance(x, tuple) and x[0] in xs))))
    def key(c, st):
        # rounds in which all is constant, because no number has been given yet, stay apart from each other
        v = c.const(st, c.g(st, 'PV'))
        return None if v is None else v
    def norm(c, st):
        e = set(st.env.values())
        if c.g(st, 'PV') is not None and c.g(st, 'NW') not in e: c.setg(st, 'NW', fold('bin', 'add', 64, c.g(st, 'PV'), 1))
        if 'open' in c.fl(st) and 'value' not in c.fl(st) and c.g(st, 'NI') not in e:
            x = [c.g(st, k) for k in ('NV', 'NW', 'NX')]; x = [y for y in x if y is not None]
            if x: c.setg(st, 'NI', fold('bin', 'add', 64, next((y for y in x if y in e), x[0]), 1))
    def dead(c, st):
        v = c.const(st, c.g(st, 'PV'))
        return v is not None and 2 <= v < M64 and 'open' in c.fl(st)
    def fl(c, st): return st.q[2][2]
    def ph(c, st, ph=None, kw=None):
        if ph is None: return st.q[2][0]
        g, p, (o, k, fl) = st.q; st.q = (g, p, (ph, kw or k, fl))

    def token1(c, st, esp, ins, t):
        ph = c.ph(st); fl = c.fl(st)
        if ph == 'head':
            if t == 'IDENTIFIER' and 'name' not in fl: c.role(st, ('name',)); c.mark(st, 'name')
            elif t == 'COLON': c.ph(st, 'type', '?')
            elif t == 'LBRACE': c.ph(st, 'in')
            else: c.bad('enum', 'a token of the enum is skipped', ins)
        elif ph == 'type':
            if t == 'IDENTIFIER': c.role(st, ('ut',))
            c.ph(st, 'head')
        elif ph == 'in':
            if t == 'IDENTIFIER':
                c.settle(st, ins); c.role(st, ('vname',)); c.mark(st, 'open')
                if c.g(st, 'PV') is not None: c.setg(st, 'NW', add(c.g(st, 'PV'), 1))
                l = [c.g(st, k) for k in ('NV', 'NW', 'NX') if c.g(st, k) is not None]; e = set(st.env.values())
                c.setg(st, 'NI', add(next((x for x in l if x in e), l[0]), 1) if l else None)
            elif t == 'EQUALS': c.mark(st, '=')
            elif t == 'NUMBER' and '=' in fl: c.role(st, ('vnum',)); c.drop(st, 'b'); c.mark(st, 'num')
            elif t == 'RBRACE': c.settle(st, ins); c.ph(st, 'end')
            elif t not in ('COMMA', 'DOC_COMMENT'): c.bad('enum', 'a token of an enum value is skipped', ins)
        else: c.bad('enum', 'tokens behind an enum are skipped', ins)

    def settle(c, st, ins):
        """the end of a value"""
        fl = c.fl(st)
        if 'open' in fl:
            c.n += 1
            if 'value' not in fl or 'named' not in fl: c.bad('enum', 'the %s of an enum is not remembered' % ('value' if 'value' not in fl else 'name of a value'), ins)
            if 'counted' not in fl: c.bad('enum', 'a value of an enum is not counted', ins)
        if 'counted' in fl: st.forget(('cnt',))
        c.drop(st, 'open', 'value', 'named', 'counted', '=', 'num', 'b')

    def keyword(c, st, leaf, kw):
        if leaf[1] == tk('start', 'ut'):
            g, p, (ph, k, fl) = st.q; st.q = (g, p, (ph, KW.get(kw, '?') if kw != 'byte' else '?', fl))

    def added(c, st, esp, ins, name, a):
        if name != 'enum_reg_add' or not c.table(a[0], 'enums') or tuple(a[1:3]) != text('name'): c.bad('enum', 'the enum is not defined under its name', ins)
        c.unique(st, 'an enum'); c.mark(st, 'def')
        st.cons[('def',)] = ('not', frozenset((0,)))
        d = c.default()
        c.setg(st, 'T', d)
        return [(st, ('def',))]

    def default(c):
        """what enum_reg_add stores as the underlying type"""
        f = c.m.functions.get('enum_reg_add'); k = set()
        if f is None or f.decl: return None
        for b in f.blocks:
            for i in b.insts:
                if i.op == 'store' and isinstance(i.ops[0], (ir.CInt, ir.Inst)) and (i.ops[0].w if isinstance(i.ops[0], ir.CInt) else i.ops[0].ty.w if i.ops[0].ty.k == 'int' else 0) == 8:
                    p = i.ops[1]; off = 0
                    while isinstance(p, ir.Inst) and p.op == 'gep' and not p.x[1]: off += p.x[0]; p = p.ops[0]
                    if off == c.k['e_type']: k.add(i.ops[0].v if isinstance(i.ops[0], ir.CInt) else None)
        return k.pop() if len(k) == 1 else None

    def cnt(c, st): return add(('cnt',), 1) if 'counted' in c.fl(st) else ('cnt',)

    def load(c, esp, st, ins, p, size):
        b, o = pbase(p)
        if b == ('def',) and o == c.k['e_count']: return [(st, c.cnt(st) if size == 8 else fold('trunc', 8 * size, c.cnt(st)))]
        if b == ('def',) and o == c.k['e_type'] and size == 1 and c.g(st, 'T') is not None: return [(st, c.g(st, 'T'))]
        if b == ('def',) and o == c.k['e_values']: return [(st, ('vals',))]
        return super().load(esp, st, ins, p, size)

    def store(c, esp, st, ins, p, size, v):
        b, o = pbase(p)
        if b == ('def',):
            if o == c.k['e_count']:
                if diff(v, c.cnt(st)) == 0 and 'def' in c.fl(st): return True
                if v == 0 and c.ph(st) == 'head': return True
                if size != 8 or diff(v, add(('cnt',), 1)) != 0 or 'counted' in c.fl(st): c.bad('enum', 'the number of values is not counted in steps of 1', ins)
                c.mark(st, 'counted'); return True
            if o == c.k['e_values']: return True
            if o == c.k['e_type']: c.setg(st, 'T', v); return True
            return True
        if b == ('vals',): c.element0(st, ins, o, size, v); return True

    def element0(c, st, ins, o, size, v):
        c.n += 1; c.sites.add(ins.loc())
        k = c.k['ev_size']; d = None
        base = fold('bin', 'mul', 64, ('cnt',), k)
        for f, w in (('ev_value', 8), ('ev_name', 8)):
            r = diff(o if is_term(o) else o & M64, add(base, c.k[f]))
            if r == 0: d = f
        if d == 'ev_name' and size == 8: c.mark(st, 'named'); return
        if d is None:
            if c.wrong(o, base): c.bad('enum', 'a value is not stored behind the values in front of it', ins)
            return
        c.mark(st, 'value')
        fl = c.fl(st)
        n, w = narrow(v, 64)
        if w < 64 or size != 8: c.bad('enum', 'a value is cut', ins)
        elif '=' in fl:
            if v != ('num', 'i64') + text('vnum'): c.bad('enum', 'the value stored is not the number behind =', ins)
        elif not c.implicit(st, v): c.bad('enum', 'a value without a number is not the one in front of it plus 1', ins)
        T = c.const(st, c.g(st, 'T'))
        want = st.q[2][1]
        if c.name.get(T) != want: c.bad('enum', 'the underlying type of an enum declared %s is %s' % ('as ' + want[6:].lower() if want != '?' else 'with an unknown type', (c.name.get(T) or 'not known')[6:].lower() if T is not None else 'not known'), ins)
        if want in BND:
            lo = max([x[2] for x in fl if isinstance(x, tuple) and x[1] == 'lo'], default=MIN); hi = min([x[2] for x in fl if isinstance(x, tuple) and x[1] == 'hi'], default=MAX)
            d = st.dom(v)
            if not isinstance(d, tuple): lo = max(lo, min(sx(x, 64) for x in d)); hi = min(hi, max(sx(x, 64) for x in d))
            if lo < BND[want][0] or hi > BND[want][1]: c.bad('range', 'a value that does not fit %s is accepted' % want[6:].lower(), ins, want)
            a = c.acc.setdefault(want, [lo, hi]); a[0] = min(a[0], lo); a[1] = max(a[1], hi)
        c.drop(st, 'b')
        c.setg(st, 'NX', c.g(st, 'NI') if '=' not in fl else fold('bin', 'add', 64, v, 1))
        c.setg(st, 'PV', v); c.setg(st, 'NV', fold('bin', 'add', 64, v, 1))

    def wrong(c, o, base):
        for i in range(0, c.k['ev_size'], 4):
            if diff(o if is_term(o) else o & M64, add(base, i)) == 0: return False
        return True

    def implicit(c, st, v):
        pv = c.g(st, 'PV')
        return any(diff(v, c.g(st, k)) == 0 for k in ('NV', 'NW', 'NX')) or pv is not None and diff(v, add(pv, 1)) == 0

    def call(c, esp, st, ins, name, a):
        if name and (name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove')) and pbase(a[0])[0] == ('vals',):
            b, o = pbase(a[0]); sb, so = pbase(a[1])
            if isinstance(so, int) and isinstance(a[2], int):
                for x, (n, v) in sorted((st.mem.get(sb) or {}).items()):
                    if so <= x and x + n <= so + a[2]: c.element0(st, ins, add(o if is_term(o) else o & M64, x - so), n, v)
            return [(st, a[0])]
        return super().call(esp, st, ins, name, a)

    def edge(c, esp, st, b, t, cond, fr):
        if cond is not None and c.ph(st) == 'in' and 'open' in c.fl(st):
            x = c.bound(st, cond[0], cond[1])
            for k in x or (): c.setb(st, *k)
        if 'value' in c.fl(st):
            if c.g(st, 'NV') not in st.env.values(): c.setg(st, 'NV', fold('bin', 'add', 64, c.g(st, 'PV'), 1))
            c.setg(st, 'NW', fold('bin', 'add', 64, c.g(st, 'PV'), 1))
        return super().edge(esp, st, b, t, cond, fr)

    def setb(c, st, k, v):
        old = [x for x in c.fl(st) if isinstance(x, tuple) and x[1] == k]
        if any((x[2] >= v) if k == 'lo' else (x[2] <= v) for x in old): return
        g, p, (ph, kw, fl) = st.q
        st.q = (g, p, (ph, kw, (fl - set(old)) | {('b', k, v)}))

    def mine(c, st, t):
        fl = c.fl(st)
        if '=' in fl: return t == ('num', 'i64') + text('vnum')
        return 'value' not in fl and c.implicit(st, t) and is_term(t)

    def bound(c, st, t, truth):
        """bounds of the value that follow from a condition"""
        if is_term(t) and t[0] == 'bin' and t[2] == 1:
            if t[1] == 'xor' and t[4] == 1: return c.bound(st, t[3], not truth)
            if t[1] == 'and' and truth or t[1] == 'or' and not truth: return (c.bound(st, t[3], truth) or ()) + (c.bound(st, t[4], truth) or ())
        if not is_term(t) or t[0] != 'icmp': return
        p, w, a, b = t[1:]
        if w == 1 and isinstance(b, int) and p in ('eq', 'ne') and is_term(a): return c.bound(st, a, truth == ((p == 'eq') == (b == 1)))
        if not truth: p = {'eq': 'ne', 'ne': 'eq', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'slt': 'sge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'ult': 'uge'}[p]
        if p == 'eq':
            for x, y in ((a, b), (b, a)):
                if is_term(x) and x[0] in ('sext', 'zext') and is_term(x[3]) and x[3][0] == 'trunc' and x[3][2] == y and x[2] == 64 and c.mine(st, y):
                    n = x[1]; return (('lo', -(1 << n - 1)), ('hi', (1 << n - 1) - 1)) if x[0] == 'sext' else (('lo', 0), ('hi', (1 << n) - 1))
        if w != 64 or not isinstance(b, int): return
        off = 0
        if is_term(a) and a[0] == 'bin' and a[1] == 'add' and isinstance(a[4], int) and not c.mine(st, a): off = a[4]; a = a[3]
        if is_term(a) and a[0] == 'bin' and a[1] == 'sub' and isinstance(a[4], int) and not c.mine(st, a): off = -a[4] & M64; a = a[3]
        if is_term(a) and a[0] == 'bin' and a[1] in ('lshr', 'ashr') and isinstance(a[4], int) and b == 0 and p == 'eq' and c.mine(st, a[3]): return (('lo', 0), ('hi', (1 << a[4]) - 1))
        if not c.mine(st, a): return
        s = sx(b, 64)
        if off:
            if p in ('ult', 'ule'):
                n = b - (p == 'ult'); o = sx(off, 64)
                if n < (1 << 63): return (('lo', -o), ('hi', n - o))
            return
        return {'eq': (('lo', s), ('hi', s)), 'sgt': (('lo', s + 1),), 'sge': (('lo', s),), 'slt': (('hi', s - 1),), 'sle': (('hi', s),),
                'ult': (('lo', 0), ('hi', b - 1)) if b <= 1 << 63 else None, 'ule': (('lo', 0), ('hi', b)) if b < 1 << 63 else None}.get(p)

    def instr(c, st, esp, ins, op, x): c.bad('enum', '%s for an enum' % op, ins)
    def parsed(c, st, esp, ins, name): c.bad('enum', '%s is called for an enum' % name, ins)

    def leave(c, st):
        c.n += 1
        if c.ph(st) != 'end': c.bad('enum', 'an enum is left before its }', c.root)
        if 'def' not in c.fl(st): c.bad('enum', 'an enum is not defined', c.root)

    def finish(c):
        for T, (lo, hi) in sorted(c.acc.items()):
            if lo > BND[T][0] or hi < BND[T][1]: c.bad('range', 'values that fit %s are rejected' % T[6:].lower(), c.root, T)
        for T in sorted({KW[k] for k in KW} & (set(BND))):
            if T not in c.acc and not c.viol: c.bad('enum', 'an enum of type %s is not accepted' % T[6:].lower(), c.root, T)
