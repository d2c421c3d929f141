"""What if and switch compile to.

Places in the code are symbolic: every part whose length is not known (a block, the condition) ends at a place with a name of its own, and the place of everything
behind it is that name plus a constant.  Jump operands are compared with the places they have to lead to as linear terms.
"""
from . import ir, esp, emit, fields
from .emit import Client, strip, counter, narrow
from .esp import St, fold, is_term, pbase, contains
from .exprs import lsum, diff
from .ir import AnalysisError, GRef

G = ('a', 'ghost')
MT, DT, UT, ET, NOMATCH = ((1 << 70) + i for i in range(5))
OPAQUE = ('phi', 'was', 'o', 'undef', 'pieces', 'cexpr', 'ch')
ALLOC = ('malloc', 'calloc', 'realloc', 'reallocarray', 'strdup')


def add(t, k): return fold('bin', 'add', 64, t, k & ((1 << 64) - 1))


def opaque(t): return is_term(t) and (t[0] in OPAQUE or any(opaque(x) for x in t))


def cut(v):
    """not all of the 32 bits of a place are kept"""
    x, n = narrow(v, 32)
    return n < 32 or is_term(x) and x[0] in ('zext', 'sext') and x[1] < 32


def rel(a, b):
    """True: equal, False: differ (unless by accident), None: not known"""
    if a is None or b is None: return None
    x, y = lsum(a), lsum(b)
    if x[0] == y[0]: return (x[1] - y[1]) % (1 << 32) == 0
    return None if any(opaque(t) for t, _ in x[0] ^ y[0]) else False


class Place(Client):
    def pos(c, st): return st.mem[G][0][1]
    def g(c, st, k): h = st.mem[G].get(k); return h and h[1]
    def setg(c, st, k, v):
        if v is None: st.mem[G].pop(k, None)
        else: st.mem[G][k] = (8, v)

    def begin0(c):
        st = St((('?',), None, c.u0))
        for w in ('current', 'previous'):
            for f in ('type', 'start', 'length', 'line'): c.cur(st, f, w)
        st.mem[G] = {0: (8, ('pos', 'in'))}
        return st

    def label(c, st, esp, ins):
        l = ('pos', esp.fr, ins.id)
        st.forget(l)
        c.setg(st, 0, l)

    def push(c, st, esp, ins, buf, size, v):
        p = c.pos(st)
        out = super().push(st, esp, ins, buf, size, v)
        for y, _ in out: c.setg(y, 0, add(p, size))
        return out

    def load(c, esp, st, ins, p, size):
        b, o = pbase(p)
        if size == 8 and o == c.k['b_size'] and c.target(st, b): return [(st, c.pos(st))]

    def finish(c): pass
    def append(c, st, esp, ins, name, a):
        c.bad(c.rule, 'code is copied here', ins); return []

    def call(c, esp, st, ins, name, a):
        if name == 'buf_current_offset':
            return [(st, c.pos(st) if c.target(st, a[0]) else esp.fresh(st, ins, esp.fr, esp.inloop))]
        if name in ('buf_write_u8_at', 'buf_write_u16_at', 'buf_write_u32_at'):
            if c.target(st, a[0]): c.n += 1; c.sites.add(ins.loc()); c.patch(st, esp, ins, int(name[11:-3]) // 8, a[1], a[2])
            return [(st, None)]
        return super().call(esp, st, ins, name, a)


class If(Place):
    """u = (tokens, items)"""
    u0 = ((), ())
    rule = 'if'

    def token(c, st, esp, ins, t):
        g, p, (toks, items) = st.q
        if t in ('ELSE', 'IF', None): toks = (toks + (t or '?',))[-6:]
        st.q = (g, p, (toks, items))

    def item(c, st, it):
        g, p, (toks, items) = st.q
        st.q = (g, p, (toks, items + (it,))) if len(items) < 9 else (g, p, ('lost', ()))

    def dead(c, st): return st.q[2][0] == 'lost'

    def parsed(c, st, esp, ins, name):
        toks = st.q[2][0]; p = c.pos(st)
        kind = {'parse_expression': 'E', 'parse_block': 'B', 'parse_if': 'F'}.get(name, '?')
        if kind == '?': c.bad('if', 'an if contains something else than a condition and blocks', ins)
        if kind in 'BF' and toks == (() if kind == 'B' else ('IF',)): kind = 'then' if kind == 'B' else 'again'
        elif kind in 'BF': kind = 'else' if toks == (('ELSE',) if kind == 'B' else ('ELSE', 'IF')) else '?'
        if kind == '?': c.bad('if', 'what follows an if is compiled although there is no matching else', ins)
        c.label(st, esp, ins)
        c.item(st, (kind, p, c.pos(st)))

    def begin(c, st, esp, ins, op): st.env['at'] = c.pos(st)

    def instr(c, st, esp, ins, op, x):
        if op not in ('OP_JUMP', 'OP_JUMP_IF_NOT', 'OP_JUMP_IF'): c.bad('if', '%s in the code of an if' % op, ins); return
        c.item(st, (op, st.env.pop('at', None), x[0]))

    def patch(c, st, esp, ins, size, loc, v):
        g, p, (toks, items) = st.q
        for i, it in enumerate(items):
            if it[0].startswith('OP_') and diff(loc, add(it[1], 1)) == 0:
                if size != 4: c.bad('if', 'a jump operand is not written as a whole', ins)
                elif cut(v): c.bad('if', 'a jump operand is cut', ins)
                st.q = (g, p, (toks, items[:i] + ((it[0], it[1], v),) + items[i + 1:])); return
        if items: c.bad('if', 'something else than the operand of a jump of this if is overwritten', ins)

    def leave(c, st):
        g, p, (toks, items) = st.q
        if toks == 'lost': return
        c.n += 1
        end = c.pos(st)
        if 'ELSE' not in toks and c.k['TOK_ELSE'] in ((lambda d: c.all - d[1] if isinstance(d, tuple) else d)(st.dom(c.cur(st, 'type')))):
            c.bad('if', 'an else can be left behind the if it belongs to', c.root)
        for cond in (1, 0):
            pc = ('pos', 'in'); seen = []; val = None
            for _ in range(12):
                if diff(pc, end) == 0: break
                it = next((i for i in items if diff(pc, i[1]) == 0), None)
                if it is None: c.bad('if', 'with a condition that is %s the code runs to a place where nothing begins' % ('true' if cond else 'false'), c.root); return
                k = it[0]
                if not k.startswith('OP_'):
                    if k == 'E': val = cond
                    else: seen.append(k)
                    pc = it[2]; continue
                go = True
                if k != 'OP_JUMP':
                    if val is None: c.bad('if', '%s without a condition' % k, c.root); return
                    go = bool(val) == (k == 'OP_JUMP_IF'); val = None
                pc = add(it[1], 5)
                if go: pc = fold('bin', 'add', 64, pc, it[2])
            else: c.bad('if', 'with a condition that is %s the code does not come to an end' % ('true' if cond else 'false'), c.root); return
            want = ['then'] if cond else ['else'] if 'ELSE' in toks else []
            if seen != want: c.bad('if', 'with a condition that is %s%s the code executes %s instead of %s' % ('true' if cond else 'false', ', if there is an else,' if 'ELSE' in toks else '', ' and '.join('the %s block' % s for s in seen) or 'nothing', ' and '.join('the %s block' % s for s in want) or 'nothing'), c.root)

    def run(c):
        c.root = 'parse_if'
        return drive(c)


def drive(c):
    e = c.esp = esp.Esp(c.m, c)
    f = c.m.functions.get(c.root)
    if f is None or f.decl or not f.args: raise AnalysisError('%s not found' % c.root)
    for y, _ in e.run(f, [('ptr', c.P, 0)] + [('arg', i) for i in range(1, len(f.args))], c.begin0(), ()):
        if y.q[1] is not None: c.bad('layout', '%s can return in the middle of %s' % (c.root, y.q[1][0]), c.root)
        elif not c.dead(y): c.leave(y)
    c.finish()
    return c


class Ctl(fields.Field):
    """an if or a switch among the fields.  out: the token, then what was called"""
    rules = ('field',)
    out0 = None

    def token(c, st, esp, ins, t):
        if st.q[0][0] == 'start' and t not in ('DOC_COMMENT', 'SWITCH', 'IF'): c.setg(st, ('dropped',)); return
        if st.q[0][0] == 'start' and t in ('SWITCH', 'IF'): c.setg(st, ('ctl2',)); c.out(st, t)
        elif st.q[0][0] == 'ctl2': c.bad('field', 'tokens of an %s are skipped' % st.q[2][1].lower(), ins)

    def parsed(c, st, esp, ins, name):
        o = st.q[2][1]
        if o in ('SWITCH', 'IF') and name == 'parse_' + o.lower(): c.n += 1; c.out(st, 'done')
        else: c.bad('field', '%s is called for %s' % (name, {'SWITCH': 'a switch', 'IF': 'an if'}.get(o, 'what follows an if or switch')), ins)

    def dead(c, st): return st.q[0][0] == 'dropped'
    def instr(c, st, esp, ins, op, x): c.bad('field', '%s for an if or switch' % op, ins)
    def leave(c, st):
        if st.q[0][0] == 'ctl2' and st.q[2][1] != 'done': c.bad('field', 'an if or switch is skipped', 'parse_field')


# ---------------------------------------------------------------- switch

class Switch(Place):
    """u = (phase, has a default, flags)"""
    u0 = ('head', 0, frozenset())
    rule = 'switch'

    def __init__(c, m):
        super().__init__(m)
        c.kinds = {}; c.cells = {}; c.later = []; c.tabloops = {}; c.rounds = []; c.fixes = []; c.kinds_seen = set(); c.minmax = []; c.memo_roots = {}; c.idx = {}; c.fixidx = {}; c.tabidx = {}; c.dups = {}; c.looked = False; c.searches = {}; c.root = 'parse_switch'; c.hits = {}

    def begin0(c):
        st = super().begin0(); c.setg(st, 'NC', 0); c.setg(st, 'NJ', 0); c.setg(st, 'NE', 0)
        return st

    def U(c, st): return st.q[2]
    def setu(c, st, phase=None, hasdef=None, add=(), drop=None):
        g, p, (ph, hd, fl) = st.q
        st.q = (g, p, (phase or ph, hd if hasdef is None else hasdef, (frozenset(x for x in fl if isinstance(x, tuple)) if drop == 'all' else fl - set(drop or ())) | set(add)))

    def setop(c, st, v): c.setu(st, drop={x for x in c.U(st)[2] if isinstance(x, tuple)}, add=(('op', v),) if isinstance(v, int) else ())

    # --- tokens
    def token(c, st, esp, ins, t):
        ph, hd, fl = c.U(st)
        if ph == 'head':
            if t == 'IDENTIFIER': c.role(st, ('disc',)); c.setu(st, add=('disc',))
        elif ph == 'loop':
            if t in ('CASE', 'DEFAULT'): c.setg(st, 'B', c.pos(st)); c.setg(st, 'NB', c.offset(c.pos(st), st)); c.setu(st, 'case0' if t == 'CASE' else 'default', drop='all')
            elif t == 'RBRACE': c.setu(st, 'table', drop='all')
        elif ph == 'case0':
            if t in ('NUMBER', 'IDENTIFIER') and not fl & {'num', 'enum'}: c.role(st, ('cval',)); c.setu(st, add=('num' if t == 'NUMBER' else 'enum',))
            elif t == 'IDENTIFIER': c.role(st, ('cname',))
            elif t == 'COLON':
                if not fl & {'num', 'enum'}: c.bad('switch', 'a case without a value is accepted', ins)
                c.setu(st, 'case')
        elif ph in ('body', 'jumped') and t in ('CASE', 'DEFAULT', 'RBRACE'):
            c.bad('switch', 'the next case is read %s' % ('before the code of a case ends with a jump behind the table' if ph == 'body' else 'before the jump behind the table is remembered'), ins)
        elif ph in ('case', 'default') and t in ('CASE', 'DEFAULT', 'RBRACE'): c.bad('switch', 'a case without code is accepted', ins)

    def parsed(c, st, esp, ins, name):
        ph, hd, fl = c.U(st); c.n += 1
        if name not in ('parse_block', 'parse_field'): c.bad('switch', '%s is called inside a switch' % name, ins); return
        if ph not in ('case', 'default'): c.bad('switch', 'code is compiled that belongs to no case', ins); return
        if ph == 'default':
            if hd: c.bad('switch', 'a second default is accepted', ins)
            for k in [k for k in st.mem[G] if isinstance(k, tuple) and k[:2] == ('alt', 'DEF')]: del st.mem[G][k]
            c.setg(st, 'DEF', c.g(st, 'NB'))
            for k, v in [(k, v) for k, v in st.mem[G].items() if isinstance(k, tuple) and k[:2] == ('alt', 'NB')]: st.mem[G]['alt', 'DEF', k[2]] = v
        c.norm(st)
        c.label(st, esp, ins)
        c.setg(st, 'J', c.pos(st))
        c.setu(st, 'body', hasdef=1 if ph == 'default' else None, add=('case',) if ph == 'case' else ())

    def offset(c, p, st):
        """place relative to the end of the instruction"""
        s = c.g(st, 'S')
        return None if s is None or p is None else fold('bin', 'sub', 64, p, add(s, 7))

    # --- code
    def begin(c, st, esp, ins, op): st.env['at'] = c.pos(st)

    def push(c, st, esp, ins, buf, size, v):
        ph, hd, fl = c.U(st)
        if st.q[1] is None and (ph == 'table' or isinstance(ph, tuple)):
            c.n += 1; c.sites.add(ins.loc())
            if not c.target(st, buf): c.bad('buffer', 'code is emitted into another buffer than the one being compiled into', ins); return []
            return c.tab(st, esp, ins, size, v)
        return super().push(st, esp, ins, buf, size, v)

    def instr(c, st, esp, ins, op, x):
        ph, hd, fl = c.U(st); at = st.env.pop('at', None)
        if op in ('OP_SWITCH', 'OP_SWITCH_TABLE') and ph == 'head':
            if x[0] != ('strtab', ('ptr', c.P, c.k['p_strtab'])) + fields.text('disc'): c.bad('switch', '%s does not name the field in parentheses' % op, ins)
            c.setg(st, 'S', at)
            c.setu(st, 'loop', drop='all'); c.setop(st, c.ops[op]); return
        if op == 'OP_JUMP' and ph == 'body':
            c.setu(st, 'jumped' if 'F' not in fl else 'loop')
            if 'F' in fl: c.settled(st, ins)
            return
        c.bad('switch', '%s %s' % (op, {'head': 'in front of the switch', 'loop': 'between the cases', 'body': 'behind the code of a case'}.get(ph, 'inside a switch')), ins)

    def settled(c, st, ins):
        ph, hd, fl = c.U(st)
        if 'case' in fl:
            if 'V' not in fl: c.bad('switch', 'a case whose value is not remembered', ins)
            if 'O' not in fl: c.bad('switch', 'a case whose place is not remembered', ins)
        c.setu(st, 'loop', drop='all')

    # --- arrays on the heap
    def roots(c, o, fr, seen):
        """where the memory a pointer leads to is allocated"""
        k = (id(o), fr)
        if k in seen: return set()
        seen.add(k)
        if isinstance(o, ir.Arg):
            call = c.esp.calls.get(fr)
            return c.roots(call.ops[o.idx], fr[:-1], seen) if call is not None else {None}
        if isinstance(o, (ir.CNull,)): return set()
        if not isinstance(o, ir.Inst): return {None}
        if o.op in ('bitcast', 'freeze', 'gep'): return c.roots(o.ops[0], fr, seen)
        if o.op == 'phi': return set().union(*[c.roots(v, fr, seen) for _, v in o.x])
        if o.op == 'select': return c.roots(o.ops[1], fr, seen) | c.roots(o.ops[2], fr, seen)
        if o.op == 'call' and isinstance(o.x, GRef):
            if o.x.name == 'realloc': return {(fr, o.id)} | c.roots(o.ops[0], fr, seen)
            if o.x.name in ALLOC: return {(fr, o.id)}
        if o.op == 'load':
            a = o.ops[0]; x = 0
            while True:
                if isinstance(a, ir.Arg):
                    call = c.esp.calls.get(fr)
                    if call is None: return {None}
                    a = call.ops[a.idx]; fr = fr[:-1]; continue
                if isinstance(a, ir.Inst) and a.op == 'gep' and not a.x[1]: x += a.x[0]; a = a.ops[0]; continue
                break
            if isinstance(a, ir.Inst) and a.op == 'alloca': return {('cell', fr, a.id, x)}
        return {None}

    def elem(c, esp, st, p):
        w = c.where(p, esp.fr0)
        if w is None: return None
        n, idx, k = w
        t = st.env.get((idx[1], idx[0].id)) if isinstance(idx[0], ir.Inst) else idx[0].v if isinstance(idx[0], ir.CInt) else None
        if t is not None and k: t = add(t, k)
        return n, t, idx, k

    def where(c, p, fr):
        """-> (number of the field, index operand, constant part of the index) of an element of an array on the heap"""
        esp = c.esp; off = 0; idx = None; stride = None; o = p
        for _ in range(20):
            if isinstance(o, ir.Arg):
                call = esp.calls.get(fr)
                if call is None: return None
                o = call.ops[o.idx]; fr = fr[:-1]; continue
            if isinstance(o, ir.Inst) and o.op in ('bitcast', 'freeze'): o = o.ops[0]; continue
            if isinstance(o, ir.Inst) and o.op == 'gep':
                off += o.x[0]
                if o.x[1]:
                    if idx is not None or len(o.x[1]) != 1: return None
                    v, stride = o.x[1][0]; idx = (v, fr)
                o = o.ops[0]; continue
            if isinstance(o, ir.Inst) and o.op == 'phi' and idx is None:
                l = ir.loops(o.blk.fn).get(o.blk)
                if l is not None:
                    steps = {(v.x[0] if isinstance(v, ir.Inst) and v.op == 'gep' and v.ops[0] is o and not v.x[1] else None) for pb, v in o.x if pb in l.blocks}
                    if len(steps) == 1 and None not in steps:
                        stride = steps.pop(); idx = (o, fr); o = next(v for pb, v in o.x if pb not in l.blocks); continue
            break
        if idx is None or not stride: return None
        k = ('roots', id(o), fr)
        r = c.memo_roots.get(k)
        if r is None: r = c.memo_roots[k] = (frozenset(c.roots(o, fr, set())), o)
        r = r[0]
        if not r or None in r: return None
        return c.cells.setdefault((r, stride, off % stride), len(c.cells)), idx, off // stride

    def fixed(c, i, fr, n):
        """index of an element that is loaded from a constant place of the array of field n"""
        if not isinstance(i, ir.Inst) or i.op != 'load': return None
        (r, stride, f), = [k for k, x in c.cells.items() if x == n]
        o = i.ops[0]; off = 0
        while isinstance(o, ir.Inst) and o.op in ('gep', 'bitcast', 'freeze'):
            if o.op == 'gep':
                if o.x[1]: return None
                off += o.x[0]
            o = o.ops[0]
        return off // stride if frozenset(c.roots(o, fr, set())) == r and off % stride == f else None

    def store(c, esp, st, ins, p, size, v):
        b, o = pbase(p)
        if is_term(b) and b[0] in ('a', 'P', 'g'): return
        w = c.elem(esp, st, ins.ops[1])
        if w is None: return
        n, t, idx, _ = w; ph, hd, fl = c.U(st); k = None
        S = c.g(st, 'S'); B = c.g(st, 'B'); J = c.g(st, 'J')
        def note(kind, d=None): c.kinds.setdefault(n, set()).add((kind, d)); c.n += 1; c.sites.add(ins.loc())
        def place(t, want, what):
            if t is not None and want is not None:
                d = diff(t, want)
                if d not in (0, None): c.bad('switch', '%s goes to the wrong element' % what, ins)
        x, bits = narrow(v, 64) if size == 8 else narrow(v, 8 * size)
        if ph in ('case', 'body', 'jumped', 'case0') and is_term(x) and (x[0] in ('num', 'elem') or ET in fin(st.dom(x))):
            ok = c.isval(st, fl, v, size)
            if ok is False: c.bad('switch', 'the value of a case is not the one written', ins)
            if 'dup' in fl: c.bad('switch', 'a case with the value of another one is accepted', ins)
            note('VAL'); place(t, c.g(st, 'NC'), 'the value of a case')
            if 'V' not in fl: c.setg(st, 'NC', fold('bin', 'add', 64, t, 1) if t is not None else None)
            c.setu(st, add=('V',)); return True
        if B is not None and S is not None and ph in ('case', 'body', 'jumped'):
            short = cut(v)
            x32 = narrow(v, 32)[0]
            d = diff(narrow(x32[3], 32)[0] if short and x32[0] in ('zext', 'sext') else x32, c.offset(B, st))
            if d is not None and (ph == 'case' or 'case' in fl):
                if size < 4: c.bad('switch', 'the place of a case is cut', ins)
                elif d: c.bad('switch', 'the place remembered for a case is not where its code begins', ins)
                if short: c.bad('switch', 'the place of a case is cut', ins)
                note('OFF'); place(t, add(c.g(st, 'NC'), -1) if 'V' in fl and c.g(st, 'NC') is not None else c.g(st, 'NC'), 'the place of a case')
                c.setu(st, add=('O',)); return True
        if J is not None and ph in ('body', 'jumped'):
            d = diff(v, J)
            if d is not None:
                note('FIX', d); place(t, c.g(st, 'NJ'), 'the place of a jump')
                c.setg(st, 'NJ', fold('bin', 'add', 64, t, 1) if t is not None else None)
                if size < 4: c.bad('switch', 'the place of a jump is cut', ins)
                if ph == 'jumped': c.settled(st, ins)
                else: c.setu(st, add=('F',))
                return True
        if ph in ('case', 'body', 'jumped') and isinstance(x, int) and 'V' not in fl and (n not in c.kinds or any(k == 'VAL' for k, _ in c.kinds[n])) and not fl & {'enum'}:
            c.later.append((n, 'VAL', 'the value of a case is not the one written', ins))
        note('?')
        return True

    def isval(c, st, fl, v, size):
        E = ('enum', fields.tk('start', 'cval'))
        if 'num' in fl: return fields.is_num(v, 'cval', kinds=('i64',), bits=64)
        x, n = narrow(v, 64)
        if is_term(x) and x[0] == 'num': return False
        if x == ('elem', E): return n >= 64
        if is_term(x) and x[0] == 'elem': return False
        return None

    def load(c, esp, st, ins, p, size):
        r = super().load(esp, st, ins, p, size)
        if r is not None: return r
        r = fields.Field.load(c, esp, st, ins, p, size)
        if r is not None:
            for y, v in r:
                if is_term(v) and v[0] == 'elem': y.cons[v] = frozenset((ET,)); c.setu(y, add=('E',))
            return r
        b, o = pbase(p)
        if is_term(b) and b[0] in ('a', 'P', 'g') or ins.ty.k != 'int': return
        w = c.elem(esp, st, ins.ops[0])
        if w is None: return
        n, t, idx, _ = w
        if t is None: return
        e = ('el', n, t)
        if c.U(st)[0] in ('case0', 'case') and 'VAL' in kind_of(c, n): c.looked = True
        c.idx.setdefault(e, set()).add((idx[0], idx[1], w[3], ins.blk))
        ks = {k for k, _ in c.kinds.get(n, ())}
        if ks == {'OFF'} and isinstance(c.U(st)[0], tuple) and c.U(st)[0][1] == 'd':
            m = c.g(st, 'MI')
            if m == NOMATCH: st.cons[e] = frozenset((UT,))
            elif c.outer(esp, ins, idx): st.cons[e] = frozenset((UT,))
            elif st.const(c.g(st, 'MOK')) is not None and diff(m, t) is not None: st.cons[e] = frozenset((MT if st.const(c.g(st, 'MOK')) and diff(m, t) == 0 else UT,))
        return [(st, e)]

    def outer(c, esp, ins, idx):
        """the index counts the rounds of a loop around the search that has found the case"""
        o = strip(idx[0])
        if not isinstance(o, ir.Inst) or o.op != 'phi' or not counter(o): return False
        l = ir.loops(o.blk.fn)[o.blk]
        return any(f == idx[1] and h is not o.blk and h in l.blocks for f, h in c.searches) and not any((f, h) == (idx[1], o.blk) for f, h in c.searches)

    # --- the table
    def chain(c, esp, ins):
        """the loops around an instruction, innermost first, through the calls"""
        fr = esp.fr0 if ins.op != 'call' else esp.fr; i = ins; out = []
        while True:
            ls = ir.loops(i.blk.fn)
            for l in sorted((l for l in ls.values() if i.blk in l.blocks), key=lambda l: len(l.blocks)): out.append((fr, l))
            call = esp.calls.get(fr)
            if call is None: return out
            fr = fr[:-1]; i = call

    def tab(c, st, esp, ins, size, v):
        ph, hd, fl = c.U(st)
        if ph == 'table':
            if size not in (2, 8): c.bad('table', 'the table of a switch begins with a %d byte value' % size, ins); return []
            c.setg(st, 'T', c.pos(st)); ph = ('tab', 's' if size == 2 else 'd', 0, 0)
            c.kinds_seen.add(ph[1])
            c.setg(st, 'MI', NOMATCH)
        _, kind, i, r = ph
        hdr = (2, 4) if kind == 's' else (8, 8, 4)
        ent = (8, 4) if kind == 's' else (4,)
        want = hdr[i] if i < len(hdr) else ent[(i - len(hdr)) % len(ent)]
        if size != want: c.bad('table', 'a value of the table has %d bytes instead of %d' % (size, want), ins); return []
        if i < len(hdr):
            if kind == 's' and i == 0: c.want(st, v, 'NC', 'the number of cases in the table', ins)
            elif kind == 'd' and i < 2: c.setg(st, 'MX'[i], narrow(v, 64)[0]); c.minmax.append((i, ins.ops[1] if len(ins.ops) > 1 else None, esp.fr, ins))
            else: c.default(st, v, ins)
            i += 1
        else:
            c.entry(st, esp, ins, kind, i - len(hdr), v)
            L = c.chain(esp, ins)
            if not L: c.bad('table', 'an entry of the table is emitted outside a loop over the cases', ins); return []
            c.tabloops[(L[0][0], L[0][1].header)] = kind
            x = narrow(v, 64)[0]
            if kind == 's' and is_term(x) and x[0] == 'el': c.tabidx.setdefault((L[0][0], L[0][1].header), set()).update(c.idx.get(x, ()))
            r = 1
            i = len(hdr) + (i - len(hdr) + 1) % len(ent)
        c.setg(st, 0, add(c.pos(st), size))
        c.setu(st, ('tab', kind, i, r))
        return [(st, None)]

    def alike(c, st, v, k):
        rs = [rel(v, w) for w in c.alts(st, k)]
        return True if True in rs else False if False in rs else None

    def want(c, st, v, k, what, ins):
        if c.alike(st, narrow(v, 16)[0], k) is False: c.bad('table', '%s is wrong' % what, ins)

    def end(c, st):
        """the end of the table"""
        T = c.g(st, 'T'); ph = c.U(st)[0]
        if T is None: return None
        if ph[1] == 's':
            n = c.g(st, 'NC')
            return None if n is None else add(fold('bin', 'add', 64, T, fold('bin', 'mul', 64, n, 12)), 6)
        M, X = c.g(st, 'M'), c.g(st, 'X')
        return None if M is None or X is None else add(fold('bin', 'add', 64, T, fold('bin', 'mul', 64, fold('bin', 'sub', 64, X, M), 4)), 24)

    def alts(c, st, k): return [v for x, (_, v) in st.mem[G].items() if x == k or isinstance(x, tuple) and x[:2] == ('alt', k)]

    def default(c, st, v, ins):
        ph, hd, fl = c.U(st)
        if cut(v): c.bad('table', 'the default target of the table is cut', ins)
        if hd and rel(v, c.offset(c.end(st), st)): c.bad('table', 'the default target of the table is the end of the table although there is a default', ins); return
        rs = [rel(v, w) for w in c.alts(st, 'DEF')] if hd else [rel(v, c.offset(c.end(st), st))]
        if True not in rs and False in rs: c.bad('table', 'the default target of the table is not %s' % ('where the code of the default begins' if hd else 'the end of the table'), ins)
        x = narrow(v, 32)[0]
        if is_term(x): st.cons[x] = frozenset((DT,))

    def entry(c, st, esp, ins, kind, i, v):
        if kind == 's':
            x, bits = narrow(v, 64 if i == 0 else 32)
            if i == 0: c.setg(st, 'EV', x)
            w = ('VAL', 'OFF')[i]
            if is_term(x) and x[0] == 'el': c.later.append((x[1], w, 'an entry of the table lists something else than the %s of a case' % ('value' if i == 0 else 'place'), ins))
            elif rel(x, 0) is not None or isinstance(x, int) or not opaque(x): c.bad('table', 'an entry of the table lists something else than the %s of a case' % ('value' if i == 0 else 'place'), ins)
            if bits < (64 if i == 0 else 32): c.bad('table', 'a value of the table is cut', ins)
            if i == 1:
                y = c.g(st, 'EV')
                if is_term(x) and is_term(y) and x[0] == y[0] == 'el' and diff(x[2], y[2]) not in (0, None): c.bad('table', 'an entry of the table lists the place of another case', ins)
                c.setg(st, 'EV', None)
            return
        x = narrow(v, 32)[0]; d = st.dom(x)
        c.setg(st, 'MI', NOMATCH); c.setg(st, 'MOK', None)
        c.count(st)
        if isinstance(d, tuple) or len(d) > 8 or not d & {MT, UT, DT}:
            if not isinstance(x, int): c.hits.setdefault(ins.loc(), set()).add(MT)      # not known
            else: c.bad('table', 'an entry of the table leads to neither a case nor the default', ins)
            return
        for k, v in list(st.cons.items()):
            if isinstance(v, frozenset) and MT in v: st.cons[k] = v - {MT} | {UT}
        if UT in d: c.bad('table', 'an entry of the table leads to a case with another value', ins)
        elif d - {MT, DT}: c.bad('table', 'an entry of the table leads to neither a case nor the default', ins)
        c.hits[ins.loc()] = c.hits.get(ins.loc(), set()) | d

    def count(c, st):
        """one entry more"""
        m = st.mem[G]
        new = {('alt', 'NE', ('inc', k[2] if isinstance(k, tuple) and k[2][0] != 'inc' else k)): (8, add(v, 1)) for k, (_, v) in m.items() if k == 'NE' or isinstance(k, tuple) and k[:2] == ('alt', 'NE') and k[2][0] != 'inc'}
        for k in [k for k in m if isinstance(k, tuple) and k[:2] in (('alt', 'NE'), ('alt', 'CUR'))]: del m[k]
        m.update(new)
        c.setg(st, 'NE', add(c.g(st, 'NE'), 1))

    def edge(c, esp, st, b, t, cond, fr):
        super().edge(esp, st, b, t, cond, fr)
        ph, hd, fl = c.U(st)
        ls = ir.loops(b.fn)
        if (ph == 'table' or isinstance(ph, tuple)) and hd and cond is not None:
            x, truth = cond
            if is_term(x) and x[0] == 'icmp' and not isinstance(x[3], int) and any(lsum(x[3]) == lsum(a) for a in c.alts(st, 'DEF')): c.setu(st, add=('d+' if truth else 'd-',))
        if ph == 'table':
            for l in ls.values():
                if b in l.blocks and t not in l.blocks:
                    r = upto(l, b)
                    if r is not None: c.rounds.append(('mm', fr, l.header, None, True, c.alike(st, esp.val(st, r, fr, esp.args.get(fr, ())), 'NC'), None, b.insts[-1]))
        if isinstance(ph, tuple):
            if t in ls and b in ls[t].blocks:
                c.rounds.append(('round', fr, t, ph[1], ph + ('FX' in fl,), b.insts[-1]))
                if 'FX' in fl: c.setu(st, drop=('FX',))
                c.setu(st, ph[:3] + (0,))
            for l in ls.values():
                if b in l.blocks and t not in l.blocks: c.exit(esp, st, fr, l, b, ph)
            if cond is not None and ph[1] == 'd':
                x, truth = cond
                while is_term(x) and x[0] == 'icmp' and x[2] == 1 and x[4] in (0, 1) and x[1] in ('eq', 'ne'):
                    truth = truth == ((x[1] == 'eq') == (x[4] == 1)); x = x[3]
                if is_term(x) and x[0] == 'icmp' and x[1] in ('eq', 'ne') and (x[1] == 'eq') == truth:
                    es = [e for e, f in lsum(fold('bin', 'sub', 64, x[3], x[4]))[0] if is_term(e) and e[0] == 'el' and kind_of(c, e[1]) == {'VAL'}]
                    for e in es:
                        f = dict(lsum(x[3])[0]).get(e, 0) - dict(lsum(x[4])[0]).get(e, 0)
                        u, v = x[3:5] if f == 1 else (x[4], x[3])
                        if len(es) == 1 and f in (1, -1): c.matched(esp, st, b, fr, e, fold('bin', 'add', 64, v, fold('bin', 'sub', 64, e, u)))
                        else: c.setg(st, 'MI', ('o', 'match'))
        if ph in ('case0', 'case'):
            for l in ls.values():
                if b in l.blocks and t not in l.blocks: c.span(esp, st, fr, l, b)
            if cond is not None:
                x, truth = cond
                while is_term(x) and x[0] == 'icmp' and x[2] == 1 and x[4] in (0, 1) and x[1] in ('eq', 'ne'):
                    truth = truth == ((x[1] == 'eq') == (x[4] == 1)); x = x[3]
                if is_term(x) and x[0] == 'icmp' and x[1] in ('eq', 'ne') and (x[1] == 'eq') == truth:
                    for e, w in ((x[3], x[4]), (x[4], x[3])):
                        (e1, n1), (w1, n2) = narrow(e, 64), narrow(w, 64)
                        if is_term(e1) and e1[0] == 'el' and 'VAL' in kind_of(c, e1[1]) and n1 < 64 and n2 < 64 and c.isval(st, fl, w1, 8): c.bad('switch', 'cases with different values are taken for the same', b.insts[-1])
                        if is_term(e) and e[0] == 'el' and 'VAL' in kind_of(c, e[1]) and c.isval(st, fl, w, 8):
                            c.setu(st, add=('dup',))
                            for f, l in c.chain(esp, b.insts[-1]): c.dups.setdefault((f, l.header), set()).update(c.idx.get(e, ())); break

    def matched(c, esp, st, b, fr, e, w):
        M = c.g(st, 'M')
        esp.fr0 = fr
        rs = [rel(w, x) for x in ([fold('bin', 'add', 64, M, v) for v in c.alts(st, 'NE')] if M is not None else []) + c.alts(st, 'CUR')]
        ok = True if True in rs else False if False in rs else None
        c.setg(st, 'MI', e[2]); c.setg(st, 'MOK', ('o', 'match') if ok is None else int(ok))
        if ok is None: return
        for n, ks in c.kinds.items():
            if {k for k, _ in ks} == {'OFF'} and ('el', n, e[2]) in st.cons: st.cons['el', n, e[2]] = frozenset((MT if ok else UT,))
        for f, l in c.chain(esp, b.insts[-1]): c.searches.setdefault((f, l.header), set()).update(c.idx.get(e, ())); break

    def exit(c, esp, st, fr, l, b, ph):
        r = rounds(l, b)
        args = esp.args.get(fr, ())
        w = c.g(st, 'NC') if ph[1] == 's' else None
        if ph[1] == 'd' and c.g(st, 'M') is not None and c.g(st, 'X') is not None: w = add(fold('bin', 'sub', 64, c.g(st, 'X'), c.g(st, 'M')), 1)
        v = None
        if r is not None:
            v = esp.val(st, r[0], fr, args)
            v = add(v, r[1])
        c.rounds.append(('exit', fr, l.header, ph[1], r is not None, rel(v, w) if ph[1] == 'd' else c.alike(st, v, 'NC'), c.alike(st, v, 'NC'), b.insts[-1]))
        c.span(esp, st, fr, l, b)
        # jumps are completed in loops too
        c.rounds.append(('fix', fr, l.header, None, r is not None, c.alike(st, v, 'NJ'), None, b.insts[-1]))

    def span(c, esp, st, fr, l, b):
        c.rounds.append(('span', fr, l, b, b.insts[-1], {}))
        for p, s0, e, k in spans(l, b):
            v = esp.val(st, e, fr, esp.args.get(fr, ()))
            for w in ('NC', 'NJ'):
                ds = [diff(v, x) for x in c.alts(st, w)]
                c.rounds[-1][5].setdefault(p, []).append((w, s0, k, 0 if 0 in ds else next((d for d in ds if d is not None), None)))

    def partial(c, r, used, what):
        """elements are left out by a loop that should visit all of them"""
        _, fr, l, b, ins, sp = r
        for o, f, k, blk in used:
            o = strip(o)
            if f != fr or blk not in l.blocks: continue
            for p, xs in sp.items():
                if p is not o: continue
                for w, s0, plus, d in xs:
                    if w != what: continue
                    if s0 + k != 0: return True
                    if d is not None and d + plus + k + before(l, blk, b) != 0: return True
        return False

    def norm(c, st):
        m = st.mem.get(G)
        if not m: return
        want = {}
        for k in ('NB', 'DEF', 'NC', 'NJ', 'NE'):
            for v in c.alts(st, k): want.setdefault(lsum(v), set()).add(k)
        M = c.g(st, 'M')
        if M is not None and 'NE' in m:
            for v in [fold('bin', 'add', 64, M, v) for v in c.alts(st, 'NE')] + c.alts(st, 'CUR'): want.setdefault(lsum(v), set()).add('CUR')
        for k in [k for k in m if isinstance(k, tuple) and k[0] == 'alt' and k[2][0] != 'inc']: del m[k]
        if not want: return
        for e, v in st.env.items():
            if not (isinstance(e, tuple) and len(e) == 2 and isinstance(e[1], int)): continue
            if not (isinstance(v, int) or is_term(v) and v[0] in ('phi', 'bin', 'zext', 'sext', 'trunc', 'was')): continue
            for k in want.get(lsum(v), ()):
                m[('alt', k, e)] = (8, v)
                if k == 'DEF' and is_term(v): st.exclude(v, (1 << 32) - 1); st.exclude(v, (1 << 64) - 1)      # code is shorter

    # --- completing the jumps
    def patch(c, st, esp, ins, size, loc, v):
        ph, hd, fl = c.U(st); S = c.g(st, 'S')
        if S is None: return
        if size == 4 and cut(v): c.bad('switch', 'a jump operand is cut', ins)
        d = diff(loc, S)
        if d is not None:
            if d == 0 and size == 1: c.setop(st, v)
            elif d == 3 and size == 4:
                T = c.g(st, 'T')
                if T is None and ph == 'table': T = c.pos(st)
                if rel(v, c.offset(T, st)) is False: c.bad('table', 'the switch does not lead to its table', ins)
                c.setu(st, add=('TO',))
            else: c.bad('table', 'something else than the opcode or the table operand of the switch is overwritten', ins)
            return
        x = lsum(loc)
        els = [t for t, f in x[0] if is_term(t) and t[0] == 'el']
        y = narrow(v, 32)[0]
        if isinstance(ph, tuple) and is_term(y) and y[0] == 'el' and kind_of(c, y[1]) == {'OFF'}:
            c.hits.setdefault(ins.loc(), set()).add(MT); return      # an entry of the table
        els = [t for t, f in x[0] if is_term(t) and t[0] == 'el' and f == 1]
        if len(x[0]) == 1 and els:
            L = c.chain(esp, ins)
            e = els[0]
            if not isinstance(ph, tuple): return
            end = c.end(st)
            # the jump lies at e - d: operand behind its opcode, target relative to the end of the operand
            y = None if end is None else diff(fold('bin', 'add', 64, v, e), end)
            known = None if end is None else rel(fold('bin', 'add', 64, v, e), end)
            c.fixes.append((e[1], x[1], y, known, (L[0][0], L[0][1].header) if L else None, ins, size))
            c.setu(st, add=('FX',))
            if L: c.fixidx.setdefault((L[0][0], L[0][1].header), set()).update(c.idx.get(e, ()))

    def leave(c, st):
        ph, hd, fl = c.U(st); c.n += 1
        if ph == 'head': c.bad('switch', 'a switch without an instruction is accepted', c.root); return
        if not isinstance(ph, tuple): c.bad('table', 'a switch is left without a table', c.root); return
        kind, i = ph[1:3]
        if i < (2 if kind == 's' else 3): c.bad('table', 'a switch is left in the middle of its table', c.root)
        for op in [op for op in fl if isinstance(op, tuple)]:
          if op[1] != c.ops['OP_SWITCH' if kind == 's' else 'OP_SWITCH_TABLE']: c.bad('table', 'the opcode of the switch does not fit its table', c.root)
        if 'TO' not in fl: c.bad('table', 'the place of the table is not written into the switch', c.root)
        if i != (2 if kind == 's' else 3): c.bad('table', 'a switch is left in the middle of an entry of its table', c.root)

    def finish(c):
        for n, w, msg, ins in c.later:
            ks = {k for k, _ in c.kinds.get(n, ())}
            if w not in ks: c.bad('table' if 'table' in msg else 'switch', msg, ins)
        for k in c.kinds_seen:
            if k not in c.tabloops.values(): c.bad('table', 'a table without entries is emitted', c.root)
        for r in c.rounds:
            if r[0] == 'round' and (r[1], r[2]) in c.tabloops:
                ph = r[4]; h = 2 if ph[1] == 's' else 3
                if ph[2] != h: c.bad('table', 'a round of the loop over the table ends in the middle of an entry', r[5])
                elif not ph[3]: c.bad('table', 'a round of the loop over the table emits no entry', r[5])
            elif r[0] == 'exit' and (r[1], r[2]) in c.tabloops:
                if r[5] is False: c.bad('table', 'the number of entries of the table is not %s' % ('the number of cases' if r[3] == 's' else 'that of the values from the smallest to the largest'), r[7])
            elif r[0] == 'exit' and (r[1], r[2]) in c.searches and r[4]:
                if r[6] is False: c.bad('table', 'not every case is compared with the value of an entry', r[7])
            elif r[0] == 'span' and c.partial(r, c.tabidx.get((r[1], r[2].header), ()), 'NC'): c.bad('table', 'the table does not list every case', r[4])
            elif r[0] == 'span' and (r[1], r[2].header) in c.searches:
                if c.partial(r, c.searches[r[1], r[2].header], 'NC'): c.bad('table', 'not every case is compared with the value of an entry', r[4])
        if not c.dups and not c.looked and any('VAL' == k for s in c.kinds.values() for k, _ in s): c.bad('switch', 'the value of a case is not compared with those of the cases before it', c.root)
        for r in c.rounds:
            if r[0] == 'span' and c.partial(r, c.dups.get((r[1], r[2].header), ()), 'NC'): c.bad('switch', 'the value of a case is not compared with those of all cases before it', r[4])
        d = set().union(*c.hits.values()) if c.hits else None
        if d is not None and MT not in d: c.bad('table', 'no entry of the table leads to a case', c.root)
        loops = set()
        for n, at, y, known, L, ins, size in c.fixes:
            ds = {d for k, d in c.kinds.get(n, ()) if k == 'FIX'}
            if not ds: c.bad('switch', 'something else than a jump of a case is completed', ins); continue
            if size != 4: c.bad('switch', 'a jump operand is not written as a whole', ins)
            loops.add(L)
            for d in ds:
                if at + d != 1: c.bad('switch', 'a jump of a case is completed in the wrong place', ins)
                elif y is not None and y - d + 5 != 0 and (y - d + 5) % (1 << 32): c.bad('switch', 'a jump of a case does not lead behind the table', ins)
                elif y is None and known is False: c.bad('switch', 'a jump of a case does not lead behind the table', ins)
        if any('FIX' == k for s in c.kinds.values() for k, _ in s) and not c.fixes: c.bad('switch', 'the jumps at the end of the cases are not completed', c.root)
        for r in c.rounds:
            if r[0] == 'round' and (r[1], r[2]) in loops and not r[4][4]: c.bad('switch', 'a round of the loop over the jumps completes none', r[5])
            if r[0] == 'fix' and (r[1], r[2]) in loops and r[5] is False: c.bad('switch', 'not every jump at the end of a case is completed', r[7])
            if r[0] == 'span' and (r[1], r[2].header) in loops and c.partial(r, c.fixidx.get((r[1], r[2].header), ()), 'NJ'): c.bad('switch', 'not every jump at the end of a case is completed', r[4])
        for i, o, fr, ins in c.minmax:
            if extremum(c, o, fr, i) is False: c.bad('table', 'the %s value of the table is not the %s of the cases' % (('first', 'smallest') if i == 0 else ('second', 'largest')), ins, ('minmax', i))

    def run(c): return drive(c)


def kind_of(c, n): return {k for k, _ in c.kinds.get(n, ())}


def fin(d): return d if isinstance(d, frozenset) else frozenset()


def rounds(l, b):
    """-> (bound, plus) of a loop that makes bound + plus rounds and is left in b before the round begins"""
    iv = emit.induction(l, b)
    if iv is not None: return (iv[0], 0) if not iv[1] else None
    t = b.insts[-1]
    c = t.ops[0] if t.op == 'br' and t.ops else None
    if not isinstance(c, ir.Inst) or c.op != 'icmp': return None
    stay = t.x[0] in l.blocks
    for i in (0, 1):
        p = strip(c.ops[i]); e = c.ops[1 - i]
        if not isinstance(p, ir.Inst) or p.op != 'phi' or p.blk is not l.header or not counter(p): continue
        pred = c.x if i == 0 else {'ult': 'ugt', 'slt': 'sgt', 'ugt': 'ult', 'sgt': 'slt', 'ule': 'uge', 'sle': 'sge', 'uge': 'ule', 'sge': 'sle'}.get(c.x, c.x)
        if pred in ('ule', 'sle') and stay or pred in ('ugt', 'sgt') and not stay: return e, 1
    return None


def spans(l, b):
    """-> (phi, first value, bound, plus): a counter that is stepped by 1 and stays below bound + plus where the loop is left in b"""
    t = b.insts[-1]
    c = t.ops[0] if t.op == 'br' and t.ops else None
    if not isinstance(c, ir.Inst) or c.op != 'icmp': return
    stay = t.x[0] in l.blocks
    for i in (0, 1):
        p, k = strip(c.ops[i]), 0
        if isinstance(p, ir.Inst) and p.op == 'add':
            for j in (0, 1):
                if isinstance(p.ops[j], ir.CInt): k = p.ops[j].v; k -= (k >> 63) << 64; p = strip(p.ops[1 - j]); break
        if not isinstance(p, ir.Inst) or p.op != 'phi' or p.blk is not l.header: continue
        first = [v for pb, v in p.x if pb not in l.blocks]
        if len(first) != 1 or not isinstance(first[0], ir.CInt) or not all(isinstance(strip(v), ir.Inst) and strip(v).op == 'add' and any(isinstance(y, ir.CInt) and y.v == 1 and strip(strip(v).ops[1 - j]) is p for j, y in enumerate(strip(v).ops)) for pb, v in p.x if pb in l.blocks): continue
        pred = c.x if i == 0 else {'ult': 'ugt', 'slt': 'sgt', 'ugt': 'ult', 'sgt': 'slt', 'ule': 'uge', 'sle': 'sge', 'uge': 'ule', 'sge': 'sle'}.get(c.x, c.x)
        if pred in ('ult', 'slt', 'ne') and stay or pred in ('uge', 'sge', 'eq') and not stay: yield p, first[0].v, c.ops[1 - i], -k
        if pred in ('ule', 'sle') and stay or pred in ('ugt', 'sgt') and not stay: yield p, first[0].v, c.ops[1 - i], 1 - k


def before(l, blk, b):
    """1 if a round reaches b only by way of blk"""
    if blk is b: return 1
    if blk is l.header: return 1
    seen = {l.header}; todo = [l.header]
    while todo:
        x = todo.pop()
        if x is b: return 0
        for y in x.succ:
            if y in l.blocks and y is not blk and y not in seen: seen.add(y); todo.append(y)
    return 1


def upto(l, b):
    """what a counter of the loop is compared with where the loop is left"""
    t = b.insts[-1]
    c = t.ops[0] if t.op == 'br' and t.ops else None
    if not isinstance(c, ir.Inst) or c.op != 'icmp': return None
    stay = t.x[0] in l.blocks
    for i in (0, 1):
        p = strip(c.ops[i])
        if not isinstance(p, ir.Inst) or p.op != 'phi' or p.blk is not l.header: continue
        pred = c.x if i == 0 else {'ult': 'ugt', 'slt': 'sgt', 'ugt': 'ult', 'sgt': 'slt'}.get(c.x, c.x)
        if pred in ('ult', 'slt', 'ne') and stay or pred in ('uge', 'sge', 'eq') and not stay: return c.ops[1 - i]
    return None


def extremum(c, o, fr, which):
    """is the value the smallest (0) or the largest (1) of the values of the cases?  None: computed in a way that is not understood"""
    heads = []; seen = set()
    def src(o, fr):
        o = strip(o)
        while isinstance(o, ir.Arg):
            call = c.esp.calls.get(fr)
            if call is None: return
            o = strip(call.ops[o.idx]); fr = fr[:-1]
        if not isinstance(o, ir.Inst) or (o, fr) in seen: return
        seen.add((o, fr))
        if o.op == 'phi':
            l = ir.loops(o.blk.fn).get(o.blk)
            if l is not None: heads.append((o, fr, l))
            else:
                for _, v in o.x: src(v, fr)
        elif o.op == 'select': src(o.ops[1], fr); src(o.ops[2], fr)
    src(o, fr)
    if len(heads) != 1: return None
    a, fr, l = heads[0]
    def isval(i, k=None):
        if not isinstance(i, ir.Inst) or i.op != 'load' or i.ty.size != 8 and getattr(i.ty, 'w', 0) != 64: return None
        w = c.where(i.ops[0], fr)
        return w if w is not None and {x for x, _ in c.kinds.get(w[0], ())} == {'VAL'} else None
    els = [i for b in l.blocks for i in b.insts if isval(i)]
    if not els: return None
    ok = True
    for big in ((1, 2), (2, 1), (2, 2), ((1 << 64) - 1, 1), (1, (1 << 64) - 1)):
        E, A = big
        want = min(E, A) if which == 0 else max(E, A)
        def ev(o, env):
            if isinstance(o, ir.CInt): return o.v
            if o in env: return env[o]
            if not isinstance(o, ir.Inst): return None
            if o is a: return A
            if o in els: return E
            if o.op == 'icmp':
                x, y = ev(o.ops[0], env), ev(o.ops[1], env)
                return None if x is None or y is None else esp.cmp(o.x, o.ops[0].ty.w if hasattr(o.ops[0], 'ty') else o.ops[1].ty.w, x, y)
            if o.op in ('zext', 'freeze', 'bitcast'): return ev(o.ops[0], env)
            if o.op == 'select':
                t = ev(o.ops[0], env)
                return None if t is None else ev(o.ops[1 if t else 2], env)
            if o.op in ('and', 'or', 'xor') and o.ty.w == 1:
                x, y = ev(o.ops[0], env), ev(o.ops[1], env)
                return None if x is None or y is None else esp.calc(o.op, 1, x, y)
            return None
        todo = [(l.header, {}, 0)]; res = set(); n = 0
        while todo:
            b, env, d = todo.pop(); n += 1
            if n > 400 or d > 40: return None
            t = b.insts[-1]
            nxt = list(dict.fromkeys(b.succ))
            if t.op == 'br' and t.ops and len(t.x) == 2:
                v = ev(t.ops[0], env)
                if v is not None: nxt = [t.x[0] if v else t.x[1]]
            for s in nxt:
                if s not in l.blocks: continue
                new = {}
                for i in s.insts[:s.nphi]:
                    for pb, v in i.x:
                        if pb is b: new[i] = ev(v, env)
                if s is l.header: res.add(new.get(a)); continue
                if s in ir.loops(s.fn): return None
                todo.append((s, {**env, **new}, d + 1))
        if None in res or not res: return None
        if res != {want}: ok = False
    if not ok: return False
    # where it begins
    cnt = [i for i in l.header.insts[:l.header.nphi] if any(strip(isval(e)[1][0]) is i for e in els)]
    if len(cnt) != 1: return None
    first = [v for pb, v in cnt[0].x if pb not in l.blocks]; init = [v for pb, v in a.x if pb not in l.blocks]
    if len(first) != 1 or len(init) != 1 or not isinstance(first[0], ir.CInt): return None
    begin = c.fixed(init[0], fr, isval(els[0])[0])
    if begin is not None:
        if begin != 0 and first[0].v != 0 or first[0].v > 1: return False
    elif isinstance(init[0], ir.CInt):
        if init[0].v != ((1 << 64) - 1 if which == 0 else 0) or first[0].v: return False
    else: return None
    return True if not any(r[0] == 'mm' and r[1:3] == (fr, l.header) and r[5] is False for r in c.rounds) else False
