"""What an expression compiles to.

The expression parser is followed with the code it emits executed on a symbolic operand stack; a recursive call of it is an operand of its own.
Whenever an operand is complete - at the operator behind it and at the end - the stack must hold exactly the term the tokens call for.
"""
from . import esp, emit
from .emit import Client, PARSE
from .esp import St, fold, is_term, pbase
from .ir import AnalysisError

FN = {'sin': 'OP_SIN', 'cos': 'OP_COS', 'tan': 'OP_TAN', 'sqrt': 'OP_SQRT', 'log': 'OP_LOG', 'abs': 'OP_ABS', 'pow': 'OP_POW', 'float': 'OP_ITOF', 'int': 'OP_FTOI'}
LEVELS = (('PIPE_PIPE',), ('AMP_AMP',), ('PIPE',), ('CARET',), ('AMP',), ('EQ_EQ', 'BANG_EQ'), ('LT', 'LT_EQ', 'GT', 'GT_EQ'), ('LSHIFT', 'RSHIFT'), ('PLUS', 'MINUS'), ('STAR', 'SLASH', 'PERCENT'))
RANK = {t: i for i, l in enumerate(LEVELS) for t in l}
BIN = {'PIPE_PIPE': 'OP_LOG_OR', 'AMP_AMP': 'OP_LOG_AND', 'PIPE': 'OP_BIT_OR', 'CARET': 'OP_BIT_XOR', 'AMP': 'OP_BIT_AND', 'LSHIFT': 'OP_SHL', 'RSHIFT': 'OP_SHR', 'PERCENT': 'OP_MOD',
       'EQ_EQ': ('OP_EQ', 'OP_EQ_F', 'I'), 'BANG_EQ': ('OP_NEQ', 'OP_NEQ_F', 'I'), 'LT': ('OP_LT', 'OP_LT_F', 'I'), 'LT_EQ': ('OP_LTE', 'OP_LTE_F', 'I'), 'GT': ('OP_GT', 'OP_GT_F', 'I'), 'GT_EQ': ('OP_GTE', 'OP_GTE_F', 'I'),
       'PLUS': ('OP_ADD', 'OP_FADD', 'F'), 'MINUS': ('OP_SUB', 'OP_FSUB', 'F'), 'STAR': ('OP_MUL', 'OP_FMUL', 'F'), 'SLASH': ('OP_DIV', 'OP_FDIV', 'F')}
SYM = {'PIPE_PIPE': '||', 'AMP_AMP': '&&', 'PIPE': '|', 'CARET': '^', 'AMP': '&', 'LSHIFT': '<<', 'RSHIFT': '>>', 'PERCENT': '%', 'EQ_EQ': '==', 'BANG_EQ': '!=', 'LT': '<', 'LT_EQ': '<=', 'GT': '>', 'GT_EQ': '>=',
       'PLUS': '+', 'MINUS': '-', 'STAR': '*', 'SLASH': '/', 'BANG': '!', 'TILDE': '~'}
UNARY = {'OP_NEG', 'OP_FNEG', 'OP_LOG_NOT', 'OP_BIT_NOT', 'OP_ITOF', 'OP_FTOI', 'OP_SIN', 'OP_COS', 'OP_TAN', 'OP_SQRT', 'OP_LOG', 'OP_ABS'}
BINARY = {x for v in BIN.values() for x in ((v,) if isinstance(v, str) else v[:2])} | {'OP_POW'}
ROOT = 'parse_expression'


def tk0(f): return ('tk', f, ('role', 'T0'))


DOT = ('a', 'dotted'); HID = (0, 16, 24)
esp_pure = ('strlen', 'memcmp', 'memchr', 'strncmp', 'strcmp')


def lsum(t):
    """-> (terms with their factors, constant) of a sum"""
    acc = {}; k = 0
    todo = [(t, 1)]
    while todo:
        t, f = todo.pop()
        while is_term(t) and (t[0] in ('zext', 'sext') or t[0] == 'trunc' and t[1] >= 32): t = t[2] if t[0] == 'trunc' else t[3]
        if isinstance(t, int): k += f * (t if t < 1 << 31 else t - (1 << 32) if t < 1 << 32 else t - (1 << 64))
        elif is_term(t) and t[0] == 'bin' and t[1] in ('add', 'sub'): todo += [(t[3], f), (t[4], f if t[1] == 'add' else -f)]
        elif is_term(t) and t[0] == 'bin' and t[1] == 'mul' and isinstance(t[4], int): todo.append((t[3], f * t[4]))
        else: acc[t] = acc.get(t, 0) + f
    return frozenset((x, f) for x, f in acc.items() if f), k


def contains_kind(t, k): return is_term(t) and (t[0] == k or any(contains_kind(x, k) for x in t))


def diff(a, b):
    if a is None or b is None: return None
    x, y = lsum(a), lsum(b)
    return x[1] - y[1] if x[0] == y[0] else None


class Expr(Client):
    """u = (what, token, tokens behind it, operand stack)"""
    memo = True
    def __init__(c, m, types=None, prefix=False):
        super().__init__(m); c.prefix = prefix
        c.types = types or {}; c.code = {v: k for k, v in c.types.items()}
        c.subs = set(); c.infix = set(); c.stops = set(); c.rets = {}; c.level = None; c.nsub = {}; c.lit = {}; c.at = {}

    # --- tokens
    def advance(c, st, esp, ins, types=None):
        ty = c.cur(st, 'type'); d = st.dom(ty)
        if isinstance(d, tuple): d = frozenset(x for x in c.all if x not in d[1])
        what, t0, toks, stack = st.q[2]
        ops = {c.k['TOK_' + t] for t in RANK}
        inside = what != 'left' and (c.open(st))
        if what == 'start' or not inside: groups = [frozenset((v,)) for v in sorted(d)]
        else: groups = [frozenset((v,)) for v in sorted(d)] if len(d) <= 6 else [d]
        out = []
        for g in groups:
            y = st.copy() if len(groups) > 1 else st
            if is_term(ty) and not y.restrict(ty, g): continue
            name = c.tname.get(next(iter(g))) if len(g) == 1 else None
            for z in c.token(y, esp, ins, name):
                for f, n in (('type', 4), ('start', 8), ('length', 4), ('line', 4)):
                    x = c.cur(z, f)
                    z.store(c.cell('previous', f), n, x)
                if z.q[2][0] == 'prefix' and z.q[2][2] == (): c.name0(z)
                c.newtok(z, esp, ins)
                if z.q[2][0] == 'bin' and z.q[2][2] == (): c.clean(z)
                out.append((z, None))
        return out

    def clean(c, st):
        """behind an operator nothing but the kind of the operand to its left is left of what was before"""
        for w, r in (('previous', 'OP'), ('current', 'NEXT')):
            for f in ('type', 'start', 'length', 'line'):
                x = c.cur(st, f, w); y = ('tk', f, ('role', r))
                if is_term(x) and x != y: st.rename(x, y)
        for f in ('type', 'start', 'length', 'line'): st.forget(('tk', f, ('role', 'T0')))
        keep = {c.k['p_target']} | {c.cell(w, f)[2] for w in ('current', 'previous') for f in ('type', 'start', 'length', 'line')}
        for b in list(st.mem):
            if b == c.P: st.mem[b] = {o: v for o, v in st.mem[b].items() if o in keep}
            elif not (is_term(b) and b[0] in ('a', 'g')): del st.mem[b]
        live = set()
        for v in list(st.env.values()) + [v for k in st.mem.values() for _, v in k.values()]: live |= set(esp.leaves(v))
        for l in list(st.cons):
            if not any(x in live for x in esp.leaves(l)): del st.cons[l]

    def name0(c, st):
        r = ('role', 'T0')
        for f in ('type', 'start', 'length', 'line'): st.forget(('tk', f, r))
        for f in ('type', 'start', 'length', 'line'):
            x = c.cur(st, f)
            if is_term(x) and x != ('tk', f, r): st.rename(x, ('tk', f, r))

    def open(c, st):
        """in the middle of an operand: parentheses or a dotted name"""
        what, t0, toks, stack = st.q[2]
        if what == 'start': return False
        return bool(toks) and toks[-1] in ('LPAREN', 'COMMA', 'DOT')

    def token(c, st, esp, ins, name):
        g, pend, (what, t0, toks, stack) = st.q
        if what == 'start':
            st.q = (g, pend, ('prefix', name, (), ())); return [st]
        if not c.open(st) and name in RANK:
            if c.prefix: return []
            out = []
            for y in c.complete(st, ins):
                c.infix.add(name)
                y.q = (g, y.q[1], ('bin', name, (), (('left', y.q[2][1]),)))
                out.append(y)
            return out
        if toks[-2:] == ('DOT', 'IDENTIFIER') and name == 'DOT': toks = toks[:-2]
        st.q = (g, pend, (what, t0, (toks + (name or '?',))[-6:], stack))
        return [st]

    # --- operands
    def sub(c, st, esp, ins, name, a):
        g, pend, (what, t0, toks, stack) = st.q
        if pend is not None: c.bad('layout', 'an operand is parsed in the middle of %s' % pend[0], ins); return []
        L = ('expr',) if name == ROOT else ('prec', name) + tuple(a[1:])
        if name != ROOT and (len(a) != 2 or not isinstance(a[1], int)):
            c.bad('operand', 'the binding strength an operand is parsed with is not a constant', ins); return []
        n = sum(1 for x in toks if x.startswith('sub'))
        for b in list(st.mem):
            if not (is_term(b) and b[0] in ('a', 'P', 'g')): del st.mem[b]
        keep = {c.k['p_target']}
        st.mem[c.P] = {o: v for o, v in (st.mem.get(c.P) or {}).items() if o in keep}
        c.newtok(st, esp, ins, 'previous'); c.newtok(st, esp, ins)
        c.subs.add(L); toks = (toks + ('sub%d' % n,))[-6:]
        if not c.types:
            t = ('sub', n); st.forget(t)
            st.q = (g, pend, (what, t0, toks, stack + (('sub', L, n, '?'),)))
            return [(st, t)]
        out = []
        for t, v in c.types.items():
            y = st.copy(); y.q = (g, pend, (what, t0, toks, stack + (('sub', L, n, t),)))
            out.append((y, v))
        return out

    def instr(c, st, esp, ins, op, x):
        g, pend, (what, t0, toks, stack) = st.q
        s = list(stack)
        try:
            if op == 'OP_PUSH_IMM': s.append(('imm', x[0]))
            elif op == 'OP_LOAD_CTX': s.append(('load', x[0]))
            elif op == 'OP_DUP':
                if s: raise IndexError
                s.append(('self',))
            elif op == 'OP_SWAP': s[-1], s[-2] = s[-2], s[-1]
            elif op in UNARY: s.append(('un', op, s.pop()))
            elif op in BINARY: b = s.pop(); s.append(('bin', op, s.pop(), b))
            else: raise IndexError
        except IndexError:
            c.bad('operand', '%s does not belong into the code of %s' % (op, c.show(what, t0)), ins); c.doomed(st); return
        st.q = (g, None, (what, t0, toks, tuple(s)))
        c.at.setdefault((what, t0, tuple(s)), ins)

    def doomed(c, st): st.q = st.q[:2] + (('dead', None, (), ()),)
    def dead(c, st): return st.q[2][0] == 'dead'
    def show(c, what, t0): return 'operator %s' % SYM.get(t0, t0) if what == 'bin' or t0 in ('BANG', 'TILDE', 'MINUS') else 'an operand that begins with %s' % t0

    def tset(c, st, item): return {item[3]}

    def complete(c, st, ins):
        """an operand is complete: -> states with ('left', type)"""
        g, pend, (what, t0, toks, stack) = st.q
        if what == 'left': return [st]
        c.n += 1
        if len(stack) != 1 or pend is not None:
            c.bad('operand', '%s leaves %d values on the stack' % (c.show(what, t0), len(stack)), ins); return []
        r = c.check(st, what, t0, toks, stack[0], c.at.get((what, t0, stack), ins))
        if r is None: return []
        out = []
        for t in sorted(r):
            y = st.copy()
            y.q = (g, None, ('left', t, (), ()))
            out.append(y)
        return out

    def arg(c, st, it, n, ins, what):
        """an operand of a floating point operation"""
        if it == ('un', 'OP_ITOF', it[2] if len(it) > 2 else None) and it[2][0] == 'sub' and it[2][2] == n:
            if c.types and c.tset(st, it[2]) != {'I'}: c.bad('convert', '%s: an operand that need not be an integer is converted to float' % what, ins); return False
            return True
        if it[0] == 'sub' and it[2] == n:
            if c.types and 'I' in c.tset(st, it): c.bad('convert', '%s: an integer operand is not converted to float' % what, ins); return False
            return True
        c.bad('operand', '%s is applied to something else than its operand' % what, ins); return False

    def check(c, st, what, t0, toks, it, ins):
        me = c.show(what, t0)
        def bad(msg, rule='operand'): c.bad(rule, msg, ins); return None
        def strength(s, rank, who):
            c.nsub.setdefault((who, rank, s[1]), ins.loc() if hasattr(ins, 'loc') else str(ins))
        if what == 'bin':
            b = BIN[t0]
            if it[0] != 'bin': return bad('%s compiles to no binary operation' % me)
            op, x, y = it[1:]; unx = x; uny = y
            if x[:2] == ('un', 'OP_ITOF'): unx = x[2]
            if y[:2] == ('un', 'OP_ITOF'): uny = y[2]
            if unx[0] != 'left' or uny[0] != 'sub': return bad('%s: the operands are not the ones to the left and to the right' % me)
            strength(uny, RANK[t0], 'right')
            lt = unx[1]; rt = c.tset(st, uny)
            conv = (unx is not x, uny is not y)
            if isinstance(b, str):
                if op != b: return bad('%s compiles to %s' % (me, op), 'operator')
                if c.types and lt != 'F' and 'F' not in rt and any(conv): return bad('%s: an integer operand is converted' % me, 'convert')
                return {'I'}
            if op not in b[:2]: return bad('%s compiles to %s' % (me, op), 'operator')
            if not c.types: return {'?'}
            if op == b[1]:
                if lt != 'F' and rt != {'F'}: return bad('%s compiles to %s for operands of which none need be a float' % (me, op), 'operator')
                if conv[0] != (lt == 'I'): return bad('%s: the left operand is %sconverted to float' % (me, '' if conv[0] else 'not '), 'convert')
                if conv[1] and rt != {'I'} or not conv[1] and 'I' in rt: return bad('%s: the right operand is %sconverted to float' % (me, '' if conv[1] else 'not '), 'convert')
                return {b[2]}
            if lt == 'F' or 'F' in rt: return bad('%s compiles to %s for a float operand' % (me, op), 'operator')
            if any(conv): return bad('%s: an integer operand is converted' % me, 'convert')
            return {'I'}
        if t0 == 'NUMBER':
            if it[0] == 'imm':
                v = it[1]
                if is_term(v) and v[0] == 'num' and v[2:] == (tk0('start'), tk0('length')) and v[1] in ('i64', 'double'):
                    if v[1] == 'double' and 'POINT' not in toks: return bad('a number without decimal point compiles to a float', 'literal')
                    if v[1] == 'i64' and 'POINT' in toks: return bad('a number with a decimal point compiles to an integer', 'literal')
                    return {'F' if v[1] == 'double' else 'I'}
            return bad('a number compiles to something else than its value', 'literal')
        if t0 in ('TRUE', 'FALSE'):
            return {'I'} if it == ('imm', int(t0 == 'TRUE')) else bad('%s compiles to something else than its value' % t0.lower(), 'literal')
        if t0 == 'SELF': return {'U'} if it == ('self',) else bad('self compiles to something else than the value of the field')
        if t0 == 'LPAREN':
            if it[0] != 'sub': return bad('an operand in parentheses is changed')
            if toks[-1:] != ('RPAREN',): return bad('a closing parenthesis is not read')
            strength(it, None, '( )')
            return c.tset(st, it)
        if t0 in ('BANG', 'TILDE', 'MINUS'):
            if it[0] != 'un' or it[2][0] != 'sub': return bad('%s compiles to no unary operation on its operand' % me)
            strength(it[2], None, 'unary')
            op = it[1]; ts = c.tset(st, it[2])
            if t0 != 'MINUS': return {'I'} if op == {'BANG': 'OP_LOG_NOT', 'TILDE': 'OP_BIT_NOT'}[t0] else bad('%s compiles to %s' % (me, op), 'operator')
            if op == 'OP_FNEG': return {'F'} if ts == {'F'} or not c.types else bad('%s compiles to OP_FNEG for an operand that need not be a float' % me, 'operator')
            if op == 'OP_NEG': return {'I'} if 'F' not in ts else bad('%s compiles to OP_NEG for a float operand' % me, 'operator')
            return bad('%s compiles to %s' % (me, op), 'operator')
        if t0 == 'IDENTIFIER':
            k = [w for w in FN if st.const(('eqk', ('kwof', tk0('start')), w)) == 1]
            if k:
                w = k[0]; me = w + '()'
                if toks[:1] != ('LPAREN',) or toks[-1:] != ('RPAREN',): return bad('%s: the parentheses are not read' % me)
                if w == 'pow':
                    if it[0] != 'bin' or it[1] != 'OP_POW': return bad('%s compiles to %s' % (me, it[1] if len(it) > 1 else it[0]), 'operator')
                    for x in (it[2], it[3]):
                        y = x[2] if x[0] == 'un' else x
                        if y[0] == 'sub': strength(y, None, '( )')
                    return {'F'} if c.arg(st, it[2], 0, ins, me) and c.arg(st, it[3], 1, ins, me) else None
                r = 'I' if w == 'int' else 'F'
                if w in ('int', 'float') and it[0] == 'sub':
                    strength(it, None, '( )')
                    return {r} if not c.types or c.tset(st, it) == {r} else bad('%s: an argument that need not be of this type is not converted' % me, 'convert')
                if it[0] != 'un' or it[1] != FN[w]: return bad('%s compiles to %s' % (me, it[1] if it[0] in ('un', 'bin') else it[0]), 'operator')
                y = it[2][2] if it[2][0] == 'un' else it[2]
                if y[0] != 'sub': return bad('%s is not applied to its argument' % me)
                strength(y, None, '( )')
                if w in ('int', 'float'):
                    if it[2][0] != 'sub': return bad('%s: the argument is changed' % me)
                    return {r} if not c.types or r not in c.tset(st, it[2]) else bad('%s: an argument that has this type is converted' % me, 'convert')
                return {'F'} if c.arg(st, it[2], 0, ins, me) else None
            f = [w for w in FN if st.const(('eqk', ('kwof', tk0('start')), w)) is None]
            if f: return bad('%s() is not recognised' % f[0], 'operator')
            if it[0] != 'load': return bad('a field name compiles to something else than its value')
            x = it[1]; tab = ('strtab', ('ptr', c.P, c.k['p_strtab'])); plain = tab + (tk0('start'), tk0('length'))
            if 'DOT' in toks:
                if x == plain or not (is_term(x) and x[:2] == tab and is_term(pbase(x[2])[0]) and pbase(x[2])[0][0] == 'a') or 2 in c.verdict(st): return bad('a dotted name compiles to another key than that of the whole name', 'key')
            elif x != plain: return bad('a field name compiles to another key', 'key')
            return {'U'}
        return bad('an expression that begins with %s is accepted' % t0)

    def key(c, st):
        d = st.cons.get(('kwof', tk0('start')))
        return next(iter(d)) if isinstance(d, frozenset) and len(d) == 1 else None

    # --- the text of a dotted name: (start, end, what it ends with) of the text put together in a local array
    def text(c, st, db, new=None):
        """-> start, end (in all forms that are known to be equal), state"""
        if new is not None:
            beg, ends, how = new
            st.mem[DOT] = {0: (8, ('ptr', db, beg)), 16: (1, how)}
            for k, e in ends.items(): st.mem[DOT][k] = (8, e)
            return
        k = st.mem.get(DOT)
        if not k or 8 not in k or 16 not in k: return None
        if not is_term(k[0][1]) or pbase(k[0][1])[0] != db: return None
        d = st.dom(k[16][1])
        how = 0 if not isinstance(d, frozenset) or 0 in d else next(iter(d)) if len(d) == 1 else 3 if 3 in d else 0
        return pbase(k[0][1])[1], {o: v for o, (_, v) in k.items() if o not in HID}, how

    def away(c, o, ends):
        """distance of o from the end"""
        for e in ends.values():
            d = diff(o, e)
            if d is not None: return d

    def wrote(c, st, db, o, n, v):
        """v: token whose text is written, or a byte, or None"""
        t = c.text(st, db)
        if v == ('role', 'T0'): return c.text(st, db, (o, {8: fold('bin', 'add', 64, n, o) if o != 0 else n}, 1))
        if t is None: return
        beg, ends, how = t
        if v is None: return c.text(st, db, (beg, ends, 0))
        d = c.away(o, ends)
        if v == 0 and (d is None or d >= 0): return
        if d is None: return c.text(st, db, (beg, ends, 0))     # where this lies is not known
        if isinstance(v, tuple): ok = d == 0 and how == 2 and c.cur(st, 'start', 'previous') == ('tk', 'start', v) and c.cur(st, 'length', 'previous') == ('tk', 'length', v)
        else: ok = d == 0 and how == 1 and v == 46
        c.text(st, db, (beg, {k: fold('bin', 'add', 64, e, n) for k, e in ends.items()}, how and (3 if not ok else 1 if isinstance(v, tuple) else 2)))

    def verdict(c, st):
        k = st.mem.get(DOT, {}).get(24)
        d = st.dom(k[1]) if k else ()
        return d if isinstance(d, frozenset) else ()

    def unknown(c, st):
        if 16 in st.mem.get(DOT, {}): st.mem[DOT][16] = (1, 0)

    def whole(c, st, p, n):
        b, o = pbase(p)
        if not (is_term(b) and b[0] == 'a'): return True
        t = c.text(st, b)
        if t is None or t[2] == 0: return True      # put together in a way that is not understood
        if t[2] != 1: return False
        c.n += 1
        if any(contains_kind(x, 'ptrtoint') for x, _ in lsum(n)[0]): return True
        return diff(o, t[0]) in (0, None) and c.away(fold('bin', 'add', 64, o, n) if o != 0 else n, t[1]) in (0, None)

    def norm(c, st):
        k = st.mem.get(DOT)
        if not k or 8 not in k or isinstance(k[8][1], int): return
        known = {lsum(v) for o, (_, v) in k.items() if o not in HID}; new = {}
        for key, v in st.env.items():
            if is_term(v) and v[0] in ('tk', 'phi', 'bin', 'zext', 'sext', 'trunc', 'o', 'was') and lsum(v) in known: new[1000 + 8 * key[1]] = (8, v)
        st.mem[DOT] = {o: v for o, v in k.items() if o <= 24}
        st.mem[DOT].update(new)

    def store(c, esp, st, ins, p, size, v):
        b, o = pbase(p)
        if size == 1 and is_term(b) and b[0] not in ('a', 'P', 'g'): c.unknown(st)
        if size == 1 and is_term(b) and b[0] == 'a': c.wrote(st, b, o, 1, v if isinstance(v, int) else None)

    # --- engine
    def load(c, esp, st, ins, p, size):
        b, o = pbase(p)
        if size != 1 or not is_term(b) or b[0] in ('a', 'P', 'g'): return
        t = ('ch', ins.id); st.forget(t)
        g, pend, (what, t0, toks, stack) = st.q
        if what != 'prefix' or t0 != 'NUMBER':
            st.cons[t] = frozenset(range(256))
            return [(st, t)]
        y = st.copy()
        st.cons[t] = frozenset(range(256)) - {46}; y.cons[t] = frozenset((46,))
        if 'POINT' not in toks: y.q = (g, pend, (what, t0, toks + ('POINT',), stack))
        return [(st, t), (y, t)]

    def call(c, esp, st, ins, name, a):
        if name == 'memchr' and is_term(pbase(a[0])[0]) and pbase(a[0])[0][0] == 'tk' and isinstance(a[1], int):
            y = st.copy(); r = esp.fresh(y, ins, esp.fr, esp.inloop); y.exclude(r, 0)
            g, pend, (what, t0, toks, stack) = st.q
            if a[1] & 255 == 46 and what == 'prefix' and t0 == 'NUMBER' and 'POINT' not in toks: y.q = (g, pend, (what, t0, toks + ('POINT',), stack))
            return [(st, 0), (y, r)]
        if name and name.replace('llvm.', '').startswith(('memcpy', 'memmove')):
            b, o = pbase(a[0]); x, y = pbase(a[1]); l = a[2]
            while is_term(l) and l[0] in ('zext', 'sext'): l = l[3]
            if is_term(b) and b[0] == 'a':
                tok = x[2] if is_term(x) and x[:2] == ('tk', 'start') and y == 0 and l == ('tk', 'length', x[2]) else None
                c.wrote(st, b, o, a[2], tok)
            elif is_term(b) and b[0] not in ('P', 'g'): c.unknown(st)
        elif name == 'strtab_add' and len(a) > 2 and st.mem.get(DOT): st.mem[DOT][24] = (1, 1 if c.whole(st, a[1], a[2]) else 2)
        elif a and name != 'strtab_add' and (name is None or name not in c.m.functions or c.m.functions[name].decl) and name not in esp_pure:
            for q in a:
                b = pbase(q)[0]
                if is_term(b) and b[0] == 'a' and c.text(st, b): c.wrote(st, b, None, None, None)
        if name == ROOT or name in esp.stack: return c.sub(st, esp, ins, name, a)
        if name in PARSE: return None
        return super().call(esp, st, ins, name, a)

    def append(c, st, esp, ins, name, a): c.bad('operand', 'code is copied into an expression', ins); return []

    def run(c, name, args):
        e = c.esp = esp.Esp(c.m, c)
        st = St((('?',), None, ('start', None, (), ())))
        for w in ('current', 'previous'):
            for f in ('type', 'start', 'length', 'line'): c.cur(st, f, w)
        f = c.m.functions.get(name)
        if f is None or f.decl or len(f.args) != 1 + len(args): raise AnalysisError('%s not found' % name)
        for y, v in e.run(f, [('ptr', c.P, 0)] + list(args), st, ()):
            if c.dead(y): continue
            if y.q[2][0] == 'start': c.bad('operand', 'an expression is accepted without reading anything', name); continue
            for z in c.complete(y, name):
                d = z.dom(c.cur(z, 'type'))
                for t in RANK:
                    if isinstance(d, tuple) and c.k['TOK_' + t] not in d[1] or not isinstance(d, tuple) and c.k['TOK_' + t] in d: c.stops.add(t)
                t = z.q[2][1]; r = z.const(v) if v is not None else None
                if c.prefix and y.q[2][1] in (('IDENTIFIER',) if t == 'U' else ('NUMBER',)): c.lit.setdefault(t, set()).add(r)
                c.rets.setdefault(t, set()).add(r)
        c.seen = e.seen


def discover(m):
    """-> (function that parses operands of a given strength, values of the expression types)"""
    c = Expr(m, prefix=True); c.run(ROOT, [])
    fn = {x[1] for x in c.subs if x[0] == 'prec'}
    if c.viol: return None, c.viol
    if len(fn) != 1: raise AnalysisError('the function that parses an operand of a given strength was not found')
    t = {k: c.lit.get(k, set()) for k in 'IFU'}
    if any(len(v) != 1 or None in v for v in t.values()): raise AnalysisError('the types of an integer, a float and a field are not constants')
    return fn.pop(), {k: next(iter(v)) for k, v in t.items()}
