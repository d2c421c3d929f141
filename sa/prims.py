"""The primitives the rest of the analysis of the compiler builds on: the code buffer, the tables of names, keywords, number parsing."""
import itertools
from . import ir, esp, emit
from .esp import St, fold, is_term, pbase, leaves, ev, subst
from .exprs import diff
from .ir import AnalysisError

_k = None
B = ('P', 'B'); D = ('D',); G = ('a', 'ghost')
OK = {'ret': 0}


def konst():
    global _k
    if _k is None:
        ex = {}
        for t, f in (('Buffer', ('data', 'size', 'capacity')), ('StringTable', ('strings', 'count', 'capacity')), ('StructRegistry', ('defs', 'count', 'capacity')), ('EnumRegistry', ('defs', 'count', 'capacity')),
                     ('StructDef', ('name',)), ('EnumDef', ('name',)), ('Token', ('type', 'start', 'length'))):
            for x in f: ex[t + '_' + x] = 'offsetof(%s,%s)' % (t, x)
        ex['StructDef'] = 'sizeof(StructDef)'; ex['EnumDef'] = 'sizeof(EnumDef)'; ex['ID'] = 'TOK_IDENTIFIER'
        _k = ir.probe_consts(ex, headers=('cnd_internal.h',))
    return _k


def bits(t, n):
    """where the low n bits of a term come from: 0, 1, (leaf, bit) or None"""
    if isinstance(t, int): return [t >> i & 1 for i in range(n)]
    if not is_term(t): return [None] * n
    k = t[0]
    if k == 'zext' or k == 'sext':
        r = bits(t[3], t[1]); return (r + [0 if k == 'zext' else r[-1]] * n)[:n]
    if k == 'trunc': return (bits(t[2], t[1]) + [None] * n)[:n]
    if k == 'bin':
        op, w, a, b = t[1:]
        if isinstance(b, int):
            if op in ('udiv', 'urem') and b & (b - 1) == 0 and b: op, b = ('lshr', b.bit_length() - 1) if op == 'udiv' else ('and', b - 1)
            if op == 'mul' and b & (b - 1) == 0 and b: op, b = 'shl', b.bit_length() - 1
            r = bits(a, w)
            if op == 'and': r = [r[i] if b >> i & 1 else 0 for i in range(w)]
            elif op == 'or': r = [1 if b >> i & 1 else r[i] for i in range(w)]
            elif op == 'lshr' and b < w: r = r[b:] + [0] * b
            elif op == 'ashr' and b < w: r = r[b:] + [r[-1]] * b
            elif op == 'shl' and b < w: r = ([0] * b + r)[:w]
            else: r = [None] * w
            return (r + [None] * n)[:n]
        if op in ('or', 'add', 'xor'):
            x, y = bits(a, w), bits(b, w)
            r = [q if p == 0 else p if q == 0 else None for p, q in zip(x, y)]
            if op != 'or' and None in r: r = [None] * w
            return (r + [None] * n)[:n]
        return [None] * n
    return [(t, i) for i in range(n)]


SAMPLES = (0, 1, 2, 3, 4, 5, 8, 9)


class Prim(emit.Client):
    def __init__(c, m):
        super().__init__(m); c.kk = konst()
    def g(c, st, k):
        x = st.mem.get(G, {}).get(k); return x[1] if x else None
    def setg(c, st, k, v): st.mem.setdefault(G, {})[k] = (8, v)
    def go(c, root, st, args):
        f = c.m.functions.get(root)
        if f is None or f.decl: raise AnalysisError('%s not found' % root)
        c.root = root; e = c.esp = esp.Esp(c.m, c)
        for y, v in e.run(f, args, st, ()): c.leave(y, v)


class Bytes(Prim):
    """code buffer: q = (conditions passed since the last byte, flags, places written relative to the start)"""
    WHAT = {'buf_push': 1, 'buf_push_u16': 2, 'buf_push_u32': 4, 'buf_push_u64': 8, 'buf_append': 'n', 'buf_write_u8_at': -1, 'buf_write_u16_at': -2, 'buf_write_u32_at': -4, 'buf_current_offset': 0}

    def key(c, st): return None
    def dead(c, st): return False
    def run(c):
        for f in c.WHAT:
            c.w = c.WHAT[f]
            st = St(((), frozenset(), frozenset()))
            p = ('ptr', B, 0)
            st.mem[B] = {}; st.mem[G] = {}
            st.store(('ptr', B, c.kk['Buffer_data']), 8, ('ptr', D, 0)); st.store(('ptr', B, c.kk['Buffer_size']), 8, ('size',)); st.store(('ptr', B, c.kk['Buffer_capacity']), 8, ('cap',))
            c.setg(st, 'alloc', ('cap',))
            c.base = ('off',) if c.w != 'n' and c.w < 0 else ('size',)
            args = [p] + ([('src',), ('len',)] if c.w == 'n' else [('off',), ('v',)] if c.w < 0 else [('v',)] if c.w else [])
            c.go(f, st, args)
            c.n += 1
        c.finish0()

    def finish0(c):
        st = St(((), frozenset(), frozenset())); st.mem[B] = {}; st.mem[G] = {}; c.w = None
        c.go('buf_init', st, [('ptr', B, 0)])

    def flag(c, st, x, on=True): C, f, u = st.q; st.q = (C, f | {x} if on else f - {x}, u)
    def fl(c, st, x): return x in st.q[1]

    def edge(c, esp, st, b, t, cond, fr):
        if cond is None or not is_term(cond[0]): return
        C, f, u = st.q
        x = (cond[0], bool(cond[1]))
        if len(C) >= 4 or C and C[0] == 'sat':      # in a loop: only the last one is kept, and it does not keep states apart
            t = x[0] if x[1] else fold('icmp', 'eq', 1, x[0], 0)
            cap = st.load(('ptr', B, c.kk['Buffer_capacity']), 8); al = c.g(st, 'alloc')
            if is_term(cap) and cap != ('cap',):
                st.forget(('cap',)); st.store(('ptr', B, c.kk['Buffer_capacity']), 8, ('cap',))
                t = subst(t, cap, ('cap',)); c.setg(st, 'alloc', subst(al, cap, ('cap',)))
            st.q = (('sat',), f, u); c.setg(st, 'last', t)
        else: st.q = (C + (x,), f, u)

    def call(c, esp, st, ins, name, a):
        if name == 'realloc' and pbase(a[0])[0] == D:
            c.setg(st, 'alloc', a[1]); c.flag(st, 'moved')
            return [(st, ('ptr', D, 0))]
        if name == 'malloc' and c.w is None:
            c.setg(st, 'alloc', a[0]); return [(st, ('ptr', D, 0))]
        if name in ('malloc', 'calloc'): c.flag(st, 'lost')
        if name and (name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove')) and pbase(a[0])[0] == D:
            c.copied(st, ins, a); return [(st, a[0])]
        return None

    def copied(c, st, ins, a):
        o = pbase(a[0])[1]; c.n += 1; c.sites.add(ins.loc())
        if c.w != 'n': c.put(st, ins, o, a[2], None); return
        if diff(o, ('size',)) not in (0, None) or o == 0: c.bad('buffer', '%s: the code is not put behind the code that is there' % c.root, ins)
        if a[1] != ('src',) and a[1] != ('ptr', ('src',), 0) or a[2] != ('len',) and diff(a[2], ('len',)) is not None: c.bad('buffer', '%s: not all of the code is copied' % c.root, ins)
        c.room(st, ins, o, a[2]); c.flag(st, 'copied')

    def load(c, esp, st, ins, p, size):
        if p == ('ptr', B, c.kk['Buffer_data']) and c.fl(st, 'moved') and c.w is not None: c.bad('buffer', '%s: a byte is written to where the buffer was before it was enlarged' % c.root, ins)

    def store(c, esp, st, ins, p, size, v):
        b, o = pbase(p)
        if b == B and o == c.kk['Buffer_data']:
            c.flag(st, 'moved', False)
            if pbase(v)[0] != D: c.flag(st, 'lost')
        elif b == D and c.w is not None: c.put(st, ins, o, size, v); return True

    def put(c, st, ins, o, n, v):
        c.n += 1; c.sites.add(ins.loc())
        d = diff(o, c.base)
        if d is not None and d >= 1 << 63: d -= 1 << 64
        if d is None or not isinstance(n, int) or c.w == 'n' and v is None: c.flag(st, 'lost'); return
        if c.w == 'n': c.flag(st, 'lost'); c.room(st, ins, o, n); return
        w = abs(c.w)
        if d < 0 or d + n > w: c.bad('buffer', '%s: byte %d is written' % (c.root, d if d < 0 else d + n - 1), ins); return
        if v is not None:
            for i, x in enumerate(bits(v, 8 * n)):
                if x is not None and x != (('v',), 8 * d + i): c.bad('buffer', '%s: byte %d is not that of the value' % (c.root, d + i // 8), ins); break
        C, f, u = st.q
        st.q = (C, f, u | set(range(d, d + n)))
        c.room(st, ins, o, n)

    def sample(c, st, *terms):
        """assignments of the leaves under which the path is taken"""
        C = [x for x in st.q[0] if x != 'sat']
        if len(C) < len(st.q[0]):
            x = c.g(st, 'last')
            if is_term(x) and x[0] == 'icmp': C = [(x, True)]
        ls = [('size',), ('cap',)]
        for t in terms + tuple(x[0] for x in C): ls += [l for l in leaves(t) if l not in ls]
        if len(ls) > 5: return
        for v in itertools.product(SAMPLES, repeat=len(ls)):
            asg = dict(zip(ls, v))
            if asg[('size',)] > asg[('cap',)] or asg[('cap',)] < 1: continue
            if all(ev(t, asg) in (None, int(y)) for t, y in C): yield asg

    def room(c, st, ins, o, n):
        al = c.g(st, 'alloc')
        if al is None or c.fl(st, 'lost'): return
        if 'sat' in st.q[0]:        # enlarged in a loop: judged when the condition that ended it speaks of what was asked for
            x = c.g(st, 'last')
            if not is_term(x) or not set(leaves(al)) <= set(leaves(x)) | {('size',), ('cap',), ('len',)} or ('cap',) in leaves(al) and ('cap',) not in leaves(x): c.flag(st, 'lost'); return
        cap = st.load(('ptr', B, c.kk['Buffer_capacity']), 8)
        end = fold('bin', 'add', 64, o, n) if isinstance(o, int) or is_term(o) else None
        for asg in c.sample(st, end, al, cap):
            e, a, k = ev(end, asg), ev(al, asg), ev(cap, asg)
            if e is None or a is None: break
            if e > a: c.bad('buffer', '%s: a byte can be written behind the end of the buffer' % c.root, ins); break
            if k is not None and k > a: c.bad('buffer', '%s: the buffer is smaller than noted' % c.root, ins); break
        if c.w != 'n' and c.w < 0: return
        C, f, u = st.q
        if cap != ('cap',): st.forget(('cap',)); st.store(('ptr', B, c.kk['Buffer_capacity']), 8, ('cap',))
        c.setg(st, 'alloc', ('cap',))
        st.q = (((fold('icmp', 'ule', 64, end, ('cap',)), True),), f, u)

    def leave(c, st, v):
        c.n += 1; C, f, u = st.q; k = c.kk
        size = st.load(('ptr', B, k['Buffer_size']), 8)
        if c.w is None:
            cap = st.load(('ptr', B, k['Buffer_capacity']), 8); al = c.g(st, 'alloc')
            if not (size == 0 and isinstance(cap, int) and isinstance(al, int) and 0 < cap <= al) and isinstance(cap, int) and (al is None or isinstance(al, int)): c.bad('buffer', 'buf_init: the buffer is smaller than noted', c.root)
            return
        if c.w == 0:
            if diff(v, ('size',)) not in (0, None): c.bad('buffer', 'buf_current_offset is not the number of bytes in the buffer', c.root)
        if 'moved' in f: c.bad('buffer', '%s: the enlarged buffer is lost' % c.root, c.root)
        grow = 0 if c.w != 'n' and c.w <= 0 else ('len',) if c.w == 'n' else c.w
        if diff(size, fold('bin', 'add', 64, ('size',), grow)) not in (0, None) or grow != 0 and (isinstance(size, int) or set(leaves(size)) <= {('len',), ('v',), ('off',), ('cap',)}): c.bad('buffer', '%s: the size of the code does not grow by what is added' % c.root, c.root)
        if 'lost' in f: return
        if c.w == 'n':
            if 'copied' not in f and any(asg.get(('len',), 1) for asg in c.sample(st, ('len',))): c.bad('buffer', 'buf_append: nothing is added', c.root)
        elif u != frozenset(range(abs(c.w))):
            if c.w > 0: c.bad('buffer', '%s: %d of %d bytes are written' % (c.root, len(u), c.w), c.root)
            elif any(asg[('off',)] - c.w <= asg[('size',)] for asg in c.sample(st, ('off',))): c.bad('buffer', '%s: code that is there is not overwritten' % c.root, c.root)


class Names(Prim):
    """tables of names: u = what is known of the entry looked at"""
    T = ('P', 'T')
    WHAT = {'strtab_add': ('StringTable', 'strings', None), 'reg_find': ('StructRegistry', 'defs', 'StructDef'), 'enum_reg_find': ('EnumRegistry', 'defs', 'EnumDef')}

    def key(c, st): return None
    def dead(c, st): return False
    def run(c):
        c.bychar = set()
        for f, (t, arr, d) in c.WHAT.items():
            c.stride = c.kk[d] if d else 8; c.noff = c.kk[d + '_name'] if d else 0; c.t = t
            st = St((frozenset(), None, None)); st.mem[c.T] = {}; st.mem[G] = {}
            st.store(('ptr', c.T, c.kk['%s_%s' % (t, arr)]), 8, ('ptr', ('arr',), 0)); st.store(('ptr', c.T, c.kk[t + '_count']), 8, ('count',))
            c.go(f, st, [('ptr', c.T, 0), ('text',), ('len',)])
            c.n += 1
        c.root = 'match_keyword'; c.stride = None
        st = St((frozenset(), None, None)); tok = ('P', 'tok'); st.mem[tok] = {}; st.mem[G] = {}
        st.store(('ptr', tok, c.kk['Token_type']), 4, ('type',)); st.store(('ptr', tok, c.kk['Token_start']), 8, ('text',)); st.store(('ptr', tok, c.kk['Token_length']), 4, ('len',))
        st.cons[('type',)] = c.all
        f = c.m.functions.get('match_keyword')
        if f is not None and not f.decl and len(f.args) == 2: c.go('match_keyword', st, [('ptr', tok, 0), ('ptr', ('str', 0), 0)])

    def know(c, st, *x): q, p, u = st.q; st.q = (q | set(x), p, u)

    def load(c, esp, st, ins, p, size):
        b, o = pbase(p)
        if b == ('arr',) and size == 8: return [(st, ('ptr', ('str', o if is_term(o) else o & (1 << 64) - 1), 0))]
        if is_term(b) and b[0] == 'str' and size == 1:
            c.know(st, 'chars'); c.bychar.add(c.root); v = ('ch', b[1], o); st.forget(v); return [(st, v)]

    def store(c, esp, st, ins, p, size, v):
        b, o = pbase(p)
        if b == c.T and o == c.kk[c.t + '_count'] and c.stride is not None: c.know(st, 'counted')
        if b == ('arr',):
            c.n += 1; c.sites.add(ins.loc())
            x = diff(o if is_term(o) else o & (1 << 64) - 1, fold('bin', 'mul', 64, ('count',), c.stride))
            if size == 8 and x not in (0, None): c.bad('name', '%s: a new name is not put behind the others' % c.root, ins)
            if size == 8: c.know(st, 'new')
            return True

    def call(c, esp, st, ins, name, a):
        if name == 'strlen' and pbase(a[0])[0][0] == 'str':
            t = ('slen', pbase(a[0])[0][1]); st.forget(t); return [(st, t)]
        if name in ('strncmp', 'memcmp'):
            s = [x for x in a[:2] if is_term(pbase(x)[0]) and pbase(x)[0][0] == 'str']; o = [x for x in a[:2] if x not in s]
            if len(s) == 1 and (o[0] == ('text',) or o[0] == ('ptr', ('text',), 0)) and pbase(s[0])[1] == 0:
                t = ('cmp', pbase(s[0])[0][1], a[2]); st.forget(t); c.know(st, 'compared'); return [(st, t)]
        if name == 'realloc': return [(st, a[0])]
        if name in ('malloc', 'strndup'):
            t = esp.fresh(st, ins, esp.fr, esp.inloop); return [(st, t)]
        if name and (name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove')) and a[1] in (('text',), ('ptr', ('text',), 0)):
            if diff(c.plain(a[2]), ('len',)) not in (0, None): c.bad('name', '%s: a name is cut' % c.root, ins)
        return None

    def plain(c, t):
        while is_term(t) and t[0] in ('sext', 'zext', 'trunc') and (t[0] != 'trunc' or t[1] >= 32): t = t[2] if t[0] == 'trunc' else t[3]
        return t

    def edge(c, esp, st, b, t, cond, fr):
        if t in ir.loops(b.fn) and b in ir.loops(b.fn)[t].blocks:
            q, p, u = st.q; st.q = (q & {'chars', 'compared', 'new', 'counted'}, p, u)
        if cond is None: return
        c.fact(st, cond[0], cond[1])

    def fact(c, st, t, truth):
        if not is_term(t) or t[0] != 'icmp': return
        p, w, a, b = t[1:]
        if w == 1 and isinstance(b, int) and p in ('eq', 'ne') and is_term(a): return c.fact(st, a, truth == ((p == 'eq') == (b == 1)))
        if p not in ('eq', 'ne') or truth != (p == 'eq'): return
        for x, y in ((a, b), (b, a)):
            px, py = c.plain(x), c.plain(y)
            if is_term(px) and px[0] == 'slen' and py == ('len',): c.know(st, ('len', px[1]))
            if is_term(px) and px[0] == 'cmp' and y == 0 and (c.plain(px[2]) == ('len',) or is_term(c.plain(px[2])) and c.plain(px[2])[0] == 'slen'): c.know(st, ('cmp', px[1]))
            if is_term(px) and px[0] == 'ch' and y == 0 and c.plain(px[2]) == ('len',): c.know(st, ('len', px[1]))

    def leave(c, st, v):
        c.n += 1; q = st.q[0]
        if c.stride is None:
            if v == 0: return
            if c.root in c.bychar: return
            if is_term(v): c.fact(st, v if v[0] == 'icmp' else c.plain(v), True); q = st.q[0]
            if ('len', 0) not in q or ('cmp', 0) not in q: c.bad('name', 'match_keyword: %s' % ('another word is taken for a keyword' if 'compared' not in q else 'a part of a word is taken for a keyword'), c.root)
            if st.dom(('type',)) != {c.kk['ID']}: c.bad('name', 'match_keyword: a token that is not a name is taken for a keyword', c.root)
            return
        if c.root != 'strtab_add' and (v == 0 or v is None): return
        cnt = st.load(('ptr', c.T, c.kk[c.t + '_count']), 8)
        if c.root == 'strtab_add':
            x = c.plain16(v)
            if x is None: return
            if not q & {'new', 'counted'}: pos = fold('bin', 'mul', 64, x, 8)
            else:
                if diff(cnt, ('count',)) not in (1, None): c.bad('name', 'strtab_add: a new name is not counted', c.root)
                if x != ('count',) and diff(x, ('count',)) not in (0, None): c.bad('name', 'strtab_add: the number of a new name is not its place', c.root)
                if 'new' not in q: c.bad('name', 'strtab_add: a new name is not stored', c.root)
                return
        else:
            if pbase(v)[0] != ('arr',): return
            o = pbase(v)[1]; pos = fold('bin', 'add', 64, o if is_term(o) else o & (1 << 64) - 1, c.noff)
        if not any(isinstance(y, tuple) for y in q): return     # how it was found is not seen (compared by character, or the search ended elsewhere)
        have = {k: [y[1] for y in q if isinstance(y, tuple) and y[0] == k] for k in ('len', 'cmp')}
        for k, msg in (('cmp', 'a name is found that is not the one looked for'), ('len', 'a longer name that begins with the one looked for is taken for it')):
            d = [diff(y, pos) for y in have[k]]
            if not d or all(z not in (0, None) for z in d): c.bad('name', '%s: %s' % (c.root, msg), c.root)

    def plain16(c, v):
        while is_term(v) and v[0] in ('zext', 'trunc'):
            if v[0] == 'trunc' and v[1] < 16: c.bad('name', 'strtab_add: the number of a name is cut', c.root); return
            v = v[2] if v[0] == 'trunc' else v[3]
        return v
