"""Property simulation: path-insensitive constant/term propagation that keeps paths with different property states apart.

A state is (q, env, mem, cons): q is the state of the property automaton, env and mem map SSA values and memory cells to terms, cons gives the
possible values of the leaves of terms (a finite set or a set of excluded values).  States that meet at a block with the same q (and the same
pending truth values) are merged, so that the analysis is linear in blocks times property states instead of in paths.
"""
import heapq
from . import ir
from .ir import CInt, CNull, CUndef, CFloat, CAgg, GRef, CExpr, Arg, Inst, AnalysisError

LIM = 64
BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}


def sx(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v


def calc(op, w, a, b):
    m = (1 << w) - 1
    if op == 'add': return (a + b) & m
    if op == 'sub': return (a - b) & m
    if op == 'mul': return (a * b) & m
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) & m if b < w else None
    if op == 'lshr': return a >> b if b < w else None
    if op == 'ashr': return (sx(a, w) >> b) & m if b < w else None
    if op == 'udiv': return a // b if b else None
    if op == 'urem': return a % b if b else None
    if op == 'srem':
        x, y = sx(a, w), sx(b, w)
        return (abs(x) % abs(y) * (-1 if x < 0 else 1)) & m if y else None
    return None


def cmp(pred, w, a, b):
    if pred == 'eq': return int(a == b)
    if pred == 'ne': return int(a != b)
    if pred[0] == 's': a = sx(a, w); b = sx(b, w)
    return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[1:]])


def is_term(t): return isinstance(t, tuple)


def ev(t, asg):
    """value of a term under an assignment of its leaves"""
    if isinstance(t, int): return t
    if not is_term(t): return None
    if t in asg: return asg[t]
    k = t[0]
    if k == 'icmp':
        a = ev(t[3], asg); b = ev(t[4], asg)
        if a is None or b is None: return None
        return cmp(t[1], t[2], a, b)
    if k == 'eqk':
        a = asg.get(t[1])
        return None if a is None else int(a == t[2])
    if k == 'zext': return ev(t[3], asg)
    if k == 'sext':
        a = ev(t[3], asg)
        return None if a is None else sx(a, t[1]) & ((1 << t[2]) - 1)
    if k == 'trunc':
        a = ev(t[2], asg)
        return None if a is None else a & ((1 << t[1]) - 1)
    if k == 'bin':
        a = ev(t[3], asg); b = ev(t[4], asg)
        if a is None or b is None: return None
        return calc(t[1], t[2], a, b)
    return None


_lv = {}
def leaves(t):
    if not is_term(t): return ()
    r = _lv.get(t)
    if r is None:
        k = t[0]
        if k == 'icmp': r = tuple(dict.fromkeys(leaves(t[3]) + leaves(t[4])))
        elif k == 'eqk': r = (t[1],)
        elif k in ('zext', 'sext'): r = leaves(t[3])
        elif k == 'trunc': r = (t,) if is_term(t[2]) and t[2][0] == 'num' else leaves(t[2])
        elif k == 'bin': r = tuple(dict.fromkeys(leaves(t[3]) + leaves(t[4])))
        else: r = (t,)
        _lv[t] = r
    return r


_ct = {}
def contains(t, x):
    if t == x: return True
    if not is_term(t): return False
    k = (t, x)
    r = _ct.get(k)
    if r is None:
        r = _ct[k] = any(contains(y, x) for y in t if is_term(y))
    return r


def subst(t, x, y):
    if t == x: return y
    if not is_term(t) or not contains(t, x): return t
    return tuple(subst(z, x, y) if is_term(z) else z for z in t)


def fold(*t):
    """builds a term, simplified"""
    k = t[0]
    v = ev(t, {})
    if v is not None: return v
    if k == 'zext' or k == 'sext':
        x = t[3]
        if is_term(x) and x[0] == 'zext': return ('zext', x[1], t[2], x[3])
    if k == 'trunc':
        w, x = t[1], t[2]
        if is_term(x) and x[0] in ('zext', 'sext'):
            if x[1] == w: return x[3]
            if x[1] > w: return fold('trunc', w, x[3])
            if x[0] == 'zext': return ('zext', x[1], w, x[3])
        if is_term(x) and x[0] == 'trunc': return ('trunc', w, x[2])
        if is_term(x) and x[0] == 'cat' and w <= 32: return x[1] if w == 32 else fold('trunc', w, x[1])
        if is_term(x) and x[0] == 'bin' and x[1] == 'lshr' and x[4] == 32 and is_term(x[3]) and x[3][0] == 'cat' and w == 32: return x[3][2]
    if k == 'icmp':
        p, w, a, b = t[1:]
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
            p = {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}.get(p, p)
        if a == b: return int(p in ('eq', 'uge', 'ule', 'sge', 'sle'))
        if is_term(a) and is_term(b) and a[0] == b[0] == 'ptr' and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int): return cmp(p, 64, a[2], b[2])
        if isinstance(b, int) and is_term(a):
            if a[0] == 'zext' and p in ('eq', 'ne'):
                if b >> a[1]: return int(p == 'ne')
                return fold('icmp', p, a[1], a[3], b)
            if w == 1 and p in ('eq', 'ne'):
                if (p == 'ne') == (b == 0): return a
                if a[0] == 'icmp' and a[1] in ('eq', 'ne'): return ('icmp', 'ne' if a[1] == 'eq' else 'eq') + a[2:]
                return ('icmp', 'eq', 1, a, 0)
            if a[0] == 'ptr' and b == 0:
                if a[1][0] in ('a', 'g') or a[2] != 0: return int(p == 'ne')
        return ('icmp', p, w, a, b)
    if k == 'bin':
        op, w, a, b = t[1:]
        if isinstance(a, int) and op in ('add', 'and', 'or', 'xor', 'mul'): a, b = b, a
        if op == 'sub' and a == b: return 0
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 1 and op == 'mul': return a
            if b == 0 and op in ('and', 'mul'): return 0
            if op == 'and' and b == (1 << w) - 1: return a
            if op == 'xor' and w == 1: return fold('icmp', 'eq', 1, a, 0)
            if op == 'sub': op = 'add'; b = -b & ((1 << w) - 1)
            if op == 'add' and is_term(a) and a[0] == 'bin' and a[1] == 'add' and isinstance(a[4], int):
                return fold('bin', 'add', w, a[3], (a[4] + b) & ((1 << w) - 1))
        return ('bin', op, w, a, b)
    return t


def ptr(base, off):
    if is_term(base) and base[0] == 'ptr':
        o = base[2]
        off = o + off if isinstance(o, int) and isinstance(off, int) else fold('bin', 'add', 64, o & ((1 << 64) - 1) if isinstance(o, int) else o, off & ((1 << 64) - 1) if isinstance(off, int) else off)
        base = base[1]
    return ('ptr', base, off)


def pbase(p):
    if is_term(p) and p[0] == 'ptr': return p[1], p[2]
    return p, 0


class St:
    """zero: base -> intervals that hold zeros apart from the cells in mem"""
    __slots__ = ('q', 'env', 'mem', 'cons', 'zero')
    def __init__(s, q, env=None, mem=None, cons=None, zero=None): s.q = q; s.env = env or {}; s.mem = mem or {}; s.cons = cons or {}; s.zero = zero or {}
    def copy(s): return St(s.q, dict(s.env), {b: dict(c) for b, c in s.mem.items()}, dict(s.cons), dict(s.zero))
    def same(s, o): return s.env == o.env and s.mem == o.mem and s.cons == o.cons and s.zero == o.zero
    def iszero(s, b, o, n):
        z = s.zero.get(b)
        return z is not None and any(lo <= o and o + n <= hi for lo, hi in z)
    def setzero(s, b, o, n):
        s.kill(b, o, n); s.mem.setdefault(b, {})
        s.zero[b] = tuple(sorted(s.zero.get(b, ()) + ((o, o + n),)))

    # --- values
    def dom(s, t):
        """finite set of values or ('not', set)"""
        if isinstance(t, int): return frozenset((t,))
        if not is_term(t): return NOT0
        c = s.cons.get(t)
        if c is not None: return c
        lv = leaves(t)
        if lv == (t,): return NOT0
        if t[0] == 'icmp' and t[1] in ('eq', 'ne') and isinstance(t[4], int):
            c = s.cons.get(peel(t[3]))      # what is known of a term that is not a leaf
            if isinstance(c, tuple) and t[4] in c[1]: return frozenset((int(t[1] == 'ne'),))
        sets = []; n = 1
        for l in lv:
            d = s.cons.get(l)
            if d is None or isinstance(d, tuple):
                if t[0] == 'eqk': return frozenset((0,)) if d is not None and t[2] in d[1] else BOOL
                if t[0] == 'icmp':
                    v = s._cmp_inf(t, l, d)
                    return BOOL if v is None else frozenset((v,))
                return NOT0
            sets.append(d); n *= len(d)
            if n > 4096: return BOOL if t[0] in ('icmp', 'eqk') else NOT0
        out = set()
        def rec(i, asg):
            if i == len(lv):
                out.add(ev(t, asg)); return
            for v in sets[i]:
                asg[lv[i]] = v; rec(i + 1, asg)
        rec(0, {})
        if None in out or len(out) > 256: return BOOL if t[0] in ('icmp', 'eqk') else NOT0
        return frozenset(out)

    def _cmp_inf(s, t, l, d):
        # equality with an excluded value; unsigned comparison of a value known not to be zero
        x, b = peel(t[3]), t[4]
        if d is not None and x == l and isinstance(b, int):
            if t[1] in ('eq', 'ne') and b in d[1]: return int(t[1] == 'ne')
            if 0 in d[1] and b == 0 and t[1] in ('ugt', 'ule'): return int(t[1] == 'ugt')
            if 0 in d[1] and b == 1 and t[1] in ('uge', 'ult'): return int(t[1] == 'uge')
            if 0 in d[1] and b == 0 and t[1] in ('sgt', 'sle') and is_term(t[3]) and t[3][0] == 'zext': return int(t[1] == 'sgt')
        return None

    def const(s, t):
        if isinstance(t, int): return t
        d = s.dom(t)
        if not isinstance(d, tuple) and len(d) == 1: return next(iter(d))
        return None

    def assume(s, t, truth, hook=None):
        """False if impossible"""
        if isinstance(t, int): return bool(t) == truth
        d = s.dom(t)
        if not isinstance(d, tuple):
            d2 = {bool(v) for v in d}
            if truth not in d2: return False
            if d2 == {truth}: return True
        k = t[0]
        if k == 'eqk':
            if truth:
                s.cons[t[1]] = frozenset((t[2],))
                if hook: hook(s, t[1], t[2])
            else: s.exclude(t[1], t[2])
            return True
        if k == 'bin' and t[2] == 1:
            if t[1] == 'and' and truth or t[1] == 'or' and not truth: return s.assume(t[3], truth, hook) and s.assume(t[4], truth, hook)
        if k == 'icmp':
            p, w, a, b = t[1:]
            if w == 1 and isinstance(b, int) and p in ('eq', 'ne'): return s.assume(a, (p == 'eq') == (b == 1) if truth else (p == 'eq') != (b == 1), hook)
            if isinstance(b, int) and p in ('eq', 'ne') and is_term(a):
                x = peel(a)
                if leaves(x) == (x,):
                    if (p == 'eq') == truth: return s.restrict(x, frozenset((b,)))
                    return s.exclude(x, b)
            lv = leaves(t); sets = [s.cons.get(l) for l in lv]; n = 1
            for d in sets:
                n *= 10 ** 6 if d is None or isinstance(d, tuple) else len(d)
            if n <= 4096:
                keep = [set() for _ in lv]
                def rec(i, asg):
                    if i == len(lv):
                        v = ev(t, asg)
                        if v is None or bool(v) == truth:
                            for j, l in enumerate(lv): keep[j].add(asg[l])
                        return
                    for v in sets[i]:
                        asg[lv[i]] = v; rec(i + 1, asg)
                rec(0, {})
                for l, kset in zip(lv, keep):
                    if not kset: return False
                    s.cons[l] = frozenset(kset)
            elif isinstance(b, int) and is_term(a):
                x = peel(a)
                if leaves(x) == (x,) and (p, b, truth) in (('ugt', 0, True), ('ule', 0, False), ('uge', 1, True), ('ult', 1, False)): return s.exclude(x, 0)
            return True
        if leaves(t) == (t,):
            return s.exclude(t, 0) if truth else s.restrict(t, frozenset((0,)))
        return True

    def restrict(s, l, S):
        d = s.cons.get(l)
        if d is not None: S = frozenset(v for v in S if v not in d[1]) if isinstance(d, tuple) else S & d
        if not S: return False
        s.cons[l] = S
        return True

    def exclude(s, l, v):
        d = s.cons.get(l)
        if d is None: s.cons[l] = ('not', frozenset((v,)))
        elif isinstance(d, tuple): s.cons[l] = ('not', d[1] | {v})
        else:
            d = d - {v}
            if not d: return False
            s.cons[l] = d
        return True

    # --- memory
    def load(s, p, size):
        b, o = pbase(p)
        if not isinstance(o, int): return None
        if b in s.zero and s.iszero(b, o, size): return 0
        c = s.mem.get(b)
        if not c: return None
        h = c.get(o)
        if h and h[0] == size: return h[1]
        if size == 8 and h and h[0] == 4:
            g = c.get(o + 4)
            if g is None and not any(k < o + 8 and k + n > o + 4 for k, (n, _) in c.items()): g = c[o + 4] = (4, ('pad',))
            if g and g[0] == 4: return h[1] | g[1] << 32 if isinstance(h[1], int) and isinstance(g[1], int) else ('cat', h[1], g[1])
        if size == 4 and h and h[0] == 8: return fold('trunc', 32, h[1])
        return None

    def kill(s, b, o=None, size=None):
        z = s.zero.get(b)
        if z is not None:
            if not isinstance(o, int) or not isinstance(size, int): del s.zero[b]
            else:
                z = tuple(x for lo, hi in z for x in ((lo, min(hi, o)), (max(lo, o + size), hi)) if x[0] < x[1])
                if z: s.zero[b] = z
                else: del s.zero[b]
        c = s.mem.get(b)
        if not c: return
        if not isinstance(o, int) or not isinstance(size, int): s.mem[b] = {}; return
        for k in [k for k, (n, _) in c.items() if k < o + size and o < k + n]: del c[k]

    def store(s, p, size, v):
        b, o = pbase(p)
        if not own(b):
            for x in list(s.mem):
                if not own(x) and x != b:
                    if isinstance(o, int): s.kill(x, o, size)
                    else: s.kill(x)
        s.kill(b, o, size)
        if not isinstance(o, int): return
        if is_term(v) and v[0] == 'cat':
            s.mem.setdefault(b, {})[o] = (4, v[1]); s.mem[b][o + 4] = (4, v[2])
        else: s.mem.setdefault(b, {})[o] = (size, v)

    def rename(s, x, y):
        """replaces the leaf x by y in all terms; what was known as y before becomes unknown"""
        if y is not None: s.forget(y)
        for k, v in s.env.items():
            if is_term(v) and contains(v, x): s.env[k] = subst(v, x, y)
        for b, c in list(s.mem.items()):
            for o, (n, v) in c.items():
                if is_term(v) and contains(v, x): c[o] = (n, subst(v, x, y))
            if contains(b, x):
                del s.mem[b]; s.mem[subst(b, x, y)] = c
        for l in list(s.cons):
            if contains(l, x): s.cons[subst(l, x, y)] = s.cons.pop(l)

    def forget(s, x):
        """the old value of leaf x: terms that contain it become unknown"""
        hit = {}
        def sub(v, slot):
            if is_term(v) and contains(v, x):
                if v not in hit: hit[v] = ('was', slot)
                return hit[v]
            return v
        def clash(n): return n in s.cons
        for k in list(s.env): s.env[k] = sub(s.env[k], k)
        for b, c in list(s.mem.items()):
            if contains(b, x): del s.mem[b]; continue
            for o, (n, v) in c.items(): c[o] = (n, sub(v, (b, o)))
        for v, n in hit.items():
            s.cons.pop(n, None)
        for v, n in hit.items():
            d = s.cons.get(v)
            if d is not None: s.cons[n] = d
        for l in list(s.cons):
            if contains(l, x): del s.cons[l]


NOT0 = ('not', frozenset())
BOOL = frozenset((0, 1))


def own(b): return is_term(b) and b[0] in ('a', 'P', 'g')


def keyed(v):
    """values that keep states apart: truth values, and places in a table"""
    return v < 4096 if isinstance(v, int) else not is_term(v) or v[0] != 'ptr' or isinstance(v[2], int) and abs(v[2]) < 4096


def strip(o):
    while isinstance(o, Inst) and o.op in ('zext', 'sext', 'trunc'): o = o.ops[0]
    return o


def peel(t):
    while is_term(t) and t[0] == 'zext': t = t[3]
    return t


class Esp:
    """client: .call(esp, st, ins, name, args) -> list of (st, value) or None; .key(st); .on_kw(st, leaf, kw); .edge(st, blk, succ, cond)"""
    def __init__(s, m, client):
        s.m = m; s.c = client; s.stack = []; s.seen = set(); s.steps = 0; s.live = {}; s.maxq = 0
        s.loopblocks = {}; s.args = {}; s.calls = {}; s.fr0 = (); s.done = {}

    def depth1(s): return len(s.stack) == 1

    def string(s, t):
        """text of a constant string"""
        b, o = pbase(t)
        if is_term(b) and b[0] == 'g' and isinstance(o, int):
            bs = s.gbytes(b[1])
            if bs is not None and 0 <= o < len(bs) and 0 in bs[o:]: return bs[o:bs.index(0, o)].decode('latin1')
        return None

    def gbytes(s, name):
        g = s.m.globals.get(name)
        if g is None or not g.const or g.init is None or not isinstance(g.init, CAgg): return None
        key = ('gb', name)
        if key not in s.live:
            l = ir.agg_bytes(g.init)
            s.live[key] = bytes(v.v for _, _, v in l) if all(n == 1 and isinstance(v, CInt) for _, n, v in l) else None
        r = s.live[key]
        return r if isinstance(r, (bytes, bytearray)) else None

    def liveness(s, fn):
        if fn.name in s.live: return s.live[fn.name]
        use = {}; de = {}
        for b in fn.blocks:
            u = set(); d = set()
            for i in b.insts:
                if i.op != 'phi':
                    for o in ops(i):
                        if isinstance(o, Inst) and o.id not in d: u.add(o.id)
                d.add(i.id)
            use[b] = u; de[b] = d
        li = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                o = set()
                for t in b.succ:
                    o |= li[t] - {i.id for i in t.insts[:t.nphi]}
                    for i in t.insts[:t.nphi]:
                        for (pb, v) in i.x:
                            if pb is b and isinstance(v, Inst): o.add(v.id)
                n = use[b] | (o - de[b])
                if n != li[b]: li[b] = n; ch = True
        # values live at block entry, after its phis
        res = {b: li[b] | {i.id for i in b.insts[:b.nphi]} for b in fn.blocks}
        loops = ir.loops(fn)
        lb = set()
        for l in loops.values(): lb |= l.blocks
        i1 = {i.id for b in fn.blocks for i in b.insts if i.ty.k == 'int' and i.ty.w == 1}
        # positions in constant tables
        for l in loops.values():
            idx = {strip(v) for b in l.blocks for i in b.insts if i.op == 'gep' and isinstance(i.ops[0], GRef) for v, _ in i.x[1]}
            for i in l.header.insts[:l.header.nphi]:
                out = [v for pb, v in i.x if pb not in l.blocks]
                if i in idx and all(isinstance(v, CInt) for v in out) or out and all(isinstance(v, GRef) for v in out): i1.add(i.id)
        s.live[fn.name] = (res, lb, i1, loops)
        return s.live[fn.name]

    def val(s, st, o, fr, args):
        if isinstance(o, Inst):
            v = st.env.get((fr, o.id))
            if v is None: v = st.env[(fr, o.id)] = ('o', fr, o.id)
            return v
        if isinstance(o, CInt): return o.v
        if isinstance(o, Arg): return args[o.idx]
        if isinstance(o, CNull): return 0
        if isinstance(o, CFloat): return ('f', repr(o.v))
        if isinstance(o, GRef):
            return ('fn', o.name) if o.name in s.m.functions else ('ptr', ('g', o.name), o.off)
        if isinstance(o, CUndef): return ('undef',)
        return ('cexpr', repr(o))

    def run(s, fn, args, st, fr=()):
        if fn.name in s.stack: raise AnalysisError('%s is called recursively in an unexpected place' % fn.name)
        s.stack.append(fn.name); s.seen.add(fn.name); s.args[fr] = args
        res, lb, i1, loops = s.liveness(fn)
        idx = fn._rpo
        inl = s.loopblocks.get(fr, False)
        tab = {b: {} for b in fn.blocks}
        rets = {}
        heap = []; queued = set()
        def put(b, st):
            if s.c.dead(st): return
            s.c.norm(st)
            live = res[b]
            for k in [k for k in st.env if k[0] == fr and k[1] not in live]: del st.env[k]
            key = (st.q, s.c.key(st), tuple(sorted(((k[1], st.env[k]) for k in st.env if k[0] == fr and k[1] in i1 and keyed(st.env[k])), key=lambda x: x[0])))
            t = tab[b]
            old = t.get(key)
            if old is None: t[key] = st
            else:
                n = s.merge(old, st, (fr, b.idx))
                if n is None: return
                t[key] = n
            if (b, key) not in queued:
                queued.add((b, key)); heapq.heappush(heap, (idx[b], len(queued), s.steps, id(key), b, key))
            s.steps += 1
        put(fn.blocks[0], st)
        work = 0
        while heap:
            *_, b, key = heapq.heappop(heap)
            queued.discard((b, key))
            work += 1
            if work > 400000: raise AnalysisError('%s: too many property states' % fn.name)
            sts = [tab[b][key].copy()]
            inloop = inl or b in lb
            for ins in b.insts[b.nphi:-1]:
                nxt = []
                for x in sts: nxt += s.step(x, ins, fr, args, inloop)
                sts = nxt
            term = b.insts[-1]
            for x in sts:
                if term.op == 'ret':
                    v = s.val(x, term.ops[0], fr, args) if term.ops else None
                    for k in [k for k in x.env if k[0] == fr]: del x.env[k]
                    for bb in [bb for bb in x.mem if is_term(bb) and bb[0] == 'a' and bb[1] == fr]: del x.mem[bb]; x.zero.pop(bb, None)
                    rk = (x.q, x.const(v) if v is not None else None, s.c.key(x))
                    if v is not None: x.env[('ret', fr)] = v if rk[1] is None else rk[1]
                    old = rets.get(rk)
                    if old is None: rets[rk] = x
                    else:
                        n = s.merge(old, x, (fr, 'ret'))
                        if n is not None: rets[rk] = n
                elif term.op == 'br' and len(term.x) == 1:
                    s.go(x, b, term.x[0], fr, args, put, None)
                elif term.op == 'br':
                    c = s.val(x, term.ops[0], fr, args)
                    for t, truth in ((term.x[0], True), (term.x[1], False)):
                        y = x.copy()
                        if y.assume(c, truth, s.c.on_kw): s.go(y, b, t, fr, args, put, (c, truth))
                elif term.op == 'switch':
                    v = s.val(x, term.ops[0], fr, args); w = term.ops[0].ty.w if hasattr(term.ops[0], 'ty') else 32
                    rest = x.copy(); ok = True
                    for cv, t in term.x[1]:
                        y = x.copy(); c = fold('icmp', 'eq', w, v, cv)
                        if y.assume(c, True, s.c.on_kw): s.go(y, b, t, fr, args, put, (c, True))
                        if ok: ok = rest.assume(c, False, s.c.on_kw)
                    if ok: s.go(rest, b, term.x[0], fr, args, put, None)
                elif term.op == 'unreachable': pass
                else: raise AnalysisError('terminator %s' % term.op)
        s.maxq = max(s.maxq, max((len(t) for t in tab.values()), default=0))
        s.stack.pop()
        out = []
        for x in rets.values(): out.append((x, x.env.pop(('ret', fr), None)))
        return out

    def go(s, st, b, t, fr, args, put, cond):
        if cond is not None or True:
            r = s.c.edge(s, st, b, t, cond, fr)
            if r is False: return
        if t.nphi:
            new = {}
            for i in t.insts[:t.nphi]:
                for pb, v in i.x:
                    if pb is b: new[(fr, i.id)] = s.val(st, v, fr, args); break
            st.env.update(new)
        put(t, st)

    def merge(s, a, b, where):
        """a: what is known so far, b: new. -> merged state or None if b adds nothing"""
        if a.same(b): return None
        memo = {}; used = set(); out = St(a.q)
        pend = []
        def join(va, vb, slot):
            if va == vb: return va
            r = memo.get((va, vb))
            if r is None:
                r = va if is_term(va) and va[0] == 'phi' and va[1] == where and va not in used else ('phi', where, slot)
                if r in used: r = ('phi', where, slot)
                used.add(r); memo[(va, vb)] = r
                pend.append((r, va, vb))
            return r
        for k, va in a.env.items():
            vb = b.env.get(k)
            if vb is not None: out.env[k] = join(va, vb, k)
        for base, ca in a.mem.items():
            cb = b.mem.get(base)
            if cb is None: continue
            o = out.mem[base] = {}
            for off, (n, va) in ca.items():
                h = cb.get(off)
                if h and h[0] == n: o[off] = (n, join(va, h[1], (base, off)))
                elif base in b.zero and b.iszero(base, off, n): o[off] = (n, join(va, 0, (base, off)))
            if base in a.zero:
                for off, (n, vb) in cb.items():
                    if off not in ca and a.iszero(base, off, n): o[off] = (n, join(0, vb, (base, off)))
                if base in b.zero:
                    z = tuple(sorted(x for lo, hi in a.zero[base] for l2, h2 in b.zero[base] for x in ((max(lo, l2), min(hi, h2)),) if x[0] < x[1]))
                    if z: out.zero[base] = z
        new = {}
        for r, va, vb in pend:
            d = union(a.dom(va), b.dom(vb))
            if d is not None: new[r] = d
            if is_term(va) and is_term(vb):
                for l, da in a.cons.items():
                    if l != va and contains(l, va):
                        db = b.cons.get(subst(l, va, vb))
                        d = union(da, db) if db is not None else None
                        if d is not None: new[subst(l, va, r)] = d
        redef = {r for r, va, vb in pend}
        # a name from this very block that b carries in from an earlier round denotes another value there
        for l, da in a.cons.items():
            if l in redef: continue
            db = b.cons.get(l)
            if db is None: continue
            if any(contains(l, r) and (va != r or vb != r) for r, va, vb in pend): continue
            d = union(da, db)
            if d is not None: out.cons[l] = d
        out.cons.update(new)
        return None if out.same(a) else out

    # --- instructions
    def fresh(s, st, ins, fr, inloop, tag='o'):
        t = (tag, fr, ins.id)
        if inloop: st.forget(t)
        if ins.ty.k == 'int' and ins.ty.w <= 8: st.cons[t] = frozenset(range(1 << ins.ty.w))
        return t

    def step(s, st, ins, fr, args, inloop):
        op = ins.op; K = (fr, ins.id)
        V = lambda i: s.val(st, ins.ops[i], fr, args)
        if op == 'call': return s.call(st, ins, fr, args, inloop)
        if op == 'load':
            p = V(0); size = ins.ty.size if ins.ty.k != 'int' else (ins.ty.w + 7) // 8
            s.fr0 = fr; s.fr = fr; s.inloop = inloop
            r = s.c.load(s, st, ins, p, size)
            if r is not None:
                for x, v in r: x.env[K] = v
                return [x for x, _ in r]
            v = st.load(p, size)
            if v is None:
                b, o = pbase(p)
                if is_term(b) and b[0] == 'g':
                    r = s.gload(st, b[1], o, size, K, ins)
                    if r is not None: return r
                v = s.fresh(st, ins, fr, inloop)
                if isinstance(o, int): st.kill(b, o, size); st.mem.setdefault(b, {})[o] = (size, v)
            if v == 0 and ins.ty.k in ('float', 'double'): v = ('f', '0.0')
            if ins.ty.k == 'int' and ins.ty.w == 1: v = v if isinstance(v, int) else fold('trunc', 1, v)
            st.env[K] = v
        elif op == 'store':
            v = V(0); p = V(1); o = ins.ops[0]
            ty = o.ty if hasattr(o, 'ty') else None
            size = (o.w + 7) // 8 if isinstance(o, CInt) else (8 if isinstance(o, (CNull, GRef)) else (4 if isinstance(o, CFloat) and o.k == 'float' else 8 if isinstance(o, CFloat) else (ty.w + 7) // 8 if ty.k == 'int' else ty.size))
            if s.c.store(s, st, ins, p, size, v) is not True:
                b, off = pbase(p); g = ins.ops[1]
                if not isinstance(off, int) and own(b) and isinstance(g, Inst) and g.op == 'gep' and g.bnd:
                    # an element of an array: the rest of the object stays
                    b0, o0 = pbase(s.val(st, g.ops[0], fr, args))
                    if b0 == b and isinstance(o0, int): st.kill(b, o0 + g.bnd[0], g.bnd[1])
                    else: st.store(p, size, v)
                else: st.store(p, size, v)
        elif op == 'alloca':
            b = ('a', fr, ins.id); st.mem[b] = {}; st.zero.pop(b, None)
            st.env[K] = ('ptr', b, 0)
        elif op == 'gep':
            c, var = ins.x; off = c
            for o, sc in var:
                v = s.val(st, o, fr, args); w = o.ty.w if hasattr(o, 'ty') else 64
                if w < 64: v = fold('sext', w, 64, v)
                t = fold('bin', 'mul', 64, v, sc)
                if isinstance(t, int): t = sx(t, 64)
                off = off + t if isinstance(off, int) and isinstance(t, int) else fold('bin', 'add', 64, t, off & ((1 << 64) - 1) if isinstance(off, int) else off)
            st.env[K] = ptr(V(0), off)
        elif op == 'icmp':
            o = ins.ops[0]; w = o.w if isinstance(o, CInt) else o.ty.w if hasattr(o, 'ty') and o.ty.k == 'int' else 64
            a, b = V(0), V(1)
            if is_term(a) and a[0] == 'ptr' and a[2] == 0: a = a if own(a[1]) else a[1]
            if is_term(b) and b[0] == 'ptr' and b[2] == 0: b = b if own(b[1]) else b[1]
            st.env[K] = fold('icmp', ins.x, w, a, b)
        elif op in BIN: st.env[K] = fold('bin', op, ins.ty.w, V(0), V(1))
        elif op in ('zext', 'sext'): st.env[K] = fold(op, ins.ops[0].ty.w if hasattr(ins.ops[0], 'ty') else ins.ops[0].w, ins.ty.w, V(0))
        elif op == 'trunc':
            v = fold('trunc', ins.ty.w, V(0))
            if is_term(v) and v[0] == 'trunc' and ins.ty.w <= 8 and isinstance(st.dom(v), tuple): st.cons[v] = frozenset(range(1 << ins.ty.w))
            st.env[K] = v
        elif op in ('bitcast', 'freeze', 'addrspacecast'): st.env[K] = V(0)
        elif op == 'select':
            c = V(0); out = []
            for truth, i in ((True, 1), (False, 2)):
                y = st.copy()
                if y.assume(c, truth, s.c.on_kw):
                    y.env[K] = s.val(y, ins.ops[i], fr, args); out.append(y)
            return out
        elif op in ('extractvalue', 'insertvalue', 'vaarg', 'ptrtoint', 'inttoptr') or ins.ty.k in ('float', 'double', 'x86_fp80') or op in ('fptosi', 'fptoui', 'fcmp'):
            st.env[K] = (op, ins.x if isinstance(ins.x, str) else ins.ty.k + str(ins.ty.w)) + tuple(V(i) for i in range(len(ins.ops)))
        elif ins.ty.k == 'void': pass
        else: st.env[K] = s.fresh(st, ins, fr, inloop)
        return [st]

    def readonly(s, g):
        """constant, or private to the module and never written"""
        if g.const: return True
        k = ('ro', g.name)
        if k not in s.live:
            ok = g.linkage in ('internal', 'private') or str(g.linkage) in ('8', '9')
            base = lambda o: base(o.ops[0]) if isinstance(o, Inst) and o.op in ('gep', 'bitcast') else o
            for f in s.m.functions.values():
                for b in f.blocks:
                    for i in b.insts:
                        w = [i.ops[1]] if i.op == 'store' else list(i.ops[:1]) if i.op == 'call' and isinstance(i.x, GRef) and i.x.name.startswith(('llvm.mem', 'mem')) else list(i.ops) if i.op == 'call' else []
                        if any(isinstance(base(o), GRef) and base(o).name == g.name for o in w): ok = False
            s.live[k] = ok
        return s.live[k]

    def gload(s, st, name, off, size, K, ins):
        """load from a constant table; states are split by the index"""
        d = st.dom(off) if not isinstance(off, int) else frozenset((off,))
        if isinstance(d, tuple) or len(d) > 64: return None
        g = s.m.globals.get(name)
        if g is None or not s.readonly(g) or not isinstance(g.init, CAgg): return None
        tabl = s.live.get(('gv', name))
        if tabl is None:
            tabl = s.live[('gv', name)] = {(o, n): v.v if isinstance(v, CInt) else v for o, n, v in ir.agg_bytes(g.init)}
        out = []
        for o in sorted(d):
            o = sx(o, 64) if not isinstance(off, int) else o
            v = tabl.get((o, size))
            if v is None: return None
            y = st.copy()
            if not isinstance(off, int) and not y.assume(fold('icmp', 'eq', 64, off, o & ((1 << 64) - 1)), True): continue
            y.env[K] = s.val(y, v, None, None) if not isinstance(v, int) else v
            out.append(y)
        return out

    def call(s, st, ins, fr, args, inloop):
        K = (fr, ins.id)
        name = ins.x.name if isinstance(ins.x, GRef) else None
        a = [s.val(st, o, fr, args) for o in ins.ops]
        if name is None:
            f = s.val(st, ins.x, fr, args)
            if is_term(f) and f[0] == 'fn': name = f[1]
        s.inloop = inloop; s.fr = fr
        r = s.c.call(s, st, ins, name, a)
        if r is None: r = s.builtin(st, ins, name, a, fr, inloop)
        for x, v in r:
            if ins.ty.k != 'void': x.env[K] = v
        return [x for x, _ in r]

    def builtin(s, st, ins, name, a, fr, inloop):
        if name is None: raise AnalysisError('call through an unknown pointer at %s' % ins.loc())
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            d, src, n = a[:3]
            db, do = pbase(d); sb, so = pbase(src)
            if isinstance(n, int) and isinstance(do, int) and isinstance(so, int):
                cells = [(o - so, c) for o, c in (st.mem.get(sb) or {}).items() if so <= o and o + c[0] <= so + n]
                zs = [(max(l, so) - so + do, min(h, so + n) - so + do) for l, h in st.zero.get(sb, ()) if max(l, so) < min(h, so + n)]
                if not own(db): st.store(d, n, ('undef',))
                st.kill(db, do, n)
                for o, c in cells: st.mem.setdefault(db, {})[do + o] = c
                if own(db):
                    for lo, hi in zs: st.setzero(db, lo, hi - lo)
            else: st.kill(db)
            return [(st, d)]
        if name.startswith('llvm.memset') or name == 'memset':
            db, do = pbase(a[0]); n = a[2]
            st.kill(db, do, n)
            if a[1] == 0 and isinstance(n, int) and isinstance(do, int) and own(db): st.setzero(db, do, n)
            return [(st, a[0])]
        if name.startswith('llvm.'): return [(st, s.fresh(st, ins, fr, inloop) if ins.ty.k != 'void' else None)]
        f = s.m.functions.get(name)
        if f is not None and not f.decl:
            if len(s.stack) > 12: raise AnalysisError('calls nested too deeply')
            fr2 = fr + (ins.id,)
            s.loopblocks[fr2] = inloop; s.calls[fr2] = ins
            # byval arguments are copies
            if not s.c.memo: return s.run(f, a, st, fr2)
            key = (fr2, tuple(a), st.q, frozenset(st.env.items()), frozenset((b, o, v) for b, c in st.mem.items() for o, v in c.items()), frozenset(st.mem), frozenset(st.cons.items()), frozenset(st.zero.items()))
            r = s.done.get(key)
            if r is None: r = s.done[key] = s.run(f, a, st, fr2)
            return [(y.copy(), v) for y, v in r]
        # external function: may write through its pointer arguments
        if name not in PURE:
            for p in a:
                if is_term(p):
                    b, o = pbase(p)
                    if is_term(b) and b[0] == 'a': st.kill(b)
        return [(st, s.fresh(st, ins, fr, inloop) if ins.ty.k != 'void' else None)]


PURE = {'printf', 'fprintf', 'puts', 'putchar', 'strlen', 'strcmp', 'strncmp', 'memcmp', 'memchr', 'malloc', 'realloc', 'calloc', 'free', 'fopen', 'fclose', 'strdup', 'strchr', 'strrchr', 'fputs', 'fputc'}


def union(a, b):
    fa, fb = not isinstance(a, tuple), not isinstance(b, tuple)
    if fa and fb:
        u = a | b
        if len(u) <= LIM or len(u) <= 256 and (len(a) > LIM or len(b) > LIM): return u
        if all(isinstance(x, int) for x in u): return ('not', frozenset((0,)) - u) if 0 not in u else None
        return None
    if fa: a, b = b, a; fa, fb = fb, fa
    n = a[1] - b if fb else a[1] & b[1]
    return ('not', n) if n else None


def ops(i):
    r = list(i.ops)
    if i.op == 'call' and i.x is not None: r.append(i.x)
    if i.op == 'gep': r += [o for o, _ in i.x[1]]
    if i.op == 'phi': r = [v for _, v in i.x]
    return r


def _const2(s, leaf):
    d = s.cons.get(leaf)
    return next(iter(d)) if d is not None and not isinstance(d, tuple) and len(d) == 1 else None


St.const2 = _const2
