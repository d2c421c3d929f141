"""Abstract interpreter over LLVM IR.

Abstract state = linear-interval facts (dom.py) + region memory + opaque condition facts.
Loops are analysed by fixpoint (strided/interval generalisation of everything the body writes,
candidate invariants kept only if inductive); calls are inlined; externals are modelled.
Traces are partitioned by control path inside loop-free regions."""
import heapq, weakref
from . import ir
from .ir import AnalysisError, CInt, CNull, CUndef, CFloat, CAgg, GRef, CExpr, Arg, Inst
from .dom import *
from . import dom


# ------------------------------------------------------------------ values
class I:
    __slots__ = ('w', 'l')
    def __init__(s, w, l): s.w = w; s.l = l
    def __repr__(s): return 'i%d(%r)' % (s.w, s.l)
    def __eq__(s, o): return isinstance(o, I) and s.w == o.w and s.l == o.l
    def __hash__(s): return hash((s.w, s.l))


class P:
    __slots__ = ('r', 'o')
    def __init__(s, r, o): s.r = r; s.o = o
    def __repr__(s): return '&%s[%r]' % (s.r.name, s.o)
    def __eq__(s, o): return isinstance(o, P) and s.r is o.r and s.o == o.o
    def __hash__(s): return hash((id(s.r), s.o))


class NullT:
    def __repr__(s): return 'null'


NULL = NullT()


class Fn:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def __repr__(s): return 'fn:' + s.n
    def __eq__(s, o): return isinstance(o, Fn) and s.n == o.n
    def __hash__(s): return hash(s.n)


class F:
    """floating value: symbolic term"""
    __slots__ = ('k', '_h')
    def __init__(s, k): s.k = k; s._h = hash(k)
    def __repr__(s): return 'f%s' % (s.k,)
    def __eq__(s, o): return isinstance(o, F) and s._h == o._h and s.k == o.k
    def __hash__(s): return s._h


class B:
    """boolean (i1): condition tree"""
    __slots__ = ('k', '_h')
    def __init__(s, k): s.k = k; s._h = hash(k)
    def __repr__(s): return 'b%s' % (s.k,)
    def __eq__(s, o): return isinstance(o, B) and s._h == o._h and s.k == o.k
    def __hash__(s): return s._h


TRUE = B(('c', True))
FALSE = B(('c', False))


class Opq:
    """unknown value (not tracked)"""
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def __repr__(s): return '?%s' % (s.n,)
    def __eq__(s, o): return isinstance(o, Opq) and s.n == o.n
    def __hash__(s): return hash(('opq', s.n))


class Agg:
    __slots__ = ('e',)
    def __init__(s, e): s.e = e


def bnot(b):
    if b.k[0] == 'c': return FALSE if b.k[1] else TRUE
    if b.k[0] == 'not': return b.k[1]
    return B(('not', b))


# ------------------------------------------------------------------ memory
_rid = [0]


REGIONS = weakref.WeakValueDictionary()


class Region:
    __slots__ = ('id', 'name', 'size', 'bytes', 'init', 'nullable', 'const', 'lazy', 'tag', 'kind', '__weakref__')
    # size: Lin or None (unchecked); bytes: decompose integer cells into bytes; init: dict off -> value (bound cells)
    def __init__(s, name, size, bytes=False, init=None, nullable=False, const=False, kind='obj'):
        _rid[0] += 1
        s.id = _rid[0]; s.name = name; s.size = size; s.bytes = bytes; s.init = init or {}
        REGIONS[s.id] = s
        s.nullable = nullable; s.const = const; s.lazy = {}; s.tag = None; s.kind = kind
    def __repr__(s): return 'R:%s' % s.name


class SymW:
    __slots__ = ('off', 'size', 'val', 'id')
    n = 0
    def __init__(s, off, size, val):
        SymW.n += 1
        s.off = off; s.size = size; s.val = val; s.id = SymW.n


class Havoc:
    __slots__ = ('off', 'len', 'id')   # off None = whole region; len Lin or None
    def __init__(s, off=None, len=None):
        SymW.n += 1
        s.off = off; s.len = len; s.id = SymW.n


class RM:
    __slots__ = ('layers',)
    def __init__(s, layers): s.layers = layers


EMPTY_RM = RM(({},))


class State:
    __slots__ = ('bnd', 'ne', 'facts', 'conds', 'mem', 'ev', 'tr', 'gh', 'fset', 'note')

    def __init__(s):
        s.bnd = {}; s.ne = {}; s.facts = (); s.conds = {}; s.mem = {}; s.ev = None; s.tr = None; s.gh = {}
        s.fset = frozenset(); s.note = {}

    def fork(s):
        n = State.__new__(State)
        n.bnd = dict(s.bnd); n.ne = dict(s.ne); n.facts = s.facts; n.conds = dict(s.conds); n.mem = dict(s.mem)
        n.ev = s.ev; n.tr = s.tr; n.gh = dict(s.gh); n.fset = s.fset; n.note = dict(s.note)
        return n

    # --- intervals
    def abnd(s, a):
        b = s.bnd.get(a)
        if b is not None: return b
        x = ATOMS[a]
        return x.lo, x.hi

    def rng(s, lin):
        lo = hi = lin.c
        bnd = s.bnd
        for a, k in lin.t:
            b = bnd.get(a)
            if b is None:
                x = ATOMS[a]; l = x.lo; h = x.hi
            else: l, h = b
            if k > 0: lo += k * l; hi += k * h
            else: lo += k * h; hi += k * l
        return lo, hi

    def simp(s, lin):
        m = None
        for a, k in lin.t:
            b = s.bnd.get(a)
            if b is not None and b[0] == b[1]:
                if m is None: m = {}
                m[a] = Lin(b[0])
            elif b is None and ATOMS[a].lo == ATOMS[a].hi:
                if m is None: m = {}
                m[a] = Lin(ATOMS[a].lo)
        return lin.subst(m) if m else lin

    def prove(s, lin):
        """is lin >= 0 in every concretisation?"""
        lo, hi = s.rng(lin)
        if lo >= 0: return True
        if hi < 0: return False
        if not s.facts: return False
        if lin in s.fset: return True
        rel = s.relevant(lin)
        if not rel: return False
        l = s.simp(lin)
        rel = [s.simp(f) for f in rel]
        for f in rel:
            if s.rng(l - f)[0] >= 0: return True
        neg = l.scale(-1) - 1
        return fm_infeasible([(neg.c, dict(neg.t))] + [(f.c, dict(f.t)) for f in rel if f.t], s.abnd)

    def relevant(s, lin):
        """facts sharing unfixed atoms (transitively) with lin"""
        seen = set(a for a, _ in lin.t)
        todo = [f for f in s.facts]
        rel = []
        ch = True
        while ch and len(rel) < 60:
            ch = False
            rest = []
            for f in todo:
                if any(a in seen for a, _ in f.t):
                    rel.append(f); ch = True
                    for a, _ in f.t:
                        b = s.bnd.get(a)
                        if b is None or b[0] != b[1]: seen.add(a)
                else: rest.append(f)
            todo = rest
        return rel

    def infeasible(s):
        if not s.facts: return False
        return fm_infeasible([(f.c, dict(f.t)) for f in s.facts], s.abnd)

    def link(s, a, v):
        """a just became the constant v: keep small values and their bit slices consistent"""
        x = ATOMS[a]
        sl = SLICES.get(a)
        if sl is not None:
            for b, (lo, n) in sl.items():
                bv = (v >> lo) & ((1 << n) - 1)
                l, h = s.abnd(b)
                if bv < l or bv > h or bv in s.ne.get(b, ()): return False
                s.bnd[b] = (bv, bv)
        if x.key[0] == 'bits':
            sl = SLICES.get(x.key[1])
            if sl is None: return True
            base = x.key[1]
            val = mask = 0
            for b, (lo, n) in sl.items():
                l, h = s.abnd(b)
                if l == h: val |= l << lo; mask |= ((1 << n) - 1) << lo
            l, h = s.abnd(base)
            if l == h: return (l & mask) == val
            if mask == (1 << ATOMS[base].w) - 1:
                if val < l or val > h or val in s.ne.get(base, ()): return False
                s.bnd[base] = (val, val)
        return True

    def assume(s, lin):
        """add lin >= 0 (in place); False when trivially infeasible"""
        lo, hi = s.rng(lin)
        if lo >= 0: return True
        if hi < 0: return False
        if len(lin.t) == 1:
            a, k = lin.t[0]
            l, h = s.abnd(a)
            if k > 0:
                l = max(l, -(lin.c // k))           # k*a + c >= 0  -> a >= ceil(-c/k)
            else:
                h = min(h, lin.c // (-k))
            n = s.ne.get(a)
            if n:
                while l in n and l <= h: l += 1
                while h in n and l <= h: h -= 1
            if l > h: return False
            s.bnd[a] = (l, h)
            return s.link(a, l) if l == h else True
        # bound propagation to single atoms (cheap)
        if lin not in s.fset:
            s.facts = s.facts + (lin,)
            s.fset = s.fset | {lin}
        if len(lin.t) <= 4:
            for a, k in lin.t:
                # k*a >= -(rest) ; rest max
                rlo, rhi = s.rng(Lin(lin.c, tuple((x, y) for x, y in lin.t if x != a)))
                l, h = s.abnd(a)
                if k > 0:
                    nl = -(rhi // k)
                    if nl > l:
                        if nl > h: return False
                        s.bnd[a] = (nl, h)
                else:
                    nh = rhi // (-k)
                    if nh < h:
                        if nh < l: return False
                        s.bnd[a] = (l, nh)
        return True

    def assume_ne(s, lin):
        """lin != 0"""
        lin = s.simp(lin)
        if lin.isc(): return lin.c != 0
        if len(lin.t) == 1:
            a, k = lin.t[0]
            if lin.c % k: return True
            v = -lin.c // k
            l, h = s.abnd(a)
            if v < l or v > h: return True
            n = s.ne.get(a, frozenset()) | {v}
            s.ne[a] = n
            while l in n and l <= h: l += 1
            while h in n and l <= h: h -= 1
            if l > h: return False
            s.bnd[a] = (l, h)
            return s.link(a, l) if l == h else True
        lo, hi = s.rng(lin)
        if lo == 0 or (lo < 0 and hi == 0): pass
        if lo >= 0: return s.assume(lin - 1)
        if hi <= 0: return s.assume(lin.scale(-1) - 1)
        s.conds[('ne', lin)] = True
        if s.prove(lin): return s.assume(lin - 1)
        if s.prove(lin.scale(-1)): return s.assume(lin.scale(-1) - 1)
        return True

    def decide_eq(s, lin):
        """lin == 0 ? True/False/None"""
        lin = s.simp(lin)
        if lin.isc(): return lin.c == 0
        lo, hi = s.rng(lin)
        if lo > 0 or hi < 0: return False
        if len(lin.t) == 1:
            a, k = lin.t[0]
            if lin.c % k: return False
            if -lin.c // k in s.ne.get(a, ()): return False
        if ('ne', lin) in s.conds or ('ne', lin.scale(-1)) in s.conds: return False
        if s.facts:
            if s.prove(lin - 1) or s.prove(lin.scale(-1) - 1): return False
            if s.prove(lin) and s.prove(lin.scale(-1)): return True
        return None

    def events(s):
        out = []
        e = s.ev
        while e:
            out.append(e[0]); e = e[1]
        return out[::-1]

    def trace(s):
        out = []
        e = s.tr
        while e:
            out.append(e[0]); e = e[1]
        return out[::-1]

    def log(s, e): s.ev = (e, s.ev)


class Obl:
    __slots__ = ('kind', 'loc', 'ok', 'detail', 'trace', 'fn', 'op')


class Engine:
    def __init__(self, mod, models=None, record=True, max_states=4000, merge=None):
        self.m = mod
        self.models = {}
        from . import models as M
        self.models.update(M.MODELS)
        if models: self.models.update(models)
        self.rec = True
        self.obls = {}       # (kind, loc, detailkey) -> [n_ok, n_fail, example]
        self.globals = {}
        self.max_states = max_states
        self.merge_at = merge        # callable(fn, block, items)->bool : join the pending items?
        self.inline_stack = []
        self.contracts = {}          # function name -> model
        self.templates = []          # user invariant templates for loops: f(engine, st)->[Lin]
        self.on_back = None
        self.on_loop = None
        self.ctx = None
        self.uid = 0
        self.fns_seen = set()
        self.loops_seen = set()
        self.insts_seen = set()
        self.max_depth = 40
        self.entry_join = 12
        self.loop_hint = None
        self.summary_region = None
        self.no_ret_join = set()    # functions whose outcomes stay separate paths
        self.undefined_is_fresh = True
        self.nsw_check = False
        self.ret_join = 16

    # -------------------------------------------------- obligations
    def oblig(self, kind, inst, st, ok, detail=''):
        if not self.rec: return
        loc = inst.loc() if inst is not None else '?'
        key = (kind, loc, inst.id if inst is not None else 0)
        e = self.obls.get(key)
        if e is None:
            e = self.obls[key] = [0, 0, None, inst.blk.fn.name if inst is not None else '']
        if ok: e[0] += 1
        else:
            e[1] += 1
            if e[2] is None:
                e[2] = (detail() if callable(detail) else detail, st.trace()[-14:], self.ctx, st)

    # -------------------------------------------------- values
    def const(self, v):
        if isinstance(v, CInt):
            if v.w == 1: return TRUE if v.v else FALSE
            x = v.v
            return I(v.w, Lin(x))
        if isinstance(v, CNull): return NULL
        if isinstance(v, GRef):
            if v.name in self.m.functions: return Fn(v.name)
            return P(self.global_region(v.name), Lin(v.off))
        if isinstance(v, CFloat): return F(('c', v.v))
        if isinstance(v, CUndef): return self.undef(v.ty)
        if isinstance(v, CExpr):
            if v.op == 'ptrtoint':
                p = self.const(v.args[0])
                return self.ptrtoint(p, 64)
            if v.op == 'inttoptr': return Opq(('inttoptr', 0))
            return Opq(('cexpr', v.op))
        if isinstance(v, CAgg): return Opq(('agg',))
        raise AnalysisError('const %r' % v)

    def undef(self, ty):
        if ty.k == 'int':
            if ty.w == 1: return B(('key', ('undef', dom._fresh[0], fresh('u', 1).id)))
            return I(ty.w, A(fresh('undef', ty.w)))
        if ty.k in ('float', 'double'): return F(('fresh', fresh('undef', 64).id))
        return Opq(('undef', fresh('u', 1).id))

    def fresh_of(self, ty, name):
        if ty.k == 'int':
            if ty.w == 1: return B(('key', (name, fresh(name, 1).id)))
            return I(ty.w, A(fresh(name, ty.w)))
        if ty.k in ('float', 'double', 'x86_fp80'): return F(('fresh', name, fresh(name, 64).id))
        if ty.k == 'ptr':
            return P(Region('*' + name, None, nullable=True), ZERO)
        if ty.k == 'void': return None
        return Opq((name, fresh(name, 1).id))

    def global_region(self, name):
        r = self.globals.get(name)
        if r is None:
            g = self.m.globals.get(name)
            if g is None: raise AnalysisError('unknown global ' + name)
            r = Region('@' + name, Lin(g.ty.size) if g.ty.size else None, const=g.const)
            r.kind = 'global'
            r.tag = g
            if g.const and g.init is not None:
                if isinstance(g.init, CAgg):
                    if g.ty.size <= 65536:
                        for off, sz, v in ir.agg_bytes(g.init):
                            if isinstance(v, (CInt, CFloat, CNull, GRef)):
                                r.init[off] = (sz, self.const(v) if not (isinstance(v, CInt) and v.w == 1) else I(8, Lin(v.v)))
                else:
                    r.init[0] = (g.ty.size, self.const(g.init))
            self.globals[name] = r
        return r

    def ptrtoint(self, p, w):
        if p is NULL: return I(w, ZERO)
        if isinstance(p, P):
            a = atom(('addr', p.r.id), 1, (1 << 64) - 1, 64)
            return I(w, A(a) + p.o)
        return I(w, A(fresh('pti', w)))

    # interpret as unsigned in [0, 2^w)
    def U(self, st, v):
        l = st.simp(v.l)
        M = 1 << v.w
        lo, hi = st.rng(l)
        if lo >= 0 and hi < M: return l
        # constant shift
        if lo // M == hi // M: return l - (lo // M) * M
        if hi < M and st.prove(l): return l
        if lo >= 0 and st.prove(Lin(M - 1) - l): return l
        if hi < 2 * M and lo >= 0 and st.prove(l - M): return l - M
        if lo >= -M and hi < M and lo < 0:
            if st.prove(l.scale(-1) - 1): return l + M
            if st.prove(l): return l
        if lo < 0 and st.prove(l) and st.prove(Lin(M - 1) - l): return l
        return extract(l, v.w, 0, v.w)

    def S(self, st, v):
        """signed interpretation or None when the sign is undetermined"""
        l = st.simp(v.l)
        M = 1 << v.w
        H = M >> 1
        lo, hi = st.rng(l)
        if lo >= -H and hi < H: return l
        k = (lo + H) // M
        if k == (hi + H) // M: return l - k * M
        if (lo >= -H or st.prove(l + H)) and (hi < H or st.prove(Lin(H - 1) - l)): return l
        if lo >= 0 and hi < M:
            if st.prove(Lin(H - 1) - l): return l
            if st.prove(l - H): return l - M
        u = self.U(st, v)
        if u != l:
            lo, hi = st.rng(u)
            if hi < H or st.prove(Lin(H - 1) - u): return u
            if lo >= H or st.prove(u - H): return u - M
        return None

    def sext(self, st, v, w):
        s = self.S(st, v)
        if s is not None: return I(w, s)
        l = extract(st.simp(v.l), v.w, 0, v.w)
        a = atom(('sext', v.w, l), -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1, w)
        return I(w, A(a))

    # -------------------------------------------------- conditions
    def decide(self, st, b):
        k = b.k
        t = k[0]
        if t == 'c': return k[1]
        if t == 'not':
            r = self.decide(st, k[1])
            return None if r is None else not r
        if t == 'and':
            a = self.decide(st, k[1]); c = self.decide(st, k[2])
            if a is False or c is False: return False
            return True if a and c else None
        if t == 'or':
            a = self.decide(st, k[1]); c = self.decide(st, k[2])
            if a or c: return True
            return False if a is False and c is False else None
        if t == 'cmp':
            pred, x, y = k[1], k[2], k[3]
            if pred == 'eq':
                return st.decide_eq(self.U(st, x) - self.U(st, y))
            if pred == 'ult':
                d = self.U(st, y) - self.U(st, x) - 1
            else:
                sx = self.S(st, x); sy = self.S(st, y)
                if sx is None or sy is None:
                    # sign split against known-range other side
                    H = 1 << (x.w - 1)
                    if sx is None and sy is not None:
                        # x in [-H,H): decide only by bounds of sy
                        lo, hi = st.rng(sy)
                        if hi <= -H: return False
                    return st.conds.get(k)
                d = sy - sx - 1
            if st.prove(d): return True
            if st.prove(d.scale(-1) - 1): return False
            return None
        if t == 'peq':
            return self.decide_peq(st, k[1], k[2])
        if t == 'pult':
            return self.decide(st, B(('plin', k[2].o - k[1].o - 1)))
        if t == 'plin':
            d = k[1]
            if st.prove(d): return True
            if st.prove(d.scale(-1) - 1): return False
            return None
        if t == 'fcmp':
            return self.decide_fcmp(st, k)
        if t == 'key':
            return st.conds.get(k[1])
        raise AnalysisError('cond ' + str(k))

    def decide_fcmp(self, st, k):
        r = st.conds.get(k)
        if r is not None: return r
        pred, x, y = k[1], k[2], k[3]
        if x.k[0] == 'c' and y.k[0] == 'c':
            a, b = x.k[1], y.k[1]
            un = a != a or b != b
            p = pred[1:]
            if pred == 'ord': return not un
            if pred == 'uno': return un
            v = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}.get(p)
            if v is None: return None
            return (pred[0] == 'u') if un else v
        return None

    def nullstate(self, st, p):
        """True null / False nonnull / None unknown"""
        if p is NULL: return True
        if isinstance(p, Fn): return False
        if isinstance(p, P):
            if not p.r.nullable: return False
            r = st.conds.get(('null', p.r.id))
            return r
        return None

    def decide_peq(self, st, x, y):
        if x is NULL or y is NULL:
            o = y if x is NULL else x
            return self.nullstate(st, o) if not isinstance(o, Opq) else st.conds.get(('peqn', o))
        if isinstance(x, P) and isinstance(y, P):
            if x.r is y.r: return st.decide_eq(x.o - y.o)
            if not x.r.nullable and not y.r.nullable and x.r.kind != 'ext' and y.r.kind != 'ext': return False
            nx = self.nullstate(st, x); ny = self.nullstate(st, y)
            if nx is True and ny is True: return True
            if (nx is True and ny is False) or (nx is False and ny is True): return False
            return None
        if isinstance(x, Fn) and isinstance(y, Fn): return x == y
        return None

    def assume(self, st, b, val):
        """-> list of states (st may be mutated/reused)"""
        k = b.k
        t = k[0]
        if t == 'c': return [st] if k[1] == val else []
        if t == 'not': return self.assume(st, k[1], not val)
        d = self.decide(st, b)
        if d is not None: return [st] if d == val else []
        if (t == 'and' and val) or (t == 'or' and not val):
            out = []
            for s in self.assume(st, k[1], val): out += self.assume(s, k[2], val)
            return out
        if t in ('and', 'or'):
            # and false: not a, or (a and not b) ; or true: a or (not a and b)
            s2 = st.fork()
            out = self.assume(st, k[1], val)
            for s in self.assume(s2, k[1], not val): out += self.assume(s, k[2], val)
            return out
        if t == 'cmp':
            pred, x, y = k[1], k[2], k[3]
            if pred == 'eq':
                d = self.U(st, x) - self.U(st, y)
                if val:
                    return [st] if st.assume(d) and st.assume(d.scale(-1)) else []
                return [st] if st.assume_ne(d) else []
            if pred == 'ult':
                d = self.U(st, y) - self.U(st, x) - 1
                if not val: d = d.scale(-1) - 1
                return [st] if st.assume(d) else []
            # signed
            out = []
            for s1, sx in self.sign_cases(st, x):
                for s2, sy in self.sign_cases(s1, y):
                    d = sy - sx - 1
                    if not val: d = d.scale(-1) - 1
                    if s2.assume(d) : out.append(s2)
            return out
        if t == 'plin':
            d = k[1]
            if not val: d = d.scale(-1) - 1
            return [st] if st.assume(d) else []
        if t == 'pult':
            return self.assume(st, B(('plin', k[2].o - k[1].o - 1)), val)
        if t == 'peq':
            x, y = k[1], k[2]
            if x is NULL: x, y = y, x
            if y is NULL:
                if isinstance(x, P):
                    st.conds[('null', x.r.id)] = val
                elif isinstance(x, Opq):
                    st.conds[('peqn', x)] = val
                return [st]
            if isinstance(x, P) and isinstance(y, P) and x.r is y.r:
                d = x.o - y.o
                if val: return [st] if st.assume(d) and st.assume(d.scale(-1)) else []
                return [st] if st.assume_ne(d) else []
            return [st]
        if t == 'fcmp':
            st.conds[k] = val
            return [st]
        if t == 'key':
            st.conds[k[1]] = val
            return [st]
        raise AnalysisError('assume ' + str(k))

    def sign_cases(self, st, v):
        s = self.S(st, v)
        if s is not None: return [(st, s)]
        l = self.U(st, v)
        H = 1 << (v.w - 1)
        out = []
        s2 = st.fork()
        if st.assume(Lin(H - 1) - l): out.append((st, l))
        if s2.assume(l - H): out.append((s2, l - 2 * H))
        return out

    def unsext(self, l):
        a = l.single()
        while a is not None and a.key[0] == 'mod': a = a.key[2].single()
        if a is not None and a.key[0] == 'sext' and (l.single().key[0] == 'sext' or l.single().key[1] >= a.key[1]): return a.key[1], a.key[2]
        return None

    def icmp(self, st, pred, x, y):
        if isinstance(x, B) or isinstance(y, B):
            x = self.b2i(st, x, 1); y = self.b2i(st, y, 1)
        if isinstance(x, I) and isinstance(y, I):
            # comparison of a boolean-valued integer with 0/1
            if pred in ('eq', 'ne') and y.l.isc():
                a = x.l.single()
                if a is not None and a.key[0] == 'cond' and y.l.c in (0, 1):
                    c = a.key[1]
                    want = (y.l.c == 1) == (pred == 'eq')
                    return c if want else bnot(c)
            if pred in ('eq', 'ne') and y.l.isc() and y.l.c == 0:
                # a ^ b == 0  <=>  a == b
                a = x.l.single()
                if a is not None and a.key[0] == 'xor' and len(a.key) == 4 and isinstance(a.key[2], Lin):
                    x, y = I(a.key[1], a.key[2]), I(a.key[1], a.key[3])
            if pred in ('eq', 'ne') and x.w > 8:
                # sign extensions of the same width are equal iff the narrow values are
                a, b = self.unsext(x.l), self.unsext(y.l)
                if a is not None and b is not None and a[0] == b[0]: x, y = I(a[0], a[1]), I(b[0], b[1])
            if pred == 'eq': r = B(('cmp', 'eq', x, y))
            elif pred == 'ne': return bnot(self.norm(st, B(('cmp', 'eq', x, y))))
            elif pred == 'ult': r = B(('cmp', 'ult', x, y))
            elif pred == 'ugt': r = B(('cmp', 'ult', y, x))
            elif pred == 'uge': return bnot(self.norm(st, B(('cmp', 'ult', x, y))))
            elif pred == 'ule': return bnot(self.norm(st, B(('cmp', 'ult', y, x))))
            elif pred == 'slt': r = B(('cmp', 'slt', x, y))
            elif pred == 'sgt': r = B(('cmp', 'slt', y, x))
            elif pred == 'sge': return bnot(self.norm(st, B(('cmp', 'slt', x, y))))
            elif pred == 'sle': return bnot(self.norm(st, B(('cmp', 'slt', y, x))))
            return self.norm(st, r)
        # pointers
        if pred in ('eq', 'ne'):
            if isinstance(x, Opq) and isinstance(y, Opq) or not isinstance(x, (P, NullT, Fn, Opq)) or not isinstance(y, (P, NullT, Fn, Opq)):
                r = B(('key', ('pe', x, y)))
            else:
                r = B(('peq', x, y))
            return bnot(r) if pred == 'ne' else r
        if isinstance(x, P) and isinstance(y, P) and x.r is y.r:
            if pred == 'ult': r = B(('plin', y.o - x.o - 1))
            elif pred == 'ugt': r = B(('plin', x.o - y.o - 1))
            elif pred == 'uge': r = B(('plin', x.o - y.o))
            elif pred == 'ule': r = B(('plin', y.o - x.o))
            else: r = B(('key', ('pcmp', pred, x, y)))
            return self.norm(st, r)
        return B(('key', ('pcmp', pred, x, y)))

    def norm(self, st, b):
        """resolve against interval-only info when constant (keeps terms small)"""
        k = b.k
        if k[0] == 'cmp' and k[2].l.isc() and k[3].l.isc():
            d = self.decide(st, b)
            if d is not None: return TRUE if d else FALSE
        return b

    def b2i(self, st, v, w):
        if isinstance(v, I): return v
        d = v.k[1] if v.k[0] == 'c' else None
        if d is not None: return I(w, Lin(1 if d else 0))
        neg = v.k[0] == 'not'
        base = v.k[1] if neg else v
        a = atom(('cond', base), 0, 1, 1)
        st_ = A(a)
        return I(w, Lin(1) - st_ if neg else st_)

    def as_bool(self, st, v):
        if isinstance(v, B): return v
        l = v.l
        if l.isc(): return TRUE if l.c & 1 else FALSE
        a = l.single()
        if a is not None and a.key[0] == 'cond': return a.key[1]
        if l.c == 1 and len(l.t) == 1 and l.t[0][1] == -1 and ATOMS[l.t[0][0]].key[0] == 'cond':
            return bnot(ATOMS[l.t[0][0]].key[1])
        lo, hi = st.rng(l)
        x = l if lo >= 0 and hi <= 1 else extract(l, max(v.w, 1), 0, 1)
        if x.isc(): return TRUE if x.c else FALSE
        return bnot(B(('cmp', 'eq', I(8, x), I(8, ZERO))))

    def cond_int_simplify(self, st, lin):
        """replace decided 'cond' atoms by constants"""
        m = None
        for a, k in lin.t:
            at = ATOMS[a]
            if at.key[0] == 'cond':
                d = self.decide(st, at.key[1])
                if d is not None:
                    if m is None: m = {}
                    m[a] = Lin(1 if d else 0)
        return lin.subst(m) if m else lin

    # -------------------------------------------------- memory
    def rm(self, st, r):
        x = st.mem.get(r)
        if x is None:
            x = EMPTY_RM
        return x

    def write(self, st, r, off, size, val):
        off = st.simp(off)
        rm = self.rm(st, r)
        ls = rm.layers
        if off.isc():
            top = ls[-1]
            if isinstance(top, dict):
                d = dict(top)
                o = off.c
                old = d.get(o)
                if old is None or old[0] != size:
                    for k in list(d):
                        if k < o + size and o < k + d[k][0]:
                            self.split_cell(d, k, o, size)
                d[o] = (size, val)
                st.mem[r] = RM(ls[:-1] + (d,))
            else:
                st.mem[r] = RM(ls + ({off.c: (size, val)},))
        else:
            st.mem[r] = RM(ls + (SymW(off, size, val),))

    def split_cell(self, d, k, o, size):
        sz, v = d.pop(k)
        if isinstance(v, I):
            for i in range(sz):
                if not (o <= k + i < o + size):
                    d[k + i] = (1, I(8, extract(v.l, sz * 8, 8 * i, 8)))

    def havoc(self, st, r, off=None, length=None):
        rm = self.rm(st, r)
        ls = rm.layers
        h = Havoc(off, length)
        if off is None: st.mem[r] = RM((h, {}))
        else: st.mem[r] = RM(ls + (h, {}))

    def disjoint(self, st, o1, s1, o2, s2):
        """o,s Lin offset / int-or-Lin size"""
        d = o2 - o1
        a = d - s1          # o2 >= o1+s1
        if isinstance(s1, Lin): a = d - s1
        lo, hi = st.rng(a)
        if lo >= 0: return True
        b = d.scale(-1) - s2
        lo2, hi2 = st.rng(b)
        if lo2 >= 0: return True
        if hi < 0 and hi2 < 0: return False
        if hi >= 0 and st.prove(a): return True
        if hi2 >= 0 and st.prove(b): return True
        return None

    def cell(self, st, r, off, size, ty):
        """value of the cell"""
        off = st.simp(off)
        return self._cell(st, r, off, size, ty, self.rm(st, r).layers, None)

    def _cell(self, st, r, off, size, ty, ls, upto):
        n = len(ls) if upto is None else upto
        i = n - 1
        while i >= 0:
            L = ls[i]
            if isinstance(L, dict):
                if off.isc():
                    o = off.c
                    h = L.get(o)
                    if h is not None and h[0] == size: return self.coerce(st, h[1], ty, size)
                    if L:
                        for k, (sz, v) in L.items():
                            if k < o + size and o < k + sz:
                                return self.piece(st, r, off, size, ty, ls, i)
                elif L:
                    for k, (sz, v) in L.items():
                        dj = self.disjoint(st, off, size, Lin(k), sz)
                        if dj is not True:
                            d = st.decide_eq(off - k)
                            if d and sz == size: return self.coerce(st, v, ty, size)
                            d = off - k
                            return self.unknown(r, off, size, ty, ('amb', id(L) if False else tuple(sorted(L))[0], len(ls), i, SymW.n))
            elif isinstance(L, SymW):
                d = st.simp(off - L.off)
                if d.isc():
                    if d.c == 0 and L.size == size: return self.coerce(st, L.val, ty, size)
                    if d.c >= L.size or d.c + size <= 0: i -= 1; continue
                    if 0 <= d.c and d.c + size <= L.size and isinstance(L.val, I) and ty.k == 'int':
                        return self.mkint(ty.w, extract(L.val.l, L.size * 8, 8 * d.c, 8 * size))
                    return self.piece(st, r, off, size, ty, ls, i)
                dj = self.disjoint(st, off, size, L.off, L.size)
                if dj is True: i -= 1; continue
                if L.size == size and st.decide_eq(off - L.off): return self.coerce(st, L.val, ty, size)
                return self.unknown(r, off, size, ty, ('sw', L.id))
            else:
                if L.off is not None:
                    if L.len is not None and self.disjoint(st, off, size, L.off, L.len) is True:
                        i -= 1; continue
                    if L.len is None and st.prove(L.off - off - size):
                        i -= 1; continue
                return self.initial(st, r, off, size, ty, L.id)
            i -= 1
        return self.initial(st, r, off, size, ty, 0)

    def mkint(self, w, lin):
        if w == 1: return self.as_bool(None, I(8, lin))
        return I(w, lin)

    def piece(self, st, r, off, size, ty, ls, i):
        if size > 1 and (ty.k in ('int', 'float', 'double')):
            l = ZERO
            for b in range(size):
                v = self._cell(st, r, off + b, 1, _I8, ls, i + 1)
                if not isinstance(v, I): return self.unknown(r, off, size, ty, ('pc', SymW.n))
                l = l + v.l.scale(1 << (8 * b))
            if ty.k != 'int': return F(('bits', size, l))
            return self.mkint(ty.w, l)
        if size == 1 and ty.k == 'int':
            L = ls[i]
            if isinstance(L, dict):
                o = off.c
                for k, (sz, v) in L.items():
                    if k <= o < k + sz:
                        if isinstance(v, I): return I(8, extract(v.l, sz * 8, 8 * (o - k), 8))
                        if isinstance(v, F) and sz in (4, 8):
                            return I(8, extract(self.fbits(v, sz).l, sz * 8, 8 * (o - k), 8))
                        return self.unknown(r, off, size, ty, ('pv', i, len(ls), SymW.n))
        return self.unknown(r, off, size, ty, ('pc2', SymW.n))

    def fbits(self, v, size):
        k = v.k
        if k[0] == 'bits' and k[1] == size: return I(size * 8, k[2])
        if k[0] == 'c':
            import struct
            try:
                x = struct.unpack('<Q' if size == 8 else '<I', struct.pack('<d' if size == 8 else '<f', k[1]))[0]
                return I(size * 8, Lin(x))
            except (OverflowError, struct.error): pass
        a = atom(('fbits', size, k), 0, (1 << (8 * size)) - 1, 8 * size)
        return I(8 * size, A(a))

    def coerce(self, st, v, ty, size):
        if ty is None: return v
        if ty.k == 'int':
            if isinstance(v, I):
                if ty.w == 1: return self.as_bool(st, v)
                return v if v.w == ty.w else I(ty.w, v.l)
            if isinstance(v, B):
                return v if ty.w == 1 else self.b2i(st, v, ty.w)
            if isinstance(v, F): return self.fbits(v, size)
            if v is NULL: return I(ty.w, ZERO)
            if isinstance(v, P): return self.ptrtoint(v, ty.w)
            return I(ty.w, A(atom(('opq', v, ty.w), 0, (1 << ty.w) - 1, ty.w)))
        if ty.k in ('float', 'double'):
            if isinstance(v, F): return v
            if isinstance(v, I):
                a = v.l.single()
                if a is not None and a.key[0] == 'fbits' and a.key[1] == size: return F(a.key[2])
                if v.l.isc():
                    import struct
                    x = v.l.c & ((1 << (8 * size)) - 1)
                    return F(('c', struct.unpack('<d' if size == 8 else '<f', struct.pack('<Q' if size == 8 else '<I', x))[0]))
                return F(('bits', size, extract(v.l, size * 8, 0, size * 8)))
            return F(('opq', v))
        if ty.k == 'ptr':
            if isinstance(v, I):
                if v.l.isc() and v.l.c == 0: return NULL
                # address atom + offset
                return Opq(('itp', v.l))
            return v
        return v

    def unknown(self, r, off, size, ty, tag):
        key = ('in', r.name, r.id, off, size, tag)
        if ty.k == 'int':
            if ty.w == 1: return self.as_bool(None, I(8, A(atom(key, 0, 255, 8))))
            return I(ty.w, A(atom(key, 0, (1 << (8 * size)) - 1, 8 * size)))
        if ty.k in ('float', 'double'): return F(('in', key))
        if ty.k == 'ptr':
            q = r.lazy.get(key)
            if q is None:
                q = r.lazy[key] = Region('*%s[%r]' % (r.name, off), None, nullable=True, kind='ext')
            return P(q, ZERO)
        return Opq(key)

    def initial(self, st, r, off, size, ty, ver):
        if ver == 0 and r.init and off.isc():
            h = r.init.get(off.c)
            if h is not None and h[0] == size: return self.coerce(st, h[1], ty, size)
            if r.const and h is None and r.kind == 'global':
                pass
        if ver == 0 and r.kind == 'zero':
            if ty.k == 'int': return I(ty.w, ZERO) if ty.w > 1 else FALSE
            if ty.k == 'ptr': return NULL
            return F(('c', 0.0))
        if r.bytes and ty.k == 'int' and size > 1:
            l = ZERO
            for b in range(size):
                l = l + A(atom(('in', r.name, r.id, off + b, 1, ver), 0, 255, 8)).scale(1 << (8 * b))
            return I(ty.w, l)
        if r.bytes and ty.k in ('float', 'double'):
            l = ZERO
            for b in range(size):
                l = l + A(atom(('in', r.name, r.id, off + b, 1, ver), 0, 255, 8)).scale(1 << (8 * b))
            return F(('bits', size, l))
        if r.kind == 'global' and r.const and not off.isc() and ty.k == 'int' and r.init and r.tag is not None:
            # symbolic index into a constant table: interval of its elements
            vs = [v.l.c for (o, (sz, v)) in r.init.items() if sz == size and isinstance(v, I)]
            if vs and len(vs) == len(r.init) :
                lo, hi = min(vs), max(vs)
                if len(vs) * size < r.tag.ty.size: lo = min(lo, 0)
                if ty.w > 1:
                    return I(ty.w, A(atom(('in', r.name, r.id, off, size, ver), lo, hi, 8 * size)))
        return self.unknown(r, off, size, ty, ver)

    def check_access(self, st, inst, p, size, what):
        """obligation: p..p+size inside its region"""
        if p is NULL:
            self.oblig('null', inst, st, False, '%s through a null pointer' % what)
            return False
        if not isinstance(p, P):
            self.oblig('ptr', inst, st, False, lambda: '%s through an untracked pointer %r' % (what, p))
            return False
        if p.r.nullable:
            ns = self.nullstate(st, p)
            self.oblig('null', inst, st, ns is False, lambda: '%s through %r which may be null' % (what, p))
            if ns is True: return False
        if p.r.kind == 'freed' or ('freed', p.r.id) in st.conds:
            self.oblig('uaf', inst, st, False, lambda: '%s of freed %r' % (what, p))
        if p.r.size is not None:
            sz = size if isinstance(size, Lin) else Lin(size)
            # the check: 0 <= off && off+size <= region size (size 0 always ok)
            if sz.isc() and sz.c == 0:
                ok = True
            else:
                ok = st.prove(p.o) and st.prove(p.r.size - p.o - sz)
            self.oblig('mem', inst, st, ok, lambda: '%s of %s byte(s) at offset %r of %s (size %r) not provably inside' % (what, sz, st.simp(p.o), p.r.name, p.r.size))
        if what in ('store', 'write') and p.r.const:
            self.oblig('const', inst, st, False, lambda: 'store to read-only %r' % p.r)
        return True

    # -------------------------------------------------- execution
    def run_function(self, fn, args, st):
        """-> list of (state, retval)"""
        if len(self.inline_stack) > self.max_depth:
            raise AnalysisError('inlining too deep: ' + ' > '.join(self.inline_stack[-6:]))
        if self.inline_stack.count(fn.name) >= 1 and fn.name not in ('',):
            raise AnalysisError('recursive call to %s needs a contract' % fn.name)
        self.fns_seen.add(fn.name)
        self.inline_stack.append(fn.name)
        try:
            ir.loops(fn)
            env = {a: v for a, v in zip(fn.args, args)}
            r = self.run_region(fn, fn.blocks[0], [(st, env, None)], None)
            return r['ret']
        finally:
            self.inline_stack.pop()

    def run_region(self, fn, start, items, loop):
        """items: (state, env, prevblock) arriving at start.
        loop: Loop whose body we execute once (start == header) or None"""
        order = fn._rpo
        lps = fn._loops
        pending = {start: items}
        heap = [(order[start], start)]
        inq = {start}
        back = []; exits = []; rets = []
        first = True
        hm = {order[start]: start}
        heap = [order[start]]
        byidx = {order[start]: start}
        while heap:
            i = heapq.heappop(heap)
            b = byidx[i]
            its = pending.pop(b, None)
            if not its: continue
            total = len(its) + sum(len(x) for x in pending.values()) + len(exits) + len(rets) + len(back)
            if total > self.max_states:
                raise AnalysisError('state explosion in %s (%d states)' % (fn.name, total))
            inner = lps.get(b)
            if inner is not None and not (loop is not None and b is loop.header and first):
                lr = self.run_loop(fn, inner, its)
                rets += lr['ret']
                outs = lr['exit']
                first = False
                for (s, e, frm, to) in outs:
                    self.route(fn, loop, s, e, frm, to, pending, heap, byidx, order, back, exits)
                continue
            first = False
            if len(its) > 1 and self.merge_at is not None and b.nphi + len(b.pred) > 1 or (len(its) > 1 and self.merge_at is not None and loop is not None):
                its = self.merge_at(self, fn, b, its)
            for (s, e, prev) in its:
                for (s2, e2, to) in self.run_block(fn, b, s, e, prev, rets):
                    self.route(fn, loop, s2, e2, b, to, pending, heap, byidx, order, back, exits)
        return {'back': back, 'exit': exits, 'ret': rets}

    def route(self, fn, loop, s, e, frm, to, pending, heap, byidx, order, back, exits):
        if loop is not None:
            if to is loop.header:
                back.append((s, e, frm)); return
            if to not in loop.blocks:
                exits.append((s, e, frm, to)); return
        l = pending.get(to)
        if l is None:
            pending[to] = [(s, e, frm)]
            i = order[to]
            byidx[i] = to
            heapq.heappush(heap, i)
        else:
            l.append((s, e, frm))

    def phis(self, b, s, e, prev):
        if b.nphi == 0 or prev is None: return e
        vals = []
        for ins in b.insts[:b.nphi]:
            for (pb, v) in ins.x:
                if pb is prev:
                    vals.append((ins, self.val(e, v)))
                    break
            else:
                raise AnalysisError('phi without incoming')
        e = dict(e)
        for ins, v in vals: e[ins] = v
        return e

    def val(self, e, v):
        if isinstance(v, (Inst, Arg)):
            r = e.get(v)
            if r is None:
                raise AnalysisError('value %r not available in %s' % (v, v.blk.fn.name if isinstance(v, Inst) else ''))
            return r
        return self.const(v)

    def run_block(self, fn, b, s, e, prev, rets, nophi=False):
        if prev is not None and not nophi: e = self.phis(b, s, e, prev)
        else: e = dict(e)
        cur = [(s, e)]
        out = []
        for ins in b.insts[b.nphi:]:
            op = ins.op
            if op == 'br':
                for (s, e) in cur:
                    if not ins.ops:
                        out.append((s, e, ins.x[0])); continue
                    c = self.as_bool(s, self.val(e, ins.ops[0]))
                    d = self.decide(s, c)
                    if d is not None:
                        out.append((s, e, ins.x[0] if d else ins.x[1])); continue
                    s2 = s.fork()
                    t = self.assume(s, c, True)
                    f = self.assume(s2, c, False)
                    if ins.line:
                        for x in t: x.tr = ((ins.file, ins.line, 'T'), x.tr)
                        for x in f: x.tr = ((ins.file, ins.line, 'F'), x.tr)
                    tf = len(t) + len(f) > 1
                    for x in t:
                        if not (tf and len(f) == 0 and False): out.append((x, e if x is s else dict(e), ins.x[0]))
                    for x in f: out.append((x, dict(e), ins.x[1]))
                return out
            if op == 'switch':
                for (s, e) in cur:
                    v = self.val(e, ins.ops[0])
                    default, cases = ins.x
                    out += self.do_switch(ins, s, e, v, default, cases)
                return out
            if op == 'ret':
                for (s, e) in cur:
                    rets.append((s, self.val(e, ins.ops[0]) if ins.ops else None))
                return out
            if op == 'unreachable':
                return out
            if op == 'call':
                nxt = []
                for (s, e) in cur:
                    for (s2, r) in self.call(fn, ins, s, e):
                        e2 = dict(e)
                        if r is not None: e2[ins] = r
                        nxt.append((s2, e2))
                cur = nxt
                if not cur: return out
                continue
            if op == 'select':
                nxt = []
                for (s, e) in cur:
                    c = self.as_bool(s, self.val(e, ins.ops[0]))
                    a = self.val(e, ins.ops[1]); bb = self.val(e, ins.ops[2])
                    d = self.decide(s, c)
                    if d is not None:
                        e[ins] = a if d else bb
                        nxt.append((s, e)); continue
                    s2 = s.fork()
                    for x in self.assume(s, c, True):
                        e2 = dict(e); e2[ins] = a; nxt.append((x, e2))
                    for x in self.assume(s2, c, False):
                        e2 = dict(e); e2[ins] = bb; nxt.append((x, e2))
                cur = nxt
                continue
            for (s, e) in cur:
                e[ins] = self.inst(ins, s, e)
        return out

    def join_rets(self, fn, ins, rets):
        """many outcomes of one call: join those returning the same constant / the rest"""
        from . import loops as LP
        groups = {}
        for s, r in rets:
            k = None
            if isinstance(r, I):
                l = s.simp(r.l)
                k = l.c if l.isc() else None
            elif r is not None: k = repr(r)
            k = (k, tuple(id(x) for x in s.events() if isinstance(x, dict)))
            groups.setdefault(k, []).append((s, {'ret': r} if r is not None else {}, None))
        res = []
        for k, items in groups.items():
            out = LP.join_items(self, fn, ins.blk, items, nophi=True) if len(items) > 1 else items
            res += [(s, e.get('ret') if ins.ty.k != 'void' else None) for s, e, _ in out]
        return res

    def do_switch(self, ins, s, e, v, default, cases):
        out = []
        l = self.U(s, v)
        l = self.cond_int_simplify(s, l)
        if l.isc():
            for cv, blk in cases:
                if cv == l.c: return [(s, e, blk)]
            return [(s, e, default)]
        rest = s.fork()
        ok = True
        for cv, blk in cases:
            s2 = s.fork()
            d = l - cv
            q = s2.decide_eq(d)
            if q is False: continue
            if s2.assume(d) and s2.assume(d.scale(-1)):
                if ins.line: s2.tr = ((ins.file, ins.line, 'case %d' % cv), s2.tr)
                out.append((s2, dict(e), blk))
            if q is True:
                return out
            if ok and not rest.assume_ne(d): ok = False
        if ok:
            if ins.line: rest.tr = ((ins.file, ins.line, 'default'), rest.tr)
            out.append((rest, dict(e), default))
        return out

    def call(self, fn, ins, s, e):
        args = [self.val(e, a) for a in ins.ops]
        callee = ins.x
        f = self.const(callee) if not isinstance(callee, (Inst, Arg)) else self.val(e, callee)
        if isinstance(f, Fn):
            n = f.n
            if n in self.contracts:
                return self.contracts[n](self, s, ins, args)
            tf = self.m.functions.get(n)
            if tf is not None and not tf.decl:
                r = self.run_function(tf, args, s)
                if len(r) > self.ret_join and tf not in self.no_ret_join: r = self.join_rets(fn, ins, r)
                return r
            mdl = self.models.get(n)
            if mdl is None and n.startswith('llvm.'):
                mdl = self.models.get('.'.join(n.split('.')[:2]))
            if mdl is None:
                mdl = self.models.get('*')
            if mdl is None:
                raise AnalysisError('no model for external function %s (%s)' % (n, ins.loc()))
            return mdl(self, s, ins, args)
        mdl = self.models.get('indirect')
        if mdl is None: raise AnalysisError('indirect call at ' + ins.loc())
        return mdl(self, s, ins, args, f)

    def inst(self, ins, st, e):
        op = ins.op
        o = ins.ops
        self.insts_seen.add(ins.id)
        if op == 'load':
            p = self.val(e, o[0])
            size = ins.ty.size if ins.ty.k != 'int' else (ins.ty.w + 7) // 8
            if not self.check_access(st, ins, p, size, 'load'):
                return self.fresh_of(ins.ty, 'badload')
            return self.load(st, ins, p, size, ins.ty)
        if op == 'store':
            v = self.val(e, o[0]); p = self.val(e, o[1])
            size = _vsize(v, o[0])
            if not self.check_access(st, ins, p, size, 'store'): return None
            self.store(st, ins, p, size, v)
            return None
        if op == 'gep':
            p = self.val(e, o[0])
            c, var = ins.x
            off = Lin(c)
            for vo, sc in var:
                iv = self.val(e, vo)
                if not isinstance(iv, I): iv = self.b2i(st, iv, 64)
                s = self.S(st, iv)
                if s is None:
                    s = self.U(st, iv)     # 64-bit index of unknown sign: treat as unsigned (huge => out of range)
                    if iv.w < 64: s = A(atom(('sext', iv.w, extract(iv.l, iv.w, 0, iv.w)), -(1 << (iv.w - 1)), (1 << (iv.w - 1)) - 1, 64))
                off = off + s.scale(sc)
            if isinstance(p, P): return P(p.r, p.o + off)
            if p is NULL:
                return NULL if off.isc() and off.c == 0 else Opq(('nullgep', off))
            return Opq(('gep', p, off))
        if op in _BIN:
            x = self.val(e, o[0]); y = self.val(e, o[1])
            return self.binop(ins, st, op, x, y)
        if op == 'icmp':
            return self.icmp(st, ins.x, self.val(e, o[0]), self.val(e, o[1]))
        if op == 'fcmp':
            x = self.val(e, o[0]); y = self.val(e, o[1])
            p = ins.x
            neg = False
            # normalise: only oeq, olt, ole + their negations and ord/uno
            M = {'ogt': ('olt', 1), 'oge': ('ole', 1), 'ult': ('ole', 3), 'ule': ('olt', 3), 'ugt': ('ole', 2), 'uge': ('olt', 2),
                 'une': ('oeq', 2), 'uno': ('ord', 2)}
            if p in M:
                q, f = M[p]
                if p in ('ogt', 'oge'): x, y = y, x
                elif p in ('ult', 'ule'): x, y = y, x; neg = True   # ult x y == !(x >= y) == !(y <= x)
                else: neg = True
                p = q
            r = B(('fcmp', p, x, y))
            d = self.decide_fcmp(st, r.k)
            if d is not None: r = TRUE if d else FALSE
            return bnot(r) if neg else r
        if op == 'zext':
            v = self.val(e, o[0])
            if isinstance(v, B): return self.b2i(st, v, ins.ty.w)
            return I(ins.ty.w, self.U(st, v))
        if op == 'sext':
            v = self.val(e, o[0])
            if isinstance(v, B):
                return I(ins.ty.w, self.b2i(st, v, 8).l.scale(-1))
            return self.sext(st, v, ins.ty.w)
        if op == 'trunc':
            v = self.val(e, o[0])
            if isinstance(v, B): return v
            if ins.ty.w == 1: return self.as_bool(st, v)
            return self.trunc(st, v, ins.ty.w)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x = self.val(e, o[0]); y = self.val(e, o[1])
            return F((op, x.k, y.k))
        if op == 'fneg': return F(('fneg', self.val(e, o[0]).k))
        if op in ('fpext', 'fptrunc'):
            x = self.val(e, o[0])
            if x.k[0] == 'c' and op == 'fpext': return x
            return F((op, ins.ty.k, x.k))
        if op in ('sitofp', 'uitofp'):
            x = self.val(e, o[0])
            if isinstance(x, B): x = self.b2i(st, x, 8)
            if op == 'sitofp':
                l = self.S(st, x)
                if l is None: l = self.sext(st, x, x.w + 1).l
            else: l = self.U(st, x)
            l = st.simp(l)
            if l.isc() and abs(l.c) < 1 << 53: return F(('c', float(l.c)))
            return F(('itof', ins.ty.k, l))
        if op in ('fptosi', 'fptoui'):
            x = self.val(e, o[0])
            w = ins.ty.w
            lo, hi = self.frange(st, x)
            tlo, thi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
            ok = lo is not None and hi is not None and lo > tlo - 1 and hi < thi + 1
            self.oblig('fptoint', ins, st, ok, lambda: 'float to %d-bit integer conversion of a value not known to be in range' % w)
            if x.k[0] == 'c' and ok: return I(w, Lin(int(x.k[1])))
            if x.k[0] == 'itof':
                # exact only for small ints; keep symbolic
                pass
            a = atom((op, w, x.k), max(tlo, int(lo)) if ok else tlo, min(thi, int(hi)) if ok else thi, w)
            return I(w, A(a))
        if op == 'alloca':
            r = Region('%s.%s' % (ins.blk.fn.name, ins.name or ins.line), Lin(ins.x.size), kind='local')
            r.tag = ins
            return P(r, ZERO)
        if op == 'ptrtoint':
            return self.ptrtoint(self.val(e, o[0]), ins.ty.w)
        if op == 'inttoptr':
            v = self.val(e, o[0])
            return Opq(('itp', v.l))
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return self.coerce(st, self.val(e, o[0]), ins.ty, ins.ty.size)
        if op == 'extractvalue':
            v = self.val(e, o[0])
            if isinstance(v, Agg):
                for i in ins.x: v = v.e[i]
                return v
            return self.fresh_of(ins.ty, 'extractvalue')
        if op == 'insertvalue':
            v = self.val(e, o[0]); x = self.val(e, o[1])
            ty = ins.ty
            els = list(v.e) if isinstance(v, Agg) else [self.fresh_of(t, 'iv') for t in ty.elts]
            if len(ins.x) == 1: els[ins.x[0]] = x
            return Agg(tuple(els))
        raise AnalysisError('instruction %s at %s not supported' % (op, ins.loc()))

    def frange(self, st, x):
        """float interval from path conditions"""
        k = x.k
        if k[0] == 'c':
            v = k[1]
            return (v, v) if v == v and abs(v) != float('inf') else (None, None)
        if k[0] == 'itof':
            lo, hi = st.rng(k[2])
            return float(lo), float(hi)
        if k[0] == 'fpext':
            r = self.frange(st, F(k[2]))
            if r[0] is not None or r[1] is not None: return r
        if k[0] != 'fpext':
            ext = F(('fpext', 'double', k))
            if any(c[0] == 'fcmp' and (c[2] == ext or c[3] == ext) for c in st.conds):
                r = self.frange1(st, ext)
                if r[0] is not None and r[1] is not None: return r
        return self.frange1(st, x)

    def frange1(self, st, x):
        lo = hi = None
        for c, v in st.conds.items():
            if c[0] != 'fcmp': continue
            a, b = c[2], c[3]
            if v and c[1] in ('olt', 'ole', 'oeq'):
                if a == x and b.k[0] == 'c': hi = b.k[1] if hi is None else min(hi, b.k[1])
                if b == x and a.k[0] == 'c': lo = a.k[1] if lo is None else max(lo, a.k[1])
                if a == x and b.k[0] == 'c' and c[1] == 'olt' and hi == b.k[1]:
                    import math
                    hi = math.nextafter(hi, -math.inf)
                if b == x and a.k[0] == 'c' and c[1] == 'olt' and lo == a.k[1]:
                    import math
                    lo = math.nextafter(lo, math.inf)
        # negated comparisons give bounds once NaN is excluded (some ordered comparison with x is true)
        notnan = lo is not None or hi is not None
        for c, v in st.conds.items():
            if c[0] == 'fcmp' and c[1] == 'ord' and v and (c[2] == x or c[3] == x): notnan = True
            if c[0] == 'fcmp' and c[1] == 'oeq' and v and c[2] == x and c[3] == x: notnan = True
        if notnan:
            import math
            for c, v in st.conds.items():
                if c[0] != 'fcmp' or v: continue
                a, b = c[2], c[3]
                if c[1] == 'olt':     # not a<b: a>=b
                    if a == x and b.k[0] == 'c': lo = b.k[1] if lo is None else max(lo, b.k[1])
                    if b == x and a.k[0] == 'c': hi = a.k[1] if hi is None else min(hi, a.k[1])
                elif c[1] == 'ole':   # not a<=b: a>b
                    if a == x and b.k[0] == 'c':
                        t = math.nextafter(b.k[1], math.inf); lo = t if lo is None else max(lo, t)
                    if b == x and a.k[0] == 'c':
                        t = math.nextafter(a.k[1], -math.inf); hi = t if hi is None else min(hi, t)
        return lo, hi

    def trunc(self, st, v, w):
        l = st.simp(v.l)
        lo, hi = st.rng(l)
        if 0 <= lo and hi < (1 << w): return I(w, l)
        H = 1 << (w - 1)
        if lo >= -H and hi < H: return I(w, l)
        if st.facts:
            if (lo >= 0 or (hi > 0 and st.prove(l))) and (hi < (1 << w) or st.prove(Lin((1 << w) - 1) - l)): return I(w, l)
        return I(w, extract(l, v.w, 0, w))

    def load(self, st, ins, p, size, ty):
        v = self.cell(st, p.r, p.o, size, ty)
        if isinstance(v, I) and ty.k == 'int':
            v = I(v.w, self.cond_int_simplify(st, v.l))
        h = self.models.get('@load')
        if h is not None: h(self, st, ins, p, size, v)
        return v

    def store(self, st, ins, p, size, v):
        if p.r.bytes and isinstance(v, F): v = self.fbits(v, size)
        h = self.models.get('@store')
        if h is not None: h(self, st, ins, p, size, v)
        self.write(st, p.r, p.o, size, v)

    def binop(self, ins, st, op, x, y):
        w = ins.ty.w
        if w == 1:
            xb = self.as_bool(st, x) ; yb = self.as_bool(st, y)
            if op == 'and':
                if xb.k[0] == 'c': return yb if xb.k[1] else FALSE
                if yb.k[0] == 'c': return xb if yb.k[1] else FALSE
                return B(('and', xb, yb))
            if op == 'or':
                if xb.k[0] == 'c': return TRUE if xb.k[1] else yb
                if yb.k[0] == 'c': return TRUE if yb.k[1] else xb
                return B(('or', xb, yb))
            if op == 'xor':
                if yb.k[0] == 'c': return bnot(xb) if yb.k[1] else xb
                if xb.k[0] == 'c': return bnot(yb) if xb.k[1] else yb
                return B(('key', ('xor', xb, yb)))
            raise AnalysisError('i1 ' + op)
        if not isinstance(x, I): x = self.coerce(st, x, ins.ty, w // 8)
        if not isinstance(y, I): y = self.coerce(st, y, ins.ty, w // 8)
        a = st.simp(x.l); b = st.simp(y.l)
        M = 1 << w
        if op == 'add' or op == 'sub':
            if self.nsw_check and ins.x[0]:
                sa = self.S(st, x); sb = self.S(st, y)
                ok = False
                if sa is not None and sb is not None:
                    r = sa + sb if op == 'add' else sa - sb
                    ok = st.prove(r + (M >> 1)) and st.prove(Lin((M >> 1) - 1) - r)
                self.oblig('nsw', ins, st, ok, lambda: 'signed overflow possible in %s of %r, %r' % (op, a, b))
            r = a + b if op == 'add' else a - b
            # keep small: constants modulo
            if r.isc(): r = Lin(r.c % M) if not (-(M >> 1) <= r.c < 0) else r
            elif r.c >= M: r = Lin(r.c % M, r.t)
            elif r.c >= M >> 1:
                # x + (2^w - k)  ==  x - k
                r = Lin(r.c - M, r.t)
            return I(w, r)
        if op == 'mul':
            if self.nsw_check and ins.x[0]:
                sa = self.S(st, x); sb = self.S(st, y)
                ok = False
                if sa is not None and sb is not None:
                    l1, h1 = st.rng(sa); l2, h2 = st.rng(sb)
                    ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                    ok = min(ps) >= -(M >> 1) and max(ps) < M >> 1
                self.oblig('nsw', ins, st, ok, lambda: 'signed overflow possible in mul of %r, %r' % (a, b))
            if b.isc() or a.isc():
                if a.isc(): a, b = b, a
                k = b.c % M
                if k >= M >> 1: k -= M
                return I(w, a.scale(k))
            return I(w, self.term('mul', w, *sorted((self.U(st, x), self.U(st, y)), key=repr)))
        if op == 'shl':
            sh = self.U(st, y)
            self.shift_ok(ins, st, sh, w)
            sh = st.simp(sh)
            if sh.isc():
                if sh.c >= w: return I(w, A(fresh('shl', w)))
                low = self.trunc(st, I(w, self.U(st, x)), w - sh.c).l if sh.c else a
                lo, hi = st.rng(a)
                if lo >= 0 and (hi << sh.c) < M: low = a
                return I(w, low.scale(1 << sh.c))
            ua = st.simp(self.U(st, x))
            lo, hi = st.rng(sh)
            al, ah = st.rng(ua)
            if ua.isc() and ua.c == 1 and lo >= 0 and hi < w:
                t = atom(('pow2', sh), 1 << lo, 1 << hi, w)
                return I(w, A(t))
            return I(w, self.term('shl', w, ua, sh, rng=(al << lo, ah << hi) if 0 <= lo and hi < w and (ah << hi) < M else None))
        if op == 'lshr':
            sh = st.simp(self.U(st, y))
            self.shift_ok(ins, st, sh, w)
            u = self.U(st, x)
            if sh.isc():
                if sh.c >= w: return I(w, A(fresh('lshr', w)))
                if sh.c == 0: return I(w, u)
                lo, hi = st.rng(u)
                r = extract(u, w, sh.c, w - sh.c)
                return I(w, self.tighten(st, r, lo >> sh.c, hi >> sh.c))
            lo, hi = st.rng(u); sl, shh = st.rng(sh)
            return I(w, self.term('lshr', w, u, sh, rng=(0, hi >> max(sl, 0))))
        if op == 'ashr':
            sh = st.simp(self.U(st, y))
            self.shift_ok(ins, st, sh, w)
            s = self.S(st, x)
            if s is not None and sh.isc() and sh.c < w:
                lo, hi = st.rng(s)
                if lo >= 0:
                    r = extract(s, w, sh.c, w - sh.c)
                    return I(w, r)
                if s.isc(): return I(w, Lin(s.c >> sh.c))
                return I(w, self.term('ashr', w, s, sh, rng=(lo >> sh.c, hi >> sh.c)))
            return I(w, self.term('ashr', w, extract(a, w, 0, w), sh, rng=(-(M >> 1), (M >> 1) - 1)))
        if op == 'and':
            if a.isc(): a, b, x, y = b, a, y, x
            if b.isc():
                m = b.c % M
                r = ZERO
                if m == 0: return I(w, ZERO)
                u = self.U(st, x)
                lo, hi = st.rng(u)
                if hi <= m and (m & (m + 1)) == 0: return I(w, u)
                if (m & (m + 1)) == 0 and 0 <= lo and hi < 4 * (m + 1):
                    return I(w, self.divrel(st, u, m + 1, 'urem', extract(u, w, 0, m.bit_length())))
                i = 0; runs = 0
                while m >> i:
                    if not (m >> i) & 1: i += 1; continue
                    j = i
                    while (m >> j) & 1: j += 1
                    runs += 1
                    if runs > 8: break
                    r = r + extract(u, w, i, j - i).scale(1 << i)
                    i = j
                if runs <= 8: return I(w, r)
                return I(w, self.term('and', w, u, Lin(m), rng=(0, min(m, hi))))
            ua, ub = self.U(st, x), self.U(st, y)
            h = min(st.rng(ua)[1], st.rng(ub)[1])
            return I(w, self.term('and', w, *sorted((ua, ub), key=repr), rng=(0, h)))
        if op == 'or':
            ua, ub = self.U(st, x), self.U(st, y)
            if ua.isc() and ua.c == 0: return I(w, ub)
            if ub.isc() and ub.c == 0: return I(w, ua)
            if ua == ub: return I(w, ua)
            if ua.isc() and ub.isc(): return I(w, Lin(ua.c | ub.c))
            if disjoint_masks(ua, ub): return I(w, ua + ub)
            la, ha = st.rng(ua); lb, hb = st.rng(ub)
            return I(w, self.term('or', w, *sorted((ua, ub), key=repr), rng=(max(la, lb), (1 << max(ha.bit_length(), hb.bit_length())) - 1)))
        if op == 'xor':
            ua, ub = self.U(st, x), self.U(st, y)
            if ua.isc() and ub.isc(): return I(w, Lin(ua.c ^ ub.c))
            if ua.isc(): ua, ub = ub, ua
            if ub.isc():
                if ub.c == M - 1: return I(w, Lin(M - 1) - ua)
                if ub.c == 0: return I(w, ua)
                if ub.c == 1 and st.rng(ua)[1] <= 1: return I(w, Lin(1) - ua)
            if ua == ub: return I(w, ZERO)
            ha = st.rng(ua)[1]; hb = st.rng(ub)[1]
            return I(w, self.term('xor', w, *sorted((ua, ub), key=repr), rng=(0, (1 << max(ha.bit_length(), hb.bit_length())) - 1)))
        if op in ('udiv', 'urem'):
            ua, ub = self.U(st, x), self.U(st, y)
            self.oblig('div0', ins, st, st.decide_eq(ub) is False, lambda: 'divisor %r not provably nonzero' % ub)
            la, ha = st.rng(ua); lb, hb = st.rng(ub)
            if ub.isc() and ub.c > 0:
                c = ub.c
                if c & (c - 1) == 0:
                    n = c.bit_length() - 1
                    if n == 0: return I(w, ua if op == 'udiv' else ZERO)
                    r = extract(ua, w, n, w - n) if op == 'udiv' else extract(ua, w, 0, n)
                    # keep relation ua = c*q + r
                    return I(w, self.divrel(st, ua, c, op, r))
                if ua.isc(): return I(w, Lin(ua.c // c if op == 'udiv' else ua.c % c))
                return I(w, self.divrel(st, ua, c, op, None))
            if op == 'udiv': return I(w, self.term('udiv', w, ua, ub, rng=(0, ha)))
            return I(w, self.term('urem', w, ua, ub, rng=(0, min(ha, max(hb - 1, 0)))))
        if op in ('sdiv', 'srem'):
            sa, sb = self.S(st, x), self.S(st, y)
            nz = st.decide_eq(self.U(st, y))
            self.oblig('div0', ins, st, nz is False, lambda: 'divisor %r not provably nonzero' % b)
            # INT_MIN / -1
            u = self.U(st, x); v = self.U(st, y)
            ok = st.decide_eq(v - (M - 1)) is False or st.decide_eq(u - (M >> 1)) is False
            self.oblig('divov', ins, st, ok, lambda: 'signed division may overflow (most negative value / -1)')
            if sa is not None and sb is not None and sb.isc() and sb.c > 0 and st.prove(sa):
                return self.binop_div(st, w, sa, sb.c, 'udiv' if op == 'sdiv' else 'urem')
            if sa is not None and sb is not None and sa.isc() and sb.isc() and sb.c:
                q = abs(sa.c) // abs(sb.c); q = q if (sa.c < 0) == (sb.c < 0) else -q
                return I(w, Lin(q if op == 'sdiv' else sa.c - q * sb.c))
            ka = sa if sa is not None else self.sext(st, x, w + 1).l
            kb = sb if sb is not None else self.sext(st, y, w + 1).l
            return I(w, self.term(op, w, ka, kb, rng=(-(M >> 1), (M >> 1) - 1)))
        raise AnalysisError('binop ' + op)

    def binop_div(self, st, w, ua, c, op):
        if c & (c - 1) == 0:
            n = c.bit_length() - 1
            if n == 0: return I(w, ua if op == 'udiv' else ZERO)
            r = extract(ua, w, n, w - n) if op == 'udiv' else extract(ua, w, 0, n)
            return I(w, self.divrel(st, ua, c, op, r))
        return I(w, self.divrel(st, ua, c, op, None))

    def divrel(self, st, ua, c, op, r):
        """quotient/remainder by a constant, with the linear relation ua = c*q + rem recorded"""
        lo, hi = st.rng(ua)
        if r is not None and (r.isc() or not r.t or _is_plain(r, ua)): return r
        if hi < c: return ZERO if op == 'udiv' else ua
        q = atom(('udivc', ua, c), 0, (1 << 64), 64)
        if q.id not in st.bnd:
            st.bnd[q.id] = (lo // c, hi // c)
        Q = A(q)
        rem = ua - Q.scale(c)
        st.assume(rem); st.assume(Lin(c - 1) - rem)
        return Q if op == 'udiv' else rem

    def tighten(self, st, lin, lo, hi):
        a = lin.single()
        if a is not None:
            l, h = st.abnd(a.id)
            if lo > l or hi < h:
                st.bnd[a.id] = (max(l, lo), min(h, hi))
        return lin

    def shift_ok(self, ins, st, sh, w):
        ok = st.prove(Lin(w - 1) - sh)
        self.oblig('shift', ins, st, ok, lambda: 'shift amount %r not provably < %d' % (sh, w))

    def term(self, op, w, *args, rng=None):
        lo, hi = rng if rng is not None else (0, (1 << w) - 1)
        return A(atom((op, w) + args, lo, hi, w))

    # -------------------------------------------------- loops
    def run_loop(self, fn, loop, items):
        self.loops_seen.add((fn.name, loop.header.idx))
        if self.loop_hint is not None:
            r = self.loop_hint(self, fn, loop, items)
            if r is not None: return r
        res = {'exit': [], 'ret': []}
        if len(items) > self.entry_join:
            from . import loops as LP
            left = []
            for (s, e, prev) in items if len(items) <= 80 else ():
                # loops with a decided trip count do not need a joined entry state
                r = LP.unroll(self, fn, loop, loop.header, s, self.phis(loop.header, s, e, prev))
                if r is None: left.append((s, e, prev))
                else: res['exit'] += r['exit']; res['ret'] += r['ret']
            if len(items) <= 80: items = left
            if len(items) > self.entry_join: items = self.join_items(fn, loop.header, items)
        for (s, e, prev) in items:
            r = self.run_loop1(fn, loop, s, e, prev)
            res['exit'] += r['exit']; res['ret'] += r['ret']
        return res

    def run_loop1(self, fn, loop, s, e, prev):
        h = loop.header
        # body never returns to header on first pass? (e.g. breaks immediately)
        e0 = self.phis(h, s, e, prev)
        rec = self.rec
        phis = h.insts[:h.nphi]
        from . import loops as LP
        return LP.fixpoint(self, fn, loop, s, e0, phis)

    def join_items(self, fn, b, items):
        from . import loops as LP
        return LP.join_items(self, fn, b, items)


def _is_plain(r, ua):
    return all(ATOMS[a].key[0] != 'mod' and not (ATOMS[a].key[0] == 'bits' and ATOMS[ATOMS[a].key[1]].key[0] == 'mod') for a, _ in r.t)


_BIN = frozenset(['add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'])


class _T8:
    k = 'int'; w = 8; size = 1


_I8 = _T8()


def _vsize(v, o):
    if isinstance(o, CInt): return (o.w + 7) // 8
    if isinstance(o, (Inst, Arg)):
        t = o.ty
        return (t.w + 7) // 8 if t.k == 'int' else t.size
    if isinstance(o, CFloat): return 8 if o.k == 'double' else 4
    if isinstance(o, CUndef): return o.ty.size
    return 8
