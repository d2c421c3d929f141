"""Walks over bytecode: a loop that moves a position through a program must agree with the instruction lengths of the VM.

A loop-carried position x and (optionally) a nesting counter are taken from the loop summary.  For each opcode byte and each
operand type the loop body is interpreted again from the generic loop state with `bytecode[x]` fixed; every path back to the
loop head must have moved x by exactly the length of that instruction (inline switch tables count, they are not code)."""
from .engine import *
from .dom import *
from .vm import T1
from . import vmspec as S
from .ir import AnalysisError

TYP = S.Check.TYPES; SZ = S.Check.SZ
TOFF = {'OP_CONST_CHECK': 3, 'OP_CONST_WRITE': 1, 'OP_RANGE_CHECK': 1, 'OP_ENUM_CHECK': 1}


class Walk:
    collect = False

    def __init__(w, en, bc, ops, li, pos, depth=None):
        """pos: atom (position in region bc) ; depth: atom of the nesting counter or None"""
        w.en = en; w.bc = bc; w.ops = ops; w.li = li; w.pos = pos; w.depth = depth
        w.n = 0; w.viol = []; w._stops = None
        w.base = 1
        if depth is not None:
            v0 = li.init[depth.id]
            w.base = li.entry.simp(en.U(li.entry, v0)).c if isinstance(v0, I) and li.entry.simp(en.U(li.entry, v0)).isc() else 1
        w.name = {}
        for n, v in ops.items(): w.name.setdefault(v, n)

    def byte(w, st, off):
        return w.en.U(st, w.en.cell(st, w.bc, st.simp(off), 1, T1))

    def num(w, st, off, n):
        r = ZERO
        for i in range(n): r = r + w.byte(st, off + i).scale(1 << (8 * i))
        return st.simp(r)

    def newval(w, bs, m, atom):
        v = m.get(atom.id)
        if isinstance(v, P): return bs.simp(v.o)
        if isinstance(v, I): return bs.simp(w.en.U(bs, v))
        return None

    def ref(w, k, st):
        """[(state, length or None when the instruction is invalid, description)] refining st by operand types"""
        x = A(w.pos)
        n = w.name.get(k)
        if n is None: return [(st, Lin(1), 'unassigned opcode')]
        if n in S.LEN and n not in ('OP_SWITCH', 'OP_SWITCH_TABLE'): return [(st, Lin(S.LEN[n]), n)]
        if n == 'OP_SWITCH':
            t = x + 7 + w.num(st, x + 3, 4)
            return [(st, t + 6 + w.num(st, t, 2).scale(12) - x, n)]
        if n == 'OP_SWITCH_TABLE':
            t = x + 7 + w.num(st, x + 3, 4)
            return [(st, t + 20 + (w.num(st, t + 8, 8) - w.num(st, t, 8) + 1).scale(4) - x, n)]
        if n == 'OP_TRANS_POLY': return [(st, w.byte(st, x + 1).scale(8) + 2, n)]
        if n == 'OP_TRANS_SPLINE': return [(st, w.byte(st, x + 1).scale(16) + 2, n)]
        if n not in TOFF: return [(st, Lin(1), n)]        # not an instruction of the VM (host query code)
        o = TOFF[n]; out = []; rest = st.fork(); alive = True
        t = w.byte(st, x + o)
        for ty in TYP[n]:
            v = w.ops['OP_IO_' + ty]
            s2 = st.fork()
            if s2.assume(t - v) and s2.assume(Lin(v) - t) and not s2.infeasible():
                sz = SZ[ty]
                l = {'OP_CONST_CHECK': Lin(4 + sz), 'OP_CONST_WRITE': Lin(2 + sz), 'OP_RANGE_CHECK': Lin(2 + 2 * sz)}.get(n)
                if l is None: l = w.num(s2, x + 2, 2).scale(sz) + 4
                out.append((s2, l, '%s of %s' % (n, ty)))
            if alive and (not rest.assume_ne(t - v) or rest.infeasible()): alive = False
        if alive: out.append((rest, None, '%s with an invalid type' % n))
        return out

    def need(w, ok, msg, st):
        w.n += 1
        if not ok:
            t = st.trace()
            loc = '%s:%s' % (t[-1][0], t[-1][1]) if t else w.li.fn.name
            w.viol.append((msg() if callable(msg) else msg, loc, [(y[0], y[1], y[2]) for y in t[-8:]]))
        return ok

    def rows(w, ks=range(256), jumps=()):
        en = w.en; li = w.li; x = A(w.pos)
        save = en.rec, en.on_back
        w.inner = []
        en.rec = False; en.on_back = w.inner.append if w.collect else None
        back_of = li.values
        try:
            for k in ks:
                st = li.head.fork()
                b = w.byte(st, x)
                if not (st.assume(b - k) and st.assume(Lin(k) - b)): continue
                for s2, ln, what in w.ref(k, st):
                    s3 = s2.fork()
                    del w.inner[:]
                    res = en.run_region(li.fn, li.loop.header, [(s3, dict(li.env), None)], li.loop)
                    for bk in res['back']:
                        bs, m = back_of(bk)
                        if bs.infeasible(): continue
                        w.step(k, ln, what, bs, m)
                    w.done(k, ln, what, res)
        finally:
            en.rec, en.on_back = save
        return w

    def step(w, k, ln, what, bs, m):
        x = A(w.pos)
        if ln is None:
            w.need(False, 'the walk continues after %s' % what, bs); return
        if w.name.get(k) is None and ln is not None: pass
        nv = w.newval(bs, m, w.pos)
        if what.startswith('OP_SWITCH'):
            # table contents are read on the path itself
            ln = [l for _, l, _ in w.ref(k, bs)][0]
        w.need(nv is not None and bs.decide_eq(nv - x - ln) is True,
               lambda: '%s: the walk moves on by %s, the instruction is %s bytes long' % (what, 'an unknown amount' if nv is None else show(bs.simp(nv - x)), show(bs.simp(ln))), bs)
        if w.depth is not None:
            d = A(w.depth); nd = w.newval(bs, m, w.depth)
            n = w.name.get(k)
            delta = 1 if n in S.ARRS else -1 if n == 'OP_ARR_END' else 0
            w.need(nd is not None and bs.decide_eq(nd - d - delta) is True, lambda: '%s: nesting level changes by %s, must change by %d' % (what, 'an unknown amount' if nd is None else show(bs.simp(nd - d)), delta), bs)
            if delta < 0 and not bs.prove(d - w.base - 1): w.need(w.stops_at(bs.simp(nd)), 'the walk continues after the end of the array it skips', bs)

    def stops_at(w, nd):
        """the loop head leaves the loop when the nesting counter says the array is closed"""
        li = w.li
        if w._stops is None:
            st = li.head.fork()
            z = A(w.depth) - w.base + 1
            if not (st.assume(z) and st.assume(z.scale(-1))) or st.infeasible(): w._stops = True
            else:
                res = w.en.run_region(li.fn, li.loop.header, [(st, dict(li.env), None)], li.loop)
                w._stops = not [b for b in res['back'] if not b[0].infeasible()]
        return w._stops

    def done(w, k, ln, what, res): pass


def show(l):
    if l.isc(): return str(l.c)
    return repr(l)[:200]


def find_pos(en, bc, li):
    """loop-carried unknown used as a position into the bytecode region"""
    out = []
    for a in li.init:
        for s, m in li.backs:
            rm = s.mem.get(bc)
            if (bc, a) in set((bc, z) for z in read_atoms(s, bc)):
                out.append(a); break
    return out


def read_atoms(s, bc):
    """atoms p such that the byte bytecode[p] is mentioned in the state"""
    r = set()
    for a in list(s.bnd) + [y for f in s.facts for y, _ in f.t]:
        o = S.bc_off(a, bc)
        if o is not None and len(o.t) == 1 and o.t[0][1] == 1 and o.c == 0: r.add(o.t[0][0])
    return r


def depth_var(en, bc, ops, li, pos):
    """the loop-carried unknown that goes up by one at an array header"""
    for a in li.init:
        if a == pos: continue
        w = Walk(en, bc, ops, li, ATOMS[pos])
        got = []
        def step(k, ln, what, bs, m, a=a):
            v = w.newval(bs, m, ATOMS[a])
            got.append(v is not None and bs.decide_eq(v - A(ATOMS[a]) - 1) is True)
        w.step = step
        w.rows([ops['OP_ARR_PRE_U8']])
        if got and all(got): return a
    return None


def skip_walks(run, ops, check):
    """the loops of an array header that step over the body of an empty array; check(ok, msg, state)"""
    en, bc = run.en, run.bc
    seen = {}
    n = 0
    for li in run.loops:
        pos = [a for a in find_pos(en, bc, li) if a in li.init]
        if not pos: continue
        a = pos[0]
        key = (li.fn.name, li.loop.header.idx)
        if key not in seen:
            d = depth_var(en, bc, ops, li, a)
            seen[key] = d is not None
            check(d is not None, 'the nesting level is not tracked while an empty array is skipped', li.entry)
            if d is None: continue
            w = Walk(en, bc, ops, li, ATOMS[a], ATOMS[d]).rows()
            n += w.n
            for msg, loc, tr in w.viol: check(False, 'empty array: ' + msg, None, loc, tr)
            li.depth = d; li.base = w.base
        else:
            if not seen[key]: continue
            d = depth_var(en, bc, ops, li, a)
            li.depth = d
            li.base = Walk(en, bc, ops, li, ATOMS[a], ATOMS[d]).base if d is not None else 1
        li.pos = a
    return n
