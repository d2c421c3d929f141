"""Loop fixpoints: generic header state from everything a body pass modifies, strided induction variables,
interval widening with thresholds, and candidate linear invariants kept only if inductive."""
from . import ir
from .ir import AnalysisError
from .dom import *
from . import dom
from .engine import *

MAXIT = 14


class _T:
    def __init__(s, size): s.k = 'int'; s.w = 8 * size; s.size = size


def _mod_cells(entry, back):
    """-> (set of (region, off, size)), set of regions with imprecise modification"""
    cells = {}; bad = set()
    for r, rm in back.mem.items():
        e = entry.mem.get(r)
        eL = e.layers if e is not None else EMPTY_RM.layers
        if e is not None and rm is e: continue
        n = len(eL)
        L = rm.layers
        if e is None:
            # region first touched inside the loop
            if L and L[0] is EMPTY_RM.layers[0] and len(L) > 1: rest = L[1:]
            else: rest = L
            n0 = 0
        else:
            if len(L) < n or any(L[i] is not eL[i] for i in range(n - 1)) or not (L[n - 1] is eL[n - 1] or isinstance(eL[n - 1], dict) and not eL[n - 1]):
                bad.add(r); continue
            rest = L[n - 1:]
        for x in rest:
            if isinstance(x, dict):
                for o, (sz, v) in x.items(): cells[(r, o, sz)] = True
            else:
                bad.add(r); break
    return cells, bad


def _val(en, st, r, o, sz, like):
    if isinstance(like, I): return en.cell(st, r, Lin(o), sz, _T(sz))
    rm = en.rm(st, r)
    return en.cell(st, r, Lin(o), sz, _ty_of(like, sz))


class _PT: k = 'ptr'; w = 64; size = 8
class _DT: k = 'double'; w = 0; size = 8
class _FT: k = 'float'; w = 0; size = 4


def _ty_of(v, sz):
    if isinstance(v, I): return _T(sz)
    if isinstance(v, F): return _DT if sz == 8 else _FT
    return _PT


class Var:
    """one location modified by the loop"""
    __slots__ = ('kind', 'key', 'w', 'v0', 'l0', 'mode', 'step', 'atom', 'lo', 'hi', 'gen', 'tlo', 'thi', 'signed')


def fixpoint(en, fn, loop, s, e0, phis):
    rec = en.rec
    h = loop.header
    if en.on_loop is not None: en.on_loop(en, s, fn, loop)
    base = s.fork()
    # fresh top layers so that writes of the body are visible as layers
    for r, rm in list(base.mem.items()):
        if not (isinstance(rm.layers[-1], dict) and not rm.layers[-1]):
            base.mem[r] = RM(rm.layers + ({},))
    vars = {}      # key -> Var
    badr = set()
    cands = None   # list of Lin over header atoms (invariant candidates)
    k = fresh('k', 64, 0, INF)
    K = A(k)
    opaque = {}    # key -> value for non-integer modified things
    ghosts = {}
    name = '%s.L%d' % (fn.name, h.insts[0].line if h.insts else h.idx)

    def getv0(key):
        if key[0] == 'phi': return e0[key[1]]
        return None

    def mkheader():
        st = base.fork()
        env = dict(e0)
        for r in badr:
            en.havoc(st, r)
        for key, v in vars.items():
            val = v.gen
            if key[0] == 'phi': env[key[1]] = val
            else:
                r, o, sz = key[1:]
                if r in badr: continue
                en.write(st, r, Lin(o), sz, val)
            if v.mode == 'fresh' and v.atom is not None:
                st.bnd[v.atom.id] = (v.lo, v.hi)
        for r in list(st.mem):
            rm = st.mem[r]
            if not (isinstance(rm.layers[-1], dict) and not rm.layers[-1]):
                st.mem[r] = RM(rm.layers + ({},))
        for g, gv in ghosts.items(): st.gh[g] = gv
        ok = True
        for c in (cands if cands is not None else seeds()):
            if True:
                if not st.assume(c): ok = False
        st.log(('loop', name, fn.name, h.idx))
        st.conds[('inloop', fn.name, h.idx)] = True
        return st, env

    def seeds():
        out = []
        for v in vars.values():
            if v.mode != 'stride': continue
            l = v.gen.o if isinstance(v.gen, P) else v.gen.l
            M = 1 << v.w
            cs = [Lin((M >> 1) - 1) - l, Lin(M - 1) - l] if v.step > 0 else [l + (M >> 1), l]
            if v.step < 0: cs.append(l - v.step - 0 if False else l + (-v.step))
            for c in cs:
                if c not in killed and base.prove(c.subst({k.id: ZERO})): out.append(c)
        return out

    def run(st, env, rec_):
        en.rec = rec_
        try:
            return en.run_region(fn, h, [(st, env, None)], loop)
        finally:
            en.rec = rec

    # -- a loop whose trip count is a constant is executed iteration by iteration
    un = unroll(en, fn, loop, h, s, e0)
    if un is not None: return un

    # -- probe with the concrete entry
    st0, env0 = mkheader()
    res = run(st0.fork(), env0, False)
    if not res['back']:
        st0, env0 = mkheader()
        return run(st0, env0, rec)

    def backenv(be):
        (bs, e, frm) = be
        return en.phis(h, bs, e, frm)

    def discover(backs, hst, henv):
        """modified things not yet tracked"""
        new = []
        for (bs, e, frm) in backs:
            be = en.phis(h, bs, e, frm)
            for ph in phis:
                key = ('phi', ph)
                if key in vars or key in opaque: continue
                if be[ph] != henv[ph] and not (isinstance(be[ph], I) and isinstance(henv[ph], I) and bs.decide_eq(be[ph].l - henv[ph].l)):
                    new.append((key, henv[ph], be[ph]))
            cells, bad = _mod_cells(hst, bs)
            for r in bad:
                if r.kind == 'local' and r.tag is not None and r.tag.blk in loop.blocks and r.tag.blk.fn is fn: continue
                if r not in badr: new.append((('bad', r), None, None))
            for (r, o, sz) in cells:
                key = ('cell', r, o, sz)
                if key in vars or r in badr: continue
                if any(k2[0] == 'cell' and k2[1] is r and k2[2] == o and k2[3] == sz for k2 in vars): continue
                L = en.rm(bs, r).layers
                bv = None
                for x in reversed(L):
                    if isinstance(x, dict) and o in x and x[o][0] == sz: bv = x[o][1]; break
                if bv is None:
                    new.append((('bad', r), None, None)); continue
                if r.kind == 'local' and r.tag is not None and r.tag.blk.fn is not fn:
                    # local of an inlined callee created inside the loop body
                    if r not in base.mem: continue
                if r not in hst.mem and r.kind in ('local', 'heap', 'zero') : continue
                v0 = en.cell(base, r, Lin(o), sz, _ty_of(bv, sz))
                # overlapping different-size vars -> imprecise
                if any(k2[0] == 'cell' and k2[1] is r and k2[2] < o + sz and o < k2[2] + k2[3] for k2 in vars):
                    new.append((('bad', r), None, None)); continue
                hv = en.cell(hst, r, Lin(o), sz, _ty_of(bv, sz))
                if hv == bv: continue
                new.append((key, v0, bv))
        return new

    def addvar(key, v0, bv):
        v = Var(); v.key = key; v.v0 = v0; v.atom = None
        vars[key] = v
        if isinstance(v0, B) or isinstance(bv, B):
            v.mode = 'bool'; v.gen = B(('key', ('lb', fresh(name, 1).id))); return
        if isinstance(v0, I) and isinstance(bv, I):
            v.w = v0.w
            v.l0 = v0.l
            d = bv.l - v0.l
            l0 = base.simp(v0.l)
            v.signed = False
            if d.isc() and d.c != 0:
                c = d.c % (1 << v.w)
                if c >= 1 << (v.w - 1): c -= 1 << v.w
                v.mode = 'stride'; v.step = c
                v.gen = I(v.w, l0 + K.scale(c))
            else: demote(v)
            return
        if isinstance(v0, P) and isinstance(bv, P) and v0.r is bv.r:
            v.w = 64; v.l0 = base.simp(v0.o)
            d = bv.o - v0.o
            if d.isc() and d.c:
                v.mode = 'stride'; v.step = d.c; v.gen = P(v0.r, v.l0 + K.scale(d.c))
            else: demote(v)
            return
        if isinstance(v0, F) or isinstance(bv, F):
            v.mode = 'float'; v.gen = F(('fresh', name, fresh(name + '.f', 64).id)); return
        v.mode = 'opaque'
        v.gen = Opq((name, fresh(name + '.o', 1).id))

    def demote(v):
        v.mode = 'fresh'
        isp = isinstance(v.v0, P)
        lo, hi = base.rng(v.l0)
        if isp:
            v.tlo, v.thi = -(1 << 62), 1 << 63
        elif lo < 0:
            v.tlo, v.thi = -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1
        else:
            v.tlo, v.thi = 0, (1 << v.w) - 1
        if lo < v.tlo or hi > v.thi:
            u = en.U(base, v.v0) if not isp else v.l0
            lo, hi = base.rng(u); v.l0 = u
        v.lo, v.hi = max(lo, v.tlo), min(hi, v.thi)
        v.atom = fresh(name + '.v', v.w, v.tlo, v.thi)
        v.gen = P(v.v0.r, A(v.atom)) if isp else I(v.w, A(v.atom))

    for it in range(3):
        # initial discovery against the probe's own header state
        hst, henv = st0, env0
    for key, v0, bv in discover(res['back'], st0, env0):
        if key[0] == 'bad': badr.add(key[1])
        elif key not in vars: addvar(key, v0, bv)

    cands = None
    killed = set()
    widen = {}
    it = 0
    while True:
        it += 1
        if it > MAXIT * 3: raise AnalysisError('loop fixpoint does not stabilise: %s' % name)
        st1, env1 = mkheader()
        hst = st1
        res = run(st1.fork(), env1, False)
        changed = False
        for key, v0, bv in discover(res['back'], hst, env1):
            if key[0] == 'bad':
                if key[1] not in badr: badr.add(key[1]); changed = True
                for k2 in [k2 for k2 in vars if k2[0] == 'cell' and k2[1] is key[1]]: del vars[k2]
            elif key not in vars:
                addvar(key, v0, bv); changed = True
        if changed:
            cands = None; continue
        # ghosts
        for (bs, e, frm) in res['back']:
            for g in bs.gh:
                if bs.gh[g] != hst.gh.get(g):
                    if en.models.get('@ghost') is not None:
                        nv = en.models['@ghost'](en, g, hst.gh.get(g), bs.gh[g])
                    else: nv = None
                    if ghosts.get(g, 0) != nv or g not in ghosts:
                        ghosts[g] = nv; changed = True
        # check strides / intervals
        dem = set()
        for bk in res['back']:
            bs, e, frm = bk
            be = en.phis(h, bs, e, frm)
            for key, v in vars.items():
                bv = be[key[1]] if key[0] == 'phi' else en.cell(bs, key[1], Lin(key[2]), key[3], _ty_of(v.gen, key[3])) if not isinstance(v.gen, B) else None
                if v.mode == 'stride':
                    if isinstance(v.gen, P):
                        good = isinstance(bv, P) and bv.r is v.gen.r and bs.decide_eq(bv.o - (v.gen.o + v.step))
                    else:
                        good = isinstance(bv, I) and bs.decide_eq(bv.l - (v.gen.l + v.step))
                        if not good and isinstance(bv, I):
                            # equal modulo 2^w
                            x = bs.simp(bv.l - (v.gen.l + v.step))
                            good = x.isc() and x.c % (1 << v.w) == 0
                    if not good:
                        demote(v); dem.add(key); changed = True
                elif key in dem: continue
                elif v.mode == 'fresh':
                    if isinstance(v.gen, P):
                        if not isinstance(bv, P) or bv.r is not v.gen.r:
                            v.mode = 'opaque'; v.gen = Opq((name, fresh(name, 1).id)); changed = True; continue
                        l = bv.o
                    else:
                        if not isinstance(bv, I):
                            bv = en.coerce(bs, bv, _T(v.w // 8), v.w // 8)
                        l = en.U(bs, bv) if v.tlo >= 0 else en.S(bs, bv)
                        if l is None: lo, hi = v.tlo, v.thi
                    if l is not None:
                        lo, hi = bs.rng(l)
                        if lo < v.lo and bs.prove(l - v.lo): lo = v.lo
                        if hi > v.hi and bs.prove(Lin(v.hi) - l): hi = v.hi
                        lo = max(lo, v.tlo); hi = min(hi, v.thi)
                    if lo < v.lo or hi > v.hi:
                        n = widen[key] = widen.get(key, 0) + 1
                        changed = True
                        if lo < v.lo: v.lo = max(v.tlo, lo) if n <= 2 else (0 if lo >= 0 and n <= 4 else v.tlo)
                        if hi > v.hi:
                            if n <= 2: v.hi = min(v.thi, hi)
                            else:
                                for t in (7, 8, 15, 16, 63, 64, 255, 65535, (1 << 31) - 1, (1 << 32) - 1):
                                    if hi <= t and n <= 6: v.hi = min(t, v.thi); break
                                else: v.hi = v.thi
        if changed:
            cands = None if cands is None else cands
            continue
        # candidate invariants
        if cands is None:
            cands = seeds()
            cands += [c for c in gather(en, base, hst, res, vars, k, K, h, killed, env1) if c not in cands]
            if cands: continue
        # inductive?
        drop = set()
        for (bs, e, frm) in res['back']:
            be = en.phis(h, bs, e, frm)
            m = step_map(en, bs, be, vars, k, K)
            for c in cands:
                if c in drop: continue
                c2 = c.subst(m)
                if not bs.prove(c2): drop.add(c)
        if drop:
            killed |= drop
            cands = [c for c in cands if c not in drop]
            continue
        break
    # final pass, obligations recorded
    st1, env1 = mkheader()
    ev0 = st1.ev
    res = run(st1, env1, rec)
    summarise(en, hst, ev0, res, k)
    if en.on_back is not None:
        li = LoopInfo(); li.pos = li.depth = li.base = None
        li.fn = fn; li.loop = loop; li.name = name; li.k = k; li.head = hst; li.init = {}; li.backs = []; li.entry = base
        for key, v in vars.items():
            if v.atom is not None: li.init[v.atom.id] = v.v0
        vs = {key: v for key, v in vars.items() if v.atom is not None}
        li.env = dict(env1)
        def values(bk):
            bs, e, frm = bk
            be = en.phis(h, bs, e, frm)
            m = {}
            for key, v in vs.items():
                m[v.atom.id] = be[key[1]] if key[0] == 'phi' else en.cell(bs, key[1], Lin(key[2]), key[3], _ty_of(v.gen, key[3]))
            return bs, m
        li.values = values
        li.backs = [values(b) for b in res['back']]
        en.on_back(li)
    return res


def _since(bs, ev0):
    out = []; e = bs.ev
    while e and e[0] is not ev0[0]:
        out.append(e[0]); e = e[1]
    return out[::-1]


def summarise(en, hst, ev0, res, k):
    """what all earlier iterations did, for the paths that leave the loop: the regions they wrote (with the source of
    a byte-for-byte copy) and the bytes they found to be nonzero"""
    if not res['back'] or en.summary_region is None: return
    K = A(k)
    def base_of(off, n):
        d = off - K.scale(n)
        return d if all(a < k.id for a, _ in d.t) else None      # only terms older than the loop
    from .engine import REGIONS as regions
    wrs = {}; scans = {}
    for i, (bs, e, frm) in enumerate(res['back']):
        for x in _since(bs, ev0):
            if not isinstance(x, dict): continue
            if x['t'] == 'wr':
                w = None
                n = bs.simp(x['n'])
                if n.isc() and n.c > 0:
                    b = base_of(x['off'], n.c)
                    if b is not None:
                        src = None
                        v = x.get('val')
                        if n.c == 1 and isinstance(v, I):
                            a = bs.simp(v.l).single()
                            if a is not None and a.key[0] == 'in' and a.key[4] == 1 and isinstance(a.key[3], Lin):
                                sb = base_of(a.key[3], 1)
                                r = regions.get(a.key[2])
                                if sb is not None and r is not None: src = (r, sb)
                        w = (b, n.c, src)
                wrs.setdefault((x['loc'],), []).append((i, w))
            elif x['t'] == 'rd' and x.get('r') is not None:
                n = bs.simp(x['n'])
                if not (n.isc() and n.c == 1): continue
                b = base_of(x['off'], 1)
                if b is None: continue
                v = en.cell(bs, x['r'], x['off'], 1, _T(1))
                if isinstance(v, I) and bs.decide_eq(en.U(bs, v)) is False:
                    scans.setdefault((x['r'], b), set()).add(i)
    nb = len(res['back'])
    outs = [x[0] for x in res['exit']] + [x[0] for x in res['ret']]
    for (loc,), l in wrs.items():
        ws = {w for i, w in l}
        one = len(ws) == 1 and None not in ws and {i for i, w in l} == set(range(nb))
        for s in outs:
            if one:
                b, n, src = next(iter(ws))
                ev = {'t': 'wr', 'off': b, 'n': K.scale(n), 'loc': loc, 'loop': True}
                if src is not None: ev['src'] = P(src[0], src[1])
            elif None not in ws and len(ws) == 1:
                b, n, src = next(iter(ws))
                ev = {'t': 'wr', 'off': b, 'n': K.scale(n), 'loc': loc, 'loop': True}
            else:
                ev = {'t': 'wr', 'off': A(fresh('lwo', 64)), 'n': A(fresh('lwn', 64, 1)), 'loc': loc, 'loop': True}
            # an earlier event of the path: put it right behind the entry of the loop
            s.ev = _insert(s.ev, ev0, ev)
    for (r, b), got in scans.items():
        if len(got) != nb: continue
        for s in outs:
            s.conds[('memchr_none', ('loop', k.id, r.id, repr(b)))] = (P(r, b), K)
            v = en.cell(s, r, b + K, 1, _T(1))
            if isinstance(v, I) and s.decide_eq(en.U(s, v)) is True:
                s.conds[('memchr_first', ('loop', k.id, r.id, repr(b)))] = (P(r, b), K, K + 1)


def _insert(ev, at, new):
    stack = []
    while ev and ev[0] is not at[0]:
        stack.append(ev[0]); ev = ev[1]
    ev = (new, ev)
    for x in reversed(stack): ev = (x, ev)
    return ev


UNROLL = 72


def const_trips(loop, h, s, e0, en):
    """number of iterations of a loop counting from a constant to a constant in constant steps (other exits allowed), at most 16"""
    for p in h.insts:
        if p.op != 'phi': break
        v = e0.get(p)
        if not isinstance(v, I): continue
        v = s.simp(en.U(s, v))
        if not v.isc(): continue
        step = None
        for _, o in p.x:
            if isinstance(o, ir.Inst) and o.op == "add" and o.ops[0] is p and isinstance(o.ops[1], ir.CInt) and o.blk in loop.blocks: step = o
        if step is None: continue
        d = step.ops[1].v
        for b in loop.blocks:
            t = b.insts[-1]
            if t.op != 'br' or len(t.ops) < 1 or not any(x not in loop.blocks for x in b.succ): continue
            c = t.ops[0]
            if not isinstance(c, ir.Inst) or c.op != 'icmp': continue
            if c.ops[0] in (p, step) and isinstance(c.ops[1], ir.CInt):
                w = 1 << 32
                dd = d - (1 << p.ty.w) if d >> (p.ty.w - 1) else d
                if dd and abs((c.ops[1].v - v.c) / dd) <= 16: return abs((c.ops[1].v - v.c) // dd) + 1
    return None


def unroll(en, fn, loop, h, s, e0):
    """exact execution while every iteration decides by itself whether the loop goes on; None if it does not"""
    rec = en.rec
    cur = [(s.fork(), dict(e0))]
    few = const_trips(loop, h, s, e0, en) is not None
    en.rec = False
    try:
        todo = []
        for it in range(UNROLL):
            nxt = []
            for st, env in cur:
                todo.append((st.fork(), env))
                res = en.run_region(fn, h, [(st, env, None)], loop)
                backs = [b for b in res['back'] if not b[0].infeasible()]
                if backs and (res['exit'] or res['ret']) and not few: return None
                if not backs: continue
                for (bs, e, frm) in backs: nxt.append((bs, en.phis(h, bs, e, frm)))
            if not nxt: break
            if len(nxt) > 8 or it + 1 >= UNROLL: return None
            cur = nxt
        else: return None
    finally:
        en.rec = rec
    out = {'back': [], 'exit': [], 'ret': []}
    for st, env in todo:
        res = en.run_region(fn, h, [(st, env, None)], loop)
        out['exit'] += res['exit']; out['ret'] += res['ret']
    return out


class LoopInfo:
    """a loop after its fixpoint: loop-carried unknowns, their initial values and their values at each back edge"""
    __slots__ = ('fn', 'loop', 'name', 'k', 'head', 'init', 'backs', 'entry', 'env', 'values', 'pos', 'depth', 'base')


def step_map(en, bs, be, vars, k, K):
    """header atom -> its value at the back edge"""
    m = {k.id: K + 1}
    for key, v in vars.items():
        if v.mode != 'fresh' or v.atom is None: continue
        bv = be[key[1]] if key[0] == 'phi' else en.cell(bs, key[1], Lin(key[2]), key[3], _ty_of(v.gen, key[3]))
        if isinstance(v.gen, P): m[v.atom.id] = bv.o
        else:
            l = en.U(bs, bv) if v.tlo >= 0 else en.S(bs, bv)
            if l is None: l = A(fresh('nb', v.w))
            m[v.atom.id] = l
    return m


def h_hi(st, a):
    b = st.bnd.get(a)
    if b is None: b = (ATOMS[a].lo, ATOMS[a].hi)
    return b[1]


def gather(en, base, hst, res, vars, k, K, h, killed, henv):
    """candidate facts that hold on entry"""
    cands = []
    seen = set(killed)
    entry_map = {k.id: ZERO}
    fresh_atoms = {}
    for key, v in vars.items():
        if v.mode == 'fresh' and v.atom is not None:
            entry_map[v.atom.id] = v.l0
            fresh_atoms[v.atom.id] = v
    track = set(entry_map)

    def consider(c):
        if c in seen or not c.t: return
        seen.add(c)
        if not any(a in track for a, _ in c.t): return
        if base.prove(c.subst(entry_map)): cands.append(c)

    # facts known at the back edge, shifted to the next header
    basef = base.fset
    for (bs, e, frm) in res['back']:
        be = en.phis(h, bs, e, frm)
        fs = [f for f in bs.facts if f not in basef]
        for a in track:
            b = bs.bnd.get(a)
            if b is not None and b[1] < INF and (a == k.id or b[1] < h_hi(hst, a)): fs.append(Lin(b[1]) - A(ATOMS[a]))
        # inverse map for unit updates: v' = v + c
        inv = {k.id: K - 1}
        for key, v in vars.items():
            if v.mode != 'fresh' or v.atom is None: continue
            bv = be[key[1]] if key[0] == 'phi' else en.cell(bs, key[1], Lin(key[2]), key[3], _ty_of(v.gen, key[3]))
            l = bv.o if isinstance(bv, P) else bv.l if isinstance(bv, I) else None
            if l is None: continue
            d = l - A(v.atom)
            if d.isc(): inv[v.atom.id] = A(v.atom) - d.c
            else:
                # v' = other expression: facts about that expression become facts about v'
                co = dict(d.t).get(v.atom.id)
                for f in fs:
                    g = f + (A(v.atom) - l)
                    # f mentions l linearly: f = l*1 + rest -> v + rest ; f = -l + rest -> rest - v
                    consider(g)
                    consider(f + (l - A(v.atom)))
        for f in fs:
            if any(a in track for a, _ in f.t):
                g = f.subst(inv)
                consider(g)
                if g != f: consider(f)
                consider(f + 1); consider(g - 1)
        b = bs.bnd.get(k.id)
    # loop-carried values against their entry values
    for key, v in vars.items():
        if v.mode == 'fresh' and v.atom is not None:
            consider(A(v.atom) - v.l0)
            consider(v.l0 - A(v.atom))
            # entry facts about the entry value
            s = v.l0.single()
            if s is not None:
                for f in base.facts:
                    if any(a == s.id for a, _ in f.t): consider(f.subst({s.id: A(v.atom)}))
            elif v.l0.t and len(v.l0.t) <= 10:
                # facts that mention the whole sum: with the sum replaced by the variable
                for f in base.facts:
                    co = dict(f.t)
                    a0, k0 = v.l0.t[0]
                    x = co.get(a0)
                    if x is None or x % k0: continue
                    x //= k0
                    if all(co.get(a, 0) == n * x for a, n in v.l0.t): consider(f - v.l0.scale(x) + A(v.atom).scale(x))
    # pairwise sums/differences of tracked variables (equalities between inductions)
    fl = [v for v in vars.values() if v.mode == 'fresh' and v.atom is not None][:6]
    for i, v in enumerate(fl):
        for u in fl[i + 1:]:
            for sg in (1, -1):
                d = A(v.atom) + A(u.atom).scale(sg)
                d0 = v.l0 + u.l0.scale(sg)
                consider(d - d0); consider(d0 - d)
        for u in fl:
            # a position kept as byte index + bit index
            if u is v or u.thi > 255 or u.tlo < 0: continue
            d = A(v.atom).scale(8) + A(u.atom)
            d0 = v.l0.scale(8) + u.l0
            for x in (1, -1):
                consider(d + K.scale(x) - d0); consider(d0 - d - K.scale(x))
            for w in vars.values():
                if w.mode == 'stride' and isinstance(w.gen, I) and abs(w.step) > 1:
                    for x in (1, -1):
                        e = (w.gen.l - w.l0).scale(x)
                        consider(d + e - d0); consider(d0 - d - e)
        for x in (1, -1):
            d = A(v.atom) + K.scale(x)
            consider(d - v.l0); consider(v.l0 - d)
    for t in en.templates:
        for c in t(en, hst, vars): consider(c)
    return cands[:80]


def join_vals(en, items, vals, name, out, bndset, assign):
    v0 = vals[0]
    if all(v == v0 for v in vals[1:]): return v0
    if all(isinstance(v, I) for v in vals):
        w = v0.w
        ls = []
        lo = hi = None
        for (s, e, p), v in zip(items, vals):
            l = en.U(s, v)
            a, b = s.rng(l)
            ls.append(l)
            lo = a if lo is None else min(lo, a); hi = b if hi is None else max(hi, b)
        a = fresh(name, w, 0, (1 << w) - 1)
        bndset[a.id] = (max(lo, 0), min(hi, (1 << w) - 1))
        assign.append((a, ls))
        return I(w, A(a))
    if all(isinstance(v, P) for v in vals) and all(v.r is v0.r for v in vals):
        lo = hi = None
        ls = []
        for (s, e, p), v in zip(items, vals):
            a, b = s.rng(v.o)
            ls.append(v.o)
            lo = a if lo is None else min(lo, a); hi = b if hi is None else max(hi, b)
        a = fresh(name, 64, -(1 << 62), 1 << 63)
        bndset[a.id] = (lo, hi)
        assign.append((a, ls))
        return P(v0.r, A(a))
    if all(isinstance(v, B) for v in vals): return B(('key', ('jb', fresh(name, 1).id)))
    if all(isinstance(v, F) for v in vals): return F(('fresh', name, fresh(name, 64).id))
    if any(v is None for v in vals): return None
    return Opq((name, fresh(name, 1).id))


def join_items(en, fn, b, items, nophi=False):
    """join of the pending states at one block (keeps common facts + re-expressed ones)"""
    # phis first so that incoming edges can be joined
    its = []
    for (s, e, prev) in items:
        its.append((s, e if nophi else en.phis(b, s, e, prev), None))
    st = its[0][0].fork()
    name = 'j%d' % (b.insts[0].line if b.insts else b.idx)
    bndset = {}; assign = []
    env = {}
    keys = set(its[0][1])
    for s, e, _ in its[1:]: keys &= set(e)
    for k in keys:
        v = join_vals(en, its, [e[k] for s, e, _ in its], name, st, bndset, assign)
        if v is not None: env[k] = v
    # memory
    regs = set()
    for s, _, _ in its: regs |= set(s.mem)
    mem = {}
    pend = []
    for r in regs:
        rms = [s.mem.get(r, EMPTY_RM) for s, _, _ in its]
        if all(x is rms[0] for x in rms): mem[r] = rms[0]; continue
        n = 0
        m = min(len(x.layers) for x in rms)
        while n < m and all(x.layers[n] is rms[0].layers[n] for x in rms): n += 1
        cells = {}; bad = False
        for x in rms:
            for L in x.layers[n:]:
                if isinstance(L, dict):
                    for o, (sz, v) in L.items():
                        if cells.get(o, (sz,))[0] != sz: bad = True
                        cells[o] = (sz, v)
                else: bad = True
        os_ = sorted(cells)
        for i in range(len(os_) - 1):
            if os_[i] + cells[os_[i]][0] > os_[i + 1]: bad = True
        if bad:
            from .engine import Havoc
            mem[r] = RM((Havoc(None, None), {})); continue
        d = {}
        for o, (sz, v) in cells.items():
            vals = [en.cell(s, r, Lin(o), sz, _ty_of(v, sz)) for s, _, _ in its]
            jv = join_vals(en, its, vals, name, st, bndset, assign)
            if jv is not None: d[o] = (sz, jv)
        mem[r] = RM(rms[0].layers[:n] + (d,))
    out = State()
    out.mem = mem
    common = set(its[0][0].fset)
    for s, _, _ in its[1:]: common &= s.fset
    # facts of one state provable in all others
    extra = []
    for s, _, _ in its:
        for f in s.facts:
            if f in common or f in extra: continue
            if all(t.prove(f) for t, _, _ in its if t is not s): extra.append(f)
            if len(extra) > 30: break
    atoms = set()
    for s, _, _ in its: atoms |= set(s.bnd)
    for a in atoms:
        lo = hi = None
        for s, _, _ in its:
            l, h = s.abnd(a)
            lo = l if lo is None else min(lo, l); hi = h if hi is None else max(hi, h)
        out.bnd[a] = (lo, hi)
    out.bnd.update(bndset)
    for a in atoms:
        lo, hi = out.abnd(a)
        if hi - lo <= 300:
            # small domain: keep the exact set of values
            vals = set()
            for s, _, _ in its:
                l, h = s.abnd(a)
                n = s.ne.get(a, ())
                vals.update(v for v in range(l, h + 1) if v not in n)
            x = frozenset(v for v in range(lo, hi + 1) if v not in vals)
            if x: out.ne[a] = x
        elif all(a in s.ne for s, _, _ in its):
            x = frozenset.intersection(*[s.ne[a] for s, _, _ in its])
            if x: out.ne[a] = x
    fs = [f for f in its[0][0].facts if f in common] + extra
    # relations about joined values: every fact f of state i in which the joined value occurs
    cand = []
    for a, ls in assign:
        for i, (s, _, _) in enumerate(its):
            for f in list(s.facts)[-25:]:
                for c in (f + (A(a) - ls[i]), f + (ls[i] - A(a))):
                    cand.append((a, ls, c))
            cand.append((a, ls, A(a) - ls[i])); cand.append((a, ls, ls[i] - A(a)))
    seen = set(); n = 0
    for a, ls, c in cand:
        if c in seen or not any(x == a.id for x, _ in c.t): continue
        seen.add(c)
        if all(s.prove(c.subst({a.id: ls[i]})) for i, (s, _, _) in enumerate(its)):
            fs.append(c); n += 1
            if n > 20: break
    out.facts = tuple(fs); out.fset = frozenset(fs)
    c0 = its[0][0].conds
    out.conds = {k: v for k, v in c0.items() if all(k in s.conds and s.conds[k] == v for s, _, _ in its[1:])}
    for s, _, _ in its:
        for k in s.conds:
            if k[0] == 'freed': out.conds[k] = True
    out.note = {k: v for k, v in its[0][0].note.items() if all(s.note.get(k) == v for s, _, _ in its[1:])}
    g0 = its[0][0].gh
    out.gh = {}
    for k in set().union(*[set(s.gh) for s, _, _ in its]):
        vs = [s.gh.get(k) for s, _, _ in its]
        if all(v == vs[0] for v in vs): out.gh[k] = vs[0]
        elif en.models.get('@gjoin') is not None: out.gh[k] = en.models['@gjoin'](en, k, vs)
    # common event suffix is lost: keep the longest common tail
    evs = [s.events() for s, _, _ in its]
    n = 0
    while all(len(x) > n for x in evs) and all(x[n] is evs[0][n] for x in evs): n += 1
    ev = None
    for x in evs[0][:n]: ev = (x, ev)
    if any(len(x) > n for x in evs):
        ev = (('joined', name), ev)
        seen = set()
        for x in evs:
            for y in x[n:]:
                if isinstance(y, dict) and y['t'] == 'wr' and (y['loc'], y['off'], y['n']) not in seen:
                    seen.add((y['loc'], y['off'], y['n'])); ev = (y, ev)
    out.ev = ev
    out.tr = its[0][0].tr
    return [(out, env, None)]
