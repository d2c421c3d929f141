"""Properties of the compiler: keys of nested structs and the string table of the image."""
from collections import Counter
from . import ir, vm as V, vmspec as S, walk as W
from .engine import *
from .dom import *
from .ir import AnalysisError
from .report import Result, Finding
from .props_rt import obs, MEMK

_cc = None


def cc():
    """the compiler's sources as one module"""
    global _cc
    if _cc is None:
        _cc = ir.build(ir.src_list('compiler'), 'compiler')
    return _cc


def keys_of(n):
    """offsets of the key operands of an instruction"""
    if n is None: return ()
    if n == 'OP_ARR_DYNAMIC': return (1, 3)
    if n in KEYED or n.startswith(('OP_IO_', 'OP_STR_')): return (1,)
    return ()


KEYED = set('''OP_META_NAME OP_ENTER_STRUCT OP_ARR_FIXED OP_ARR_PRE_U8 OP_ARR_PRE_U16 OP_ARR_PRE_U32 OP_ARR_EOF OP_RAW_BYTES OP_CONST_CHECK
OP_SWITCH OP_SWITCH_TABLE OP_LOAD_CTX OP_STORE_CTX'''.split())


def c19(tier):
    res = Result('proof', 'All paths of cnd_map_keys over arbitrary code of arbitrary length, opcode by opcode and operand type by operand type; all paths of the key maps and their users.')
    m = cc(); ops = V.opcode_table()
    f = m.functions.get('cnd_map_keys')
    if f is None or f.decl or len(f.args) != 5: raise AnalysisError('cnd_map_keys not found')
    en = Engine(m)
    end = fresh('end', 64, 0, 1 << 62); start = fresh('start', 64, 0, 1 << 62)
    bc = Region('code', A(end), bytes=True)
    user = Region('user', None)
    def cb(en, st, ins, args):
        o = A(fresh('newkey', 16, 0, 0xffff))
        st.log({'t': 'map', 'key': st.simp(en.U(st, args[1])), 'new': o, 'user': args[0], 'loc': ins.loc()})
        return [(st, I(16, o))]
    en.models['@map'] = cb
    def rec(en, st, ins, args):
        # the function itself on a part of the code: does there what is shown here (induction over the size of the range)
        lo, hi = st.simp(en.U(st, args[1])), st.simp(en.U(st, args[2]))
        same = isinstance(args[0], P) and args[0].r is bc and args[0].o == ZERO and isinstance(args[3], Fn) and args[3].n == '@map' and isinstance(args[4], P) and args[4].r is user and args[4].o == ZERO
        en.oblig('mem', ins, st, same and st.prove(A(end) - hi), lambda: 'cnd_map_keys is applied to a range that ends behind the code')
        rc = A(fresh('rc', 32, 0, 1))
        st.log({'t': 'rec', 'same': same, 'lo': lo, 'hi': hi, 'rc': rc, 'loc': ins.loc()})
        en.havoc(st, bc, lo, st.simp(hi - lo))
        return [(st, I(32, rc))]
    en.contracts['cnd_map_keys'] = rec
    en.models['@store'] = lambda en, st, ins, p, size, v: st.log({'t': 'w', 'off': st.simp(p.o), 'n': size, 'v': v, 'loc': ins.loc()}) if p.r is bc else None
    en.models['@memcpy'] = lambda en, st, ins, d, s_, n: st.log({'t': 'w', 'off': st.simp(d.o), 'n': n, 'v': None, 'loc': ins.loc()}) if isinstance(d, P) and d.r is bc else None
    loops = []
    en.on_back = loops.append
    outs = en.run_function(f, [P(bc, ZERO), I(64, A(start)), I(64, A(end)), Fn('@map'), P(user, ZERO)], State())
    obs(res, en, MEMK, 'cnd_map_keys')
    mains = [(li, a) for li in loops for a in W.find_pos(en, bc, li) if a in li.init]
    if not mains: raise AnalysisError('the loop of cnd_map_keys over the instructions was not found')
    li, a = mains[-1]
    i0 = li.init[a]
    res.ob(isinstance(i0, I) and li.entry.decide_eq(en.U(li.entry, i0) - A(start)) is True, 'start', 'the walk does not begin at the start of the range', f.name, (), 'start')
    w = KWalk(en, bc, ops, li, ATOMS[a]); w.user = user; w.end = A(end)
    w.rows()
    res.obligations += w.n
    for msg, loc, tr in w.viol: res.findings.append(Finding('keys', 'cnd_map_keys: ' + msg, loc, tr, 'keys|' + msg[:50]))
    for st, r in outs:
        if st.infeasible(): continue
        rc = st.simp(en.U(st, r))
        tr = [str(t) for t in st.trace()[-6:]]
        if not rc.isc(): res.ob(False, 'result', 'result of cnd_map_keys is not a constant on a path', f.name, tr, 'result'); continue
        if rc.c: res.ob(st.prove(A(ATOMS[a]) - A(end)), 'result', 'cnd_map_keys reports success before the end of the range', f.name, tr, 'early')
    res.coverage['instruction_rows'] = w.rowsn
    res.coverage['functions_analysed'] = sorted(en.fns_seen)
    return res


class KWalk(W.Walk):
    """the key map: steps as in the VM, exactly the key operands are replaced, the code of the cases of a switch is mapped too"""
    rowsn = 0

    def rows(w, *a):
        w.cnt = Counter()
        super().rows(*a)
        for n in S.LEN: w.need(w.cnt[n] > 0, '%s: the walk never gets past this instruction' % n, w.li.head)
        return w

    def step(w, k, ln, what, bs, m):
        en = w.en; x = A(w.pos); n = w.name.get(k)
        w.rowsn += 1
        if ln is None: w.need(False, 'the walk continues after %s' % what, bs); return
        if n is None or n not in S.LEN and n not in W.TOFF and n not in ('OP_TRANS_POLY', 'OP_TRANS_SPLINE', 'OP_SWITCH', 'OP_SWITCH_TABLE'):
            w.need(False, 'the walk continues after the unassigned opcode 0x%02x' % k, bs); return
        w.cnt[n] += 1
        nv = w.newval(bs, m, w.pos)
        ev = [e for e in bs.events() if isinstance(e, dict)]
        sw = n in ('OP_SWITCH', 'OP_SWITCH_TABLE')
        if sw: ln = [l for _, l, _ in w.ref(k, bs)][0]
        w.need(nv is not None and bs.decide_eq(nv - x - ln) is True,
               lambda: '%s: the walk moves on by %s, the instruction is %s bytes long' % (what, 'an unknown amount' if nv is None else W.show(bs.simp(nv - x)), W.show(bs.simp(ln))), bs)
        w.need(nv is not None and bs.prove(w.end - nv), '%s: an instruction cut off by the end of the range is mapped' % what, bs)
        offs = keys_of(n)
        maps = [e for e in ev if e['t'] == 'map']; ws = [e for e in ev if e['t'] == 'w']; recs = [e for e in ev if e['t'] == 'rec']
        old = w.li.head
        for o in offs:
            key = w.num(old, x + o, 2)
            hit = [e for e in maps if bs.decide_eq(e['key'] - key) is True and w.is_user(e)]
            w.need(bool(hit), '%s: the key at offset %d is not mapped' % (what, o), bs)
            now = w.num(bs, x + o, 2)
            w.need(any(bs.decide_eq(now - e['new']) is True for e in hit), '%s: the key at offset %d is not replaced by what the map returns' % (what, o), bs)
        w.need(len(maps) == len(offs), '%s: the map is asked for %d keys, the instruction has %d' % (what, len(maps), len(offs)), bs)
        for e in ws:
            inside = isinstance(e['n'], int) and any(bs.prove(e['off'] - x - o) and bs.prove(x + o + 2 - e['off'] - e['n']) for o in offs)
            w.need(inside, '%s: something other than a key operand is overwritten' % what, bs)
        if not sw: w.need(not recs, '%s: keys are mapped twice' % what, bs); return
        t = bs.simp(x + 7 + w.num(bs, x + 3, 4))
        if not recs: w.need(bs.decide_eq(t - x - 7) is True, '%s: the code of the cases is not mapped' % what, bs); return
        e = recs[0]
        w.need(len(recs) == 1 and e['same'], '%s: the code of the cases is not mapped once with the same map' % what, bs)
        w.need(bs.decide_eq(e['lo'] - x - 7) is True and bs.decide_eq(e['hi'] - t) is True, '%s: the part that is mapped is not the code of the cases' % what, bs)
        w.need(bs.decide_eq(e['rc']) is False, '%s: failure in the cases is ignored' % what, bs)

    def is_user(w, e): return isinstance(e['user'], P) and e['user'].r is w.user and e['user'].o == ZERO


PROPS = {'C19': c19}
