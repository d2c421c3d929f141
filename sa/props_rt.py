"""Properties of the runtime outside the dispatch loop: freestanding code, context set-up, image loader, verifier."""
from collections import Counter
from . import ir, vm as V, vmspec as S, walk as W
from .engine import *
from .dom import *
from .ir import AnalysisError
from .report import Result, Finding
from .props_vm import vm

# library functions without state, allocation, input or output
PURE = set('''memcpy memmove memset memchr memcmp strlen strcmp strncmp strchr strnlen bcmp abs labs llabs
sin cos tan asin acos atan atan2 sqrt cbrt log log2 log10 log1p exp exp2 expm1 pow fabs fmod floor ceil round trunc rint nearbyint lround llround
sinh cosh tanh fmin fmax copysign hypot fma sinf cosf tanf asinf acosf atanf atan2f sqrtf logf log2f log10f expf powf fabsf fmodf floorf ceilf roundf truncf fminf fmaxf
__stack_chk_fail'''.split())


def runtime(res):
    """nothing but the context, the program, the message and the host callback"""
    v = vm(); m = v.m
    used = {}
    for f in m.functions.values():
        if f.decl: continue
        calls = used.setdefault(f.name, set())
        for b in f.blocks:
            for i in b.insts:
                refs = [o for o in i.ops if isinstance(o, ir.GRef)]
                if i.op == 'call':
                    c = i.x
                    n = getattr(c, 'name', None) if isinstance(c, ir.GRef) else None
                    if n is not None:
                        g = m.functions.get(n)
                        if g is not None and not g.decl: calls.add(n)
                        else:
                            ok = n in PURE or n.startswith('llvm.')
                            res.ob(ok, 'external', 'calls %s, which is not a pure library function' % n, i.loc(), (), 'external|%s|%s' % (f.name, n))
                    elif isinstance(c, (ir.Inst, ir.Arg)):
                        ok = from_ctx(v, c)
                        res.ob(ok, 'indirect', 'indirect call of something other than the callback of the context', i.loc(), (), 'indirect|%s' % f.name)
                    else:
                        res.ob(False, 'external', 'call of %r cannot be resolved (inline assembly?)' % (c,), i.loc(), (), 'asm|%s' % f.name)
                elif i.op == 'alloca':
                    res.ob(i.ops == [] or all(isinstance(o, ir.CInt) for o in i.ops), 'vla', 'stack object of run-time size', i.loc(), (), 'vla|%s' % f.name)
                for r in refs:
                    if r.name in m.functions: 
                        if i.op != 'call': pass
                        continue
                    g = m.globals.get(r.name)
                    if g is None: continue
                    res.ob(bool(g.const), 'global', 'uses the mutable object %s outside the context' % r.name, i.loc(), (), 'global|%s|%s' % (f.name, r.name))
    for g in m.globals.values():
        if g.name.startswith('llvm.'): continue
        res.ob(bool(g.const), 'global', 'the runtime has mutable static state: %s' % g.name, g.name, (), 'static|' + g.name)
    # recursion: no cycle in the call graph
    idx = {}; low = {}; st = []; on = set(); cyc = []
    def dfs(u):
        idx[u] = low[u] = len(idx); st.append(u); on.add(u)
        for w in sorted(used.get(u, ())):
            if w not in idx: dfs(w); low[u] = min(low[u], low[w])
            elif w in on: low[u] = min(low[u], idx[w])
        if low[u] == idx[u]:
            c = []
            while True:
                x = st.pop(); on.discard(x); c.append(x)
                if x == u: break
            if len(c) > 1 or u in used.get(u, ()): cyc.append(c)
    for u in sorted(used):
        if u not in idx: dfs(u)
    for u in sorted(used):
        c = next((c for c in cyc if u in c), None)
        res.ob(c is None, 'recursion', 'recursive: %s' % ' -> '.join(c or ()), '%s:%s' % (m.functions[u].file, m.functions[u].line), (), 'recursion|%s' % u)
    res.coverage['functions_analysed'] = sorted(used)
    res.coverage['call_edges'] = sum(len(x) for x in used.values())
    return res


def from_ctx(v, c, depth=0):
    """the called value is loaded from the callback slot of a context"""
    if depth > 4 or not isinstance(c, ir.Inst): return False
    if c.op == 'load':
        p = c.ops[0]
        if isinstance(p, ir.Inst) and p.op == 'gep' and not p.x[1] and p.x[0] == v.c['o_io_callback']: return True
        if isinstance(p, ir.Inst) and p.op == 'alloca':
            # a local copy of the callback
            sts = [i for b in c.blk.fn.blocks for i in b.insts if i.op == 'store' and i.ops[1] is p]
            return bool(sts) and all(from_ctx(v, i.ops[0], depth + 1) for i in sts)
        return False
    if c.op == 'phi': return bool(c.x) and all(from_ctx(v, o, depth + 1) for _, o in c.x if o is not c)
    if c.op == 'select': return all(from_ctx(v, o, depth + 1) for o in c.ops[1:])
    return False


def c07(tier):
    r = Result('proof', 'Every global object, external call, indirect call, stack allocation and call-graph cycle of the runtime translation units (src/vm).')
    runtime(r)
    if r.obligations < 30: r.errors.append('only %d obligations' % r.obligations)
    return r


# ---------------------------------------------------------------- fresh contexts and degenerate calls
def obs(res, en, kinds, tag):
    """engine obligations -> findings"""
    n = Counter()
    for (kd, loc, i), (ok, bad, ex, fn) in en.obls.items():
        if kd not in kinds: continue
        n[kd] += ok + bad
        res.obligations += ok + bad
        if bad: res.findings.append(Finding(kd, '%s: %s' % (tag, str(ex[0])[:500]), loc, ex[1][-12:] if len(ex) > 1 and isinstance(ex[1], list) else [], '%s|%s|%s' % (tag, kd, fn)))
    c = res.coverage.setdefault('obligations_by_rule', {})
    for k, x in n.items(): c[k] = c.get(k, 0) + x
    return n


MEMK = ('mem', 'null', 'nul', 'shift', 'div0', 'divov', 'fptoint', 'nsw', 'uninit')
INITIAL = [('ip', 0, 'position in the program'), ('cursor', 0, 'position in the message'), ('bit_offset', 0, 'bit position'), ('loop_depth', 0, 'loop nesting'),
           ('expr_sp', 0, 'expression stack depth'), ('is_next_optional', 0, 'optional marker')]


def c14(tier):
    res = Result('proof', 'All paths of cnd_init over a context of unknown content; all paths of cnd_execute, cnd_init, cnd_program_load and the lookups with absent arguments; '
                          'all paths of cnd_execute that leave the dispatch loop at the end of the program.')
    v = vm(); c = v.c
    run = V.Run(v, v.ops['OP_NOOP']).go()
    en = run.en
    if not run.inited: res.errors.append('cnd_init has no path that returns')
    for st, _ in run.inited:
        tr = [str(t) for t in st.trace()[-6:]]
        for f in V.CTX_FIELDS:
            if f in ('loop_stack', 'expr_stack'): continue          # written before they are read, see C09 and C10
            off, sz = c['o_' + f], c['s_' + f]
            rm = st.mem.get(run.ctx)
            val = None; known = False
            if rm is not None:
                ls = rm.layers
                x = en._cell(st, run.ctx, Lin(off), sz, V.TS[sz], ls, None)
                known = not unwritten(en, st, run.ctx, x)
            res.ob(known, 'init', 'cnd_init leaves %s as it was in memory' % f, 'cnd_init', tr, 'init|' + f)
        def val(f): return run.val(st, f)
        want = list(INITIAL) + [('endianness', c['LE'], 'byte order'), ('trans_type', c['TR_NONE'], 'transform')]
        for f, w, what in want:
            x = val(f)
            res.ob(st.decide_eq(x - w) is True, 'start', 'a fresh context does not start with %s %d' % (what, w), 'cnd_init', tr, 'start|' + f)
        for f, w in (('data_len', A(run.dl)),):
            res.ob(st.decide_eq(val(f) - w) is True, 'config', '%s is not the value given to cnd_init' % f, 'cnd_init', tr, 'config|' + f)
        for f, r in (('program', run.prog), ('data_buffer', run.data)):
            x = en.cell(st, run.ctx, Lin(c['o_' + f]), 8, V.TPtr)
            res.ob(isinstance(x, P) and x.r is r and x.o == ZERO, 'config', '%s is not the value given to cnd_init' % f, 'cnd_init', tr, 'config|' + f)
        x = en.cell(st, run.ctx, Lin(c['o_io_callback']), 8, V.TPtr)
        res.ob(isinstance(x, Fn), 'config', 'io_callback is not the value given to cnd_init', 'cnd_init', tr, 'config|io_callback')
    # the run ends with OK exactly at the end of the program
    n = 0
    atend = V.Run(v, None).go()
    for run_, p in [(run, p) for p in run.paths] + [(atend, p) for p in atend.paths]:
        if p.st.infeasible(): continue
        if p.kind != 'ret':
            res.ob(run_ is run, 'end', 'the run goes on behind the end of the program', p.loc, (), 'end|on')
            continue
        at_end = p.st.prove(run_.po - A(run_.bl))
        ok = p.ret.isc() and p.ret.c == c['E_OK']
        n += ok
        tr = [str(t) for t in p.st.trace()[-6:]]
        if ok: res.ob(at_end, 'end', 'the run ends with success before the end of the program', p.loc, tr, 'end|early')
        if at_end: res.ob(ok, 'end', 'the run ends with %s at the end of the program' % p.retname(), p.loc, tr, 'end|late')
    res.ob(n > 0, 'end', 'no path ends the run with success at the end of the program', 'cnd_execute', (), 'end|none')
    degenerate(res, v)
    return res


def unwritten(en, st, region, x):
    if isinstance(x, I):
        for a, _ in x.l.t:
            k = ATOMS[a].key
            while k[0] == 'bits': k = ATOMS[k[1]].key
            if k[0] == 'in' and k[2] == region.id: return True
        return False
    if isinstance(x, F): return 'in' in repr(x.k) and x.k[0] in ('in', 'bits') and region.name + '[' in repr(x.k)
    if isinstance(x, P): return x.r in region.lazy.values()
    if isinstance(x, Opq): return x.k[0] == 'in' and x.k[2] == region.id
    if isinstance(x, B): return False
    return False


def degenerate(res, v):
    c = v.c
    def ctx_with(prog, bc, data):
        bl = fresh('bl', 64, 0, 1 << 62)
        pr = Region('program', Lin(c['prog'])); ctx = Region('ctx', Lin(c['ctx']))
        code = Region('bytecode', A(bl), bytes=True, const=True)
        pr.init = {c['po_bytecode']: (8, P(code, ZERO) if bc else NULL), c['po_bytecode_len']: (8, I(64, A(bl) if bc else ZERO))}
        dl = fresh('dl', 64, 0, 1 << 62)
        dr = Region('data', A(dl), bytes=True)
        z = {'ip': 0, 'cursor': 0, 'bit_offset': 0, 'endianness': c['LE'], 'loop_depth': 0, 'expr_sp': 0, 'trans_type': c['TR_NONE'], 'is_next_optional': 0}
        ctx.init = {c['o_program']: (8, P(pr, ZERO) if prog else NULL), c['o_data_buffer']: (8, P(dr, ZERO) if data else NULL), c['o_data_len']: (8, I(64, A(dl))),
                    c['o_io_callback']: (8, Fn('@cb'))}
        for f, x in z.items(): ctx.init[c['o_' + f]] = (c['s_' + f], I(8 * c['s_' + f], Lin(x)))
        return ctx
    fn = v.exec_fn
    for what, arg in (('no context', lambda: NULL), ('no program', lambda: P(ctx_with(0, 0, 1), ZERO)), ('a program without code', lambda: P(ctx_with(1, 0, 1), ZERO)),
                      ('no message buffer', lambda: P(ctx_with(1, 1, 0), ZERO))):
        en = Engine(v.m)
        en.models['@cb'] = lambda en, st, ins, args: [(st, I(32, A(fresh('cbrc', 32))))]
        en.nsw_check = False
        # stop at the dispatch loop: reaching it is already the violation
        hit = []
        def hint(en, fn, loop, items):
            if v.has_indirect(fn, loop.blocks):
                hit.append(items[0][0]); return {'exit': [], 'ret': []}
        en.loop_hint = hint
        outs = en.run_function(fn, [arg()], State())
        obs(res, en, ('mem', 'null'), 'cnd_execute with ' + what)
        res.ob(not [h for h in hit if not h.infeasible()], 'reject', 'cnd_execute starts to run with %s' % what, 'cnd_execute', (), 'reject|' + what)
        for s, r in outs:
            res.ob(s.decide_eq(en.U(s, r) - c['E_OK']) is False, 'reject', 'cnd_execute reports success with %s' % what, 'cnd_execute', [str(t) for t in s.trace()[-6:]], 'ok|' + what)
    for name, args in (('cnd_init', lambda: [NULL, I(32, ZERO), NULL, NULL, I(64, ZERO), NULL, NULL]), ('cnd_program_load', lambda: [NULL, NULL, I(64, ZERO)]),
                       ('cnd_program_load_il', lambda: [NULL, NULL, I(64, A(fresh('n', 64)))]), ('cnd_verify_program', lambda: [NULL]),
                       ('cnd_get_key_name', lambda: [NULL, I(16, A(fresh('k', 16)))]), ('cnd_get_key_id', lambda: [NULL, NULL])):
        f = v.m.functions.get(name)
        if f is None or f.decl: res.errors.append(name + ' not found'); continue
        en = Engine(v.m)
        a = args()
        if len(a) != len(f.args): res.errors.append('%s takes %d arguments' % (name, len(f.args))); continue
        outs = en.run_function(f, a, State())
        obs(res, en, ('mem', 'null', 'nul'), name + ' without arguments')
        res.ob(bool(outs), 'reject', '%s does not return' % name, name)


# ---------------------------------------------------------------- image loader
def c15(tier):
    res = Result('proof', 'All paths of cnd_program_load_il and cnd_program_load over an arbitrary image of arbitrary length.')
    v = vm(); c = v.c
    f = v.m.functions.get('cnd_program_load_il')
    if f is None or f.decl or len(f.args) != 3: raise AnalysisError('cnd_program_load_il not found')
    en = Engine(v.m)
    ln = fresh('image_len', 64, 0, 1 << 62)
    img = Region('image', A(ln), bytes=True, const=True)
    prog = Region('program', Lin(c['prog']))
    loops = []
    en.on_back = loops.append
    en.models['@load'] = lambda en, st, ins, p, size, v_: st.log({'t': 'rd', 'r': p.r, 'off': st.simp(p.o), 'n': Lin(size), 'loc': ins.loc()}) if p.r is img else None
    en.models['@store'] = lambda en, st, ins, p, size, v_: st.log({'t': 'pw', 'loc': ins.loc()}) if p.r is prog else None
    en.models['@memcpy'] = lambda en, st, ins, d, s_, n: st.log({'t': 'pw', 'loc': ins.loc()}) if isinstance(d, P) and d.r is prog else None
    en.summary_region = img
    outs = en.run_function(f, [P(prog, ZERO), P(img, ZERO), I(64, A(ln))], State())
    obs(res, en, MEMK, 'cnd_program_load_il')
    b = lambda st, o: en.U(st, en.cell(st, img, Lin(o) if isinstance(o, int) else o, 1, V.T1))
    num = lambda st, o, n: st.simp(sum((b(st, o + i).scale(1 << (8 * i)) for i in range(n)), ZERO))
    ok = 0
    for st, r in outs:
        if st.infeasible(): continue
        tr = [str(t) for t in st.trace()[-8:]]
        loc = '%s:%s' % st.trace()[-1][:2] if st.trace() else f.file
        rc = st.simp(en.U(st, r))
        ev = [e for e in st.events() if isinstance(e, dict) and e['t'] == 'pw']
        if not rc.isc():
            res.ob(False, 'result', 'result of the loader is not one of the documented codes', loc, tr, 'result'); continue
        if rc.c != c['E_OK']:
            res.ob(not ev, 'reject', 'a rejected image has already replaced the program', loc, tr, 'reject|write'); continue
        ok += 1
        for i, ch in enumerate(b'CNDIL'): res.ob(st.decide_eq(b(st, i) - ch) is True, 'magic', 'image accepted although byte %d of the signature is not checked' % i, loc, tr, 'magic')
        res.ob(st.decide_eq(b(st, 5) - 1) is True, 'magic', 'image of another format version accepted', loc, tr, 'version')
        so, bo, sc = num(st, 8, 4), num(st, 12, 4), num(st, 6, 2)
        cell = lambda f, sz, ty: en.cell(st, prog, Lin(c['po_' + f]), sz, ty)
        x = cell('bytecode', 8, V.TPtr); n = st.simp(en.U(st, cell('bytecode_len', 8, V.T8)))
        inside = isinstance(x, P) and x.r is img
        res.ob(inside and st.decide_eq(x.o - bo) is True, 'view', 'code does not start where the image says', loc, tr, 'view|bytecode')
        res.ob(inside and st.prove(x.o) and st.prove(A(ln) - x.o - n) and st.prove(n), 'view', 'code runs past the end of the image', loc, tr, 'view|length')
        res.ob(inside and st.decide_eq(A(ln) - x.o - n) is True, 'view', 'code is not the whole rest of the image', loc, tr, 'view|rest')
        x = cell('string_table', 8, V.TPtr)
        res.ob(isinstance(x, P) and x.r is img and st.decide_eq(x.o - so) is True and st.prove(A(ln) - x.o), 'view', 'string table is not inside the image', loc, tr, 'view|strings')
        k = st.simp(en.U(st, cell('string_count', c['ps_string_count'], V.TS[c['ps_string_count']])))
        res.ob(st.decide_eq(k - sc) is True, 'view', 'number of strings is not the one the image says', loc, tr, 'view|count')
        res.ob(terminated(en, st, img, so, sc, loops, A(ln)), 'strings', 'image accepted without having found the terminator of every string', loc, tr, 'strings')
    res.ob(ok > 0, 'result', 'no image is ever accepted', f.name)
    # plain byte code
    g = v.m.functions.get('cnd_program_load')
    if g is None or g.decl or len(g.args) != 3: raise AnalysisError('cnd_program_load not found')
    en2 = Engine(v.m)
    for st, _ in en2.run_function(g, [P(prog, ZERO), P(img, ZERO), I(64, A(ln))], State()):
        cell = lambda f, sz, ty: en2.cell(st, prog, Lin(c['po_' + f]), sz, ty)
        x = cell('bytecode', 8, V.TPtr)
        res.ob(isinstance(x, P) and x.r is img and x.o == ZERO, 'view', 'cnd_program_load does not use the given code', 'cnd_program_load', (), 'load|code')
        res.ob(st.decide_eq(en2.U(st, cell('bytecode_len', 8, V.T8)) - A(ln)) is True, 'view', 'cnd_program_load does not use the given length', 'cnd_program_load', (), 'load|len')
        res.ob(st.decide_eq(en2.U(st, cell('string_count', 2, V.T2))) is True, 'view', 'cnd_program_load leaves a string table behind', 'cnd_program_load', (), 'load|strings')
    obs(res, en2, MEMK, 'cnd_program_load')
    return res


def terminated(en, st, img, so, sc, loops, ln):
    """count terminators were found one after the other, starting at so"""
    if st.prove(sc.scale(-1)): return True
    for li in loops:
        K = A(li.k)
        if not st.prove(K - sc): continue
        for a in li.init:
            i0 = li.init[a]
            o0 = i0.o if isinstance(i0, P) and i0.r is img else en.U(li.entry, i0) if isinstance(i0, I) else None
            if o0 is None or li.entry.decide_eq(o0 - so) is not True: continue
            good = bool(li.backs)
            for bs, m in li.backs:
                x = m.get(a)
                o = x.o if isinstance(x, P) and x.r is img else en.U(bs, x) if isinstance(x, I) else None
                if o is None: good = False; break
                z = bs.decide_eq(en.U(bs, en.cell(bs, img, o - 1, 1, V.T1))) is True
                good = good and z and bs.prove(o - A(ATOMS[a]) - 1) and bs.prove(ln - o)
            if good: return True
    return False


# ---------------------------------------------------------------- verifier
def c18(tier):
    res = Result('proof', 'All paths of cnd_verify_program over an arbitrary program of arbitrary length; its walk compared, opcode by opcode and operand type by operand type, with the instruction lengths of the VM.')
    v = vm(); c = v.c
    f = v.m.functions.get('cnd_verify_program')
    if f is None or f.decl or len(f.args) != 1: raise AnalysisError('cnd_verify_program not found')
    en = Engine(v.m)
    bl = fresh('bytecode_len', 64, 0, 1 << 62)
    bc = Region('bytecode', A(bl), bytes=True, const=True)
    prog = Region('program', Lin(c['prog']), const=True)
    prog.init = {c['po_bytecode']: (8, P(bc, ZERO)), c['po_bytecode_len']: (8, I(64, A(bl)))}
    loops = []
    en.on_back = loops.append
    en.models['@load'] = lambda en, st, ins, p, size, v_: st.log({'t': 'rd', 'r': p.r, 'off': st.simp(p.o), 'n': Lin(size), 'loc': ins.loc()}) if p.r is bc else None
    en.models['@store'] = lambda en, st, ins, p, size, v_: st.log({'t': 'lw', 'v': v_.l if isinstance(v_, I) else None, 'loc': ins.loc()}) if p.r.kind == 'local' and not (p.r.size is not None and p.r.size.isc() and p.r.size.c <= 8) else None
    outs = en.run_function(f, [P(prog, ZERO)], State())
    obs(res, en, MEMK, 'cnd_verify_program')
    mains = [(li, a) for li in loops for a in W.find_pos(en, bc, li) if a in li.init]
    if not mains: raise AnalysisError('the loop of cnd_verify_program over the instructions was not found')
    li, a = mains[-1]
    w = VWalk(en, bc, v.ops, li, ATOMS[a]).rows()
    for ab, rl, msg, bs in w.late: w.need(rl if w.rel == {True} else ab and w.rel == {False}, msg, bs)
    res.obligations += w.n
    for msg, loc, tr in w.viol: res.findings.append(Finding('walk', 'verifier: ' + msg, loc, tr, 'walk|' + msg[:40]))
    for n in ('OP_JUMP', 'OP_JUMP_IF_NOT', 'OP_SWITCH', 'OP_SWITCH_TABLE', 'OP_IO_U8', 'OP_CONST_CHECK'):
        res.ob(w.seen.get(n, 0) > 0, 'accept', 'the verifier never gets past an %s' % n, 'cnd_verify_program', (), 'accept|' + n)
    # success only after the walk has reached the end of the program
    for st, r in outs:
        if st.infeasible(): continue
        rc = st.simp(en.U(st, r))
        tr = [str(t) for t in st.trace()[-6:]]
        res.ob(rc.isc(), 'result', 'result of the verifier is not a single code on a path', 'cnd_verify_program', tr, 'result')
        if rc.isc() and rc.c == c['E_OK']: res.ob(st.prove(A(ATOMS[a]) - A(bl)) , 'result', 'program accepted before its end was reached', 'cnd_verify_program', tr, 'early')
    res.coverage['instruction_rows'] = w.rowsn
    res.coverage['functions_analysed'] = sorted({o[3] for o in en.obls.values()} | {f.name})
    return res


class VWalk(W.Walk):
    """the verifier: lengths as in the VM, the inline tables of switches stepped over, branch targets inside the program"""
    collect = True

    def __init__(w, *a):
        super().__init__(*a)
        w.seen = Counter(); w.rowsn = 0; w.bl = w.bc.size; w.rel = set(); w.late = []

    def step(w, k, ln, what, bs, m):
        en = w.en; x = A(w.pos)
        rd = [e for e in bs.events() if isinstance(e, dict) and e['t'] == 'rd' and e['r'] is w.bc]
        nv = w.newval(bs, m, w.pos)
        if not rd:
            # a step that looks at no instruction: the position must be the start of a table recorded before and moves to a recorded value
            rel = nv is not None and any(z == w.pos.id for z, _ in nv.t)
            if rel: nv = nv - x
            w.rel |= {rel}
            w.need(nv is not None and len(nv.t) == 1 and nv.t[0][1] == 1 and nv.c == 0 and own(w, ATOMS[nv.t[0][0]]), 'the walk moves to %s without looking at an instruction' % (nv,), bs)
            w.need(any(own(w, ATOMS[z]) for y in eqs(bs, w.pos) for z, _ in y.t), 'the walk skips something that is not the start of a recorded table', bs)
            return
        w.seen[w.name.get(k)] += 1; w.rowsn += 1
        if ln is None: w.need(False, 'the walk continues after %s' % what, bs); return
        n = w.name.get(k)
        if n is None or n not in S.LEN and n not in W.TOFF and n not in ('OP_TRANS_POLY', 'OP_TRANS_SPLINE', 'OP_SWITCH', 'OP_SWITCH_TABLE'):
            w.need(False, 'the unassigned opcode 0x%02x is accepted' % k, bs); return
        if what.startswith('OP_SWITCH'): ln = Lin(7)
        w.need(nv is not None and bs.decide_eq(nv - x - ln) is True,
               lambda: '%s: the walk moves on by %s, the instruction is %s bytes long' % (what, 'an unknown amount' if nv is None else W.show(bs.simp(nv - x)), W.show(bs.simp(ln))), bs)
        w.need(nv is not None and bs.prove(w.bl - nv), '%s: an instruction cut off by the end of the program is accepted' % what, bs)
        def target(st, off):
            t = x + ln + en.sext(st, I(32, w.num(st, off, 4)), 64).l
            t = st.simp(t)
            return st.prove(t) and st.prove(w.bl - t)
        if n in ('OP_JUMP', 'OP_JUMP_IF_NOT'): w.need(target(bs, x + 1), '%s: a target outside the program is accepted' % n, bs)
        if n not in ('OP_SWITCH', 'OP_SWITCH_TABLE'): return
        t = bs.simp(x + 7 + w.num(bs, x + 3, 4))
        tl = bs.simp(w.ref(k, bs)[0][1] + x - t)
        w.need(bs.prove(t) and bs.prove(w.bl - t - tl), '%s: a table outside the program is accepted' % n, bs)
        st = [bs.simp(e['v']) for e in bs.events() if isinstance(e, dict) and e['t'] == 'lw' and e['v'] is not None]
        w.need(any(bs.decide_eq(y - t) is True for y in st), '%s: the start of the table is not recorded' % n, bs)
        w.late.append((any(bs.decide_eq(y - t - tl) is True for y in st), any(bs.decide_eq(y - tl) is True for y in st), '%s: the end of the table is not recorded' % n, bs))
        d = 2 if n == 'OP_SWITCH' else 16
        first = 6 + 8 if n == 'OP_SWITCH' else 20
        stride = 12 if n == 'OP_SWITCH' else 4
        cnt = w.num(bs, t, 2) if n == 'OP_SWITCH' else bs.simp(w.num(bs, t + 8, 8) - w.num(bs, t, 8) + 1)
        dflt = target(bs, t + d)
        good = False
        why = 'no loop over the targets was found'
        for li in w.inner:
            # a loop that looks at one target per iteration, in order
            ok = bool(li.backs); K = A(li.k)
            for first_, n_ in ((first, cnt), (d, cnt + 1)):
                if first_ == d and n == 'OP_SWITCH': continue
                each = bool(li.backs)
                for s2, m2 in li.backs:
                    if s2.infeasible(): continue
                    t2 = s2.simp(x + 7 + w.num(s2, x + 3, 4))
                    each = each and target(s2, s2.simp(t2 + first_ + K.scale(stride)))
                if each:
                    why = 'not every target of the table is looked at'
                    if bs.prove(K - n_):
                        good = True
                        if first_ == d: dflt = True
        if bs.prove(cnt.scale(-1)): good = True
        w.need(dflt, '%s: a default target outside the program is accepted' % n, bs)
        w.need(good, '%s: a case target outside the program is accepted (%s)' % (n, why), bs)


def own(w, a):
    """a value read from a local object of the verifier"""
    k = a.key
    return k[0] == 'in' and k[2] != w.bc.id


def eqs(st, a):
    """terms equal to the position on this path"""
    out = []
    for f in st.facts:
        if any(z == a.id for z, _ in f.t) and st.decide_eq(f) is True: out.append(f)
    e = st.simp(A(a))
    out.append(e)
    return out


PROPS = {'C07': c07, 'C14': c14, 'C15': c15, 'C18': c18}
