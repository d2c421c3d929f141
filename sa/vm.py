"""Abstract interpretation of the VM: one generic iteration of the dispatch loop, per opcode.

The header of the dispatch loop is described by an invariant INV over the context (position inside the data,
instruction position inside the bytecode, stack depths, state enums).  We show that cnd_init establishes INV,
and for every opcode byte 0..255 we enumerate all abstract paths of one iteration from an arbitrary INV state;
every back edge must re-establish INV (so the result covers every program, input, and history of any length).
The per-path summaries (callbacks, data reads/writes, final context, result code) are handed to the rules
(vmrules.py)."""
import os, sys, time, traceback
from . import ir
from .ir import AnalysisError
from .engine import *
from .dom import *
from . import dom

CTX_FIELDS = ['mode', 'program', 'data_buffer', 'data_len', 'io_callback', 'user_ptr', 'ip', 'cursor', 'bit_offset', 'endianness',
              'trans_type', 'trans_f_factor', 'trans_f_offset', 'trans_i_val', 'trans_poly_data', 'trans_poly_count',
              'trans_spline_data', 'trans_spline_count', 'is_next_optional', 'loop_stack', 'loop_depth', 'expr_stack', 'expr_sp']
PROG_FIELDS = ['bytecode', 'bytecode_len', 'string_table', 'string_count']
ERRS = ['OK', 'OOB', 'INVALID_OP', 'VALIDATION', 'CALLBACK', 'STACK_OVERFLOW', 'STACK_UNDERFLOW', 'CRC_MISMATCH', 'ARITHMETIC']


class IT:
    """integer type stand-in"""
    def __init__(s, size): s.k = 'int'; s.w = 8 * size; s.size = size


T1, T2, T4, T8 = IT(1), IT(2), IT(4), IT(8)
TS = {1: T1, 2: T2, 4: T4, 8: T8}


class TPtr: k = 'ptr'; w = 64; size = 8
class TDbl: k = 'double'; w = 0; size = 8


def opcode_table():
    """every OP_* macro of the public header -> value"""
    import re
    h = open(os.path.join(ir.REPO, 'include/concordia.h')).read()
    names = re.findall(r'^\s*#\s*define\s+(OP_[A-Z0-9_]+)\s', h, re.M)
    if len(names) < 60: raise AnalysisError('opcode macros not found in include/concordia.h (%d)' % len(names))
    return ir.probe_consts({n: n for n in names})


class VM:
    def __init__(self):
        self.m = ir.build(ir.src_list('vm'), 'vm')
        ex = {}
        for f in CTX_FIELDS:
            ex['o_' + f] = 'offsetof(cnd_vm_ctx,%s)' % f
            ex['s_' + f] = 'sizeof(((cnd_vm_ctx*)0)->%s)' % f
        for f in PROG_FIELDS:
            ex['po_' + f] = 'offsetof(cnd_program,%s)' % f
            ex['ps_' + f] = 'sizeof(((cnd_program*)0)->%s)' % f
        for f in ('start_ip', 'remaining'):
            ex['lo_' + f] = 'offsetof(cnd_loop_frame,%s)' % f
            ex['ls_' + f] = 'sizeof(((cnd_loop_frame*)0)->%s)' % f
        ex['frame'] = 'sizeof(cnd_loop_frame)'
        ex['ctx'] = 'sizeof(cnd_vm_ctx)'; ex['prog'] = 'sizeof(cnd_program)'
        for e in ERRS: ex['E_' + e] = 'CND_ERR_' + e
        ex.update(ENC='CND_MODE_ENCODE', DEC='CND_MODE_DECODE', LE='CND_LE', BE='CND_BE',
                  LDEPTH='CND_MAX_LOOP_DEPTH', SDEPTH='CND_MAX_EXPR_STACK',
                  TR_NONE='CND_TRANS_NONE', TR_SCALE='CND_TRANS_SCALE_F64', TR_ADD='CND_TRANS_ADD_I64', TR_SUB='CND_TRANS_SUB_I64',
                  TR_MUL='CND_TRANS_MUL_I64', TR_DIV='CND_TRANS_DIV_I64', TR_POLY='CND_TRANS_POLY', TR_SPLINE='CND_TRANS_SPLINE')
        self.c = ir.probe_consts(ex)
        self.ops = opcode_table()
        self.opname = {}
        for n, v in self.ops.items(): self.opname.setdefault(v, n)
        self.errname = {self.c['E_' + e]: e for e in ERRS}
        self.exec_fn = self.m.functions.get('cnd_execute')
        if self.exec_fn is None or self.exec_fn.decl: raise AnalysisError('cnd_execute not found')

    def has_indirect(self, fn, blocks=None, seen=None):
        seen = seen if seen is not None else set()
        for b in (blocks if blocks is not None else fn.blocks):
            for i in b.insts:
                if i.op == 'call':
                    if isinstance(i.x, (ir.Inst, ir.Arg)): return True
                    n = getattr(i.x, 'name', None)
                    f = self.m.functions.get(n)
                    if f is not None and not f.decl and n not in seen:
                        seen.add(n)
                        if self.has_indirect(f, None, seen): return True
        return False


class Run:
    """one abstract run of the dispatch loop body"""
    def __init__(self, vm, opcode, variant='data', fix=None):
        self.fix = fix or {}
        self.vm = vm
        self.k = opcode
        self.variant = variant
        self.touched_cal = False
        c = vm.c
        en = self.en = Engine(vm.m)
        self.prog = Region('program', Lin(c['prog']), const=True)
        self.bl = fresh('bytecode_len', 64, 1, 1 << 62)
        self.dl = fresh('data_len', 64, 0, 1 << 62)
        self.bc = Region('bytecode', A(self.bl), bytes=True, const=True)
        self.data = Region('data', A(self.dl), bytes=True)
        self.prog.init = {c['po_bytecode']: (8, P(self.bc, ZERO)), c['po_bytecode_len']: (8, I(64, A(self.bl)))}
        self.ctx = Region('ctx', Lin(c['ctx']))
        self.ctx.init = {c['o_program']: (8, P(self.prog, ZERO)), c['o_data_buffer']: (8, P(self.data, ZERO)),
                         c['o_data_len']: (8, I(64, A(self.dl))), c['o_io_callback']: (8, Fn('@cb')),
                         c['o_user_ptr']: (8, Opq(('user_ptr',)))}
        en.models['@cb'] = self.callback
        en.models['@load'] = self.on_load
        en.models['@store'] = self.on_store
        en.models['@memcpy'] = self.on_memcpy
        en.loop_hint = self.loop_hint
        self.loops = []
        en.on_back = self.loops.append
        en.summary_region = self.data
        self.paths = []
        self.in_body = False
        self.entry_rets = []
        self.found_loop = False; self.poatom = None; self.calpos = {}; self.sigs = set()
        self.cbfail = None

    # ---------------------------------------------------------------- context cells
    def cell(self, st, f, ty=None):
        c = self.vm.c
        return self.en.cell(st, self.ctx, Lin(c['o_' + f]), c['s_' + f], ty or TS[c['s_' + f]])

    def U(self, st, v):
        if isinstance(v, B): v = self.en.b2i(st, v, 8)
        l = self.en.U(st, v)
        return st.simp(self.en.cond_int_simplify(st, l))

    def val(self, st, f): return self.U(st, self.cell(st, f))

    # ---------------------------------------------------------------- hooks
    def callback(self, en, st, ins, args):
        if len(args) != 4: raise AnalysisError('io_callback called with %d arguments at %s' % (len(args), ins.loc()))
        ctxp, key, op, ptr = args
        ev = {'t': 'cb', 'loc': ins.loc(), 'key': self.U(st, key), 'op': self.U(st, op), 'ptr': ptr, 'before': None, 'after': None,
              'ip': self.val(st, 'ip') , 'cur': self.val(st, 'cursor'), 'bo': self.val(st, 'bit_offset')}
        en.oblig('cbctx', ins, st, isinstance(ctxp, P) and ctxp.r is self.ctx and ctxp.o == ZERO, 'callback not given the context it runs on')
        rc = A(fresh('cbrc', 32))
        ev['rc'] = rc
        ev['st'] = st.fork()
        if isinstance(ptr, P):
            if ptr.r is self.data:
                ev['space'] = 'data'; ev['off'] = st.simp(ptr.o)
                # the host may fill the rest of the buffer from here (it cannot run past the end it was given)
                en.havoc(st, self.data, ptr.o, None)
            elif ptr.r is self.ctx or ptr.r is self.bc:
                ev['space'] = ptr.r.name
            else:
                n = ptr.r.size.c if ptr.r.size is not None and ptr.r.size.isc() else None
                ev['space'] = 'local'; ev['size'] = n
                if n in TS:
                    ty = TS[n]
                    cur = en.cell(st, ptr.r, ptr.o, n, None)
                    ev['raw'] = cur
                    ev['before'] = self.U(st, en.cell(st, ptr.r, ptr.o, n, ty)) if cur is not NULL else NULL
                    en.havoc(st, ptr.r)
                    if cur is NULL:
                        # a string: the host hands out a terminated string or null
                        sl = fresh('hoststrlen', 64, 0, 1 << 61)
                        hr = Region('hoststr', A(sl) + 1, bytes=True, const=True, nullable=True, kind='ext'); hr.tag = 'cstr'
                        a = en.models['strlen']
                        ev['str'] = hr
                        en.write(st, ptr.r, ptr.o, 8, P(hr, ZERO))
                        ev['after'] = P(hr, ZERO)
                    else:
                        a = fresh('host', 8 * n)
                        en.write(st, ptr.r, ptr.o, n, I(8 * n, A(a)))
                        ev['after'] = A(a)
                else:
                    en.havoc(st, ptr.r)
        elif ptr is NULL: ev['space'] = 'null'
        else: ev['space'] = '?'
        st.log(ev)
        out = []
        ok = st.fork()
        if ok.assume(rc) and ok.assume(rc.scale(-1)): out.append((ok, I(32, rc)))
        st.assume(rc - 1)
        out.append((st, I(32, rc)))
        return out

    def on_load(self, en, st, ins, p, size, v):
        if not self.in_body: return
        if p.r is self.ctx:
            c = self.vm.c
            o = st.simp(p.o)
            b = o - c['o_loop_stack']
            lo, hi = st.rng(b)
            if lo >= 0 and hi < c['s_loop_stack'] and size == c['ls_start_ip'] and all(k % c['frame'] == 0 for _, k in b.t) and b.c % c['frame'] == c['lo_start_ip']:
                if isinstance(v, I): st.assume(A(self.bl) - self.U(st, v))
            if o.isc() and o.c in (c['o_trans_poly_data'], c['o_trans_poly_count'], c['o_trans_spline_data'], c['o_trans_spline_count']):
                self.touched_cal = True
        elif p.r is self.data:
            st.log({'t': 'rd', 'r': p.r, 'off': st.simp(p.o), 'n': Lin(size), 'loc': ins.loc()})

    def on_store(self, en, st, ins, p, size, v):
        if p.r is self.data:
            self.data_write(en, st, ins, p.o, Lin(size))
            st.log({'t': 'wr', 'off': st.simp(p.o), 'n': Lin(size), 'val': v, 'loc': ins.loc()})
        elif p.r is self.ctx:
            c = self.vm.c
            o = st.simp(p.o)
            if self.in_body: st.log({'t': 'cw', 'off': o, 'n': size, 'val': v, 'loc': ins.loc()})
            b = o - c['o_loop_stack']
            lo, hi = st.rng(b)
            if lo >= 0 and hi < c['s_loop_stack'] and size == c['ls_start_ip'] and all(k % c['frame'] == 0 for _, k in b.t) and b.c % c['frame'] == c['lo_start_ip']:
                ok = isinstance(v, I) and st.prove(A(self.bl) - self.U(st, v))
                en.oblig('inv', ins, st, ok, lambda: 'loop start position %r not provably inside the bytecode' % (v,))
            if o.isc() and o.c in (c['o_program'], c['o_data_buffer'], c['o_data_len'], c['o_io_callback'], c['o_mode'], c['o_user_ptr']) and self.in_body:
                en.oblig('config', ins, st, False, 'instruction modifies the configuration of the context')

    def data_write(self, en, st, ins, off, n):
        if not self.in_body: return
        en.oblig('wrmode', ins, st, st.decide_eq(self.h0['mode'] - self.vm.c['ENC']) is True, 'message buffer modified while not encoding')
        en.oblig('wrback', ins, st, st.prove(off - self.h0['cursor']), 'write before the current position of the message')

    def on_memcpy(self, en, st, ins, d, s, n):
        if isinstance(d, P) and d.r is self.data:
            self.data_write(en, st, ins, d.o, n)
            st.log({'t': 'wr', 'off': st.simp(d.o), 'n': n, 'src': s, 'loc': ins.loc()})
        if isinstance(s, P) and s.r is self.data:
            st.log({'t': 'rd', 'off': st.simp(s.o), 'n': n, 'loc': ins.loc()})
        if isinstance(d, P) and d.r is self.ctx and self.in_body:
            st.log({'t': 'cw', 'off': st.simp(d.o), 'n': st.simp(n).c if st.simp(n).isc() else None, 'val': None, 'loc': ins.loc()})

    # ---------------------------------------------------------------- the dispatch loop
    def inv_facts(self, st, g):
        """INV as linear facts; g(field)->Lin"""
        c = self.vm.c
        cur, bo = g('cursor'), g('bit_offset')
        out = [('position', A(self.dl).scale(8) - cur.scale(8) - bo), ('bit offset', Lin(7) - bo), ('bit offset', bo), ('cursor', cur),
               ('loop depth', Lin(c['LDEPTH']) - g('loop_depth')), ('stack depth', Lin(c['SDEPTH']) - g('expr_sp')),
               ('endianness', Lin(1) - g('endianness')), ('transform', Lin(7) - g('trans_type')), ('optional flag', Lin(1) - g('is_next_optional')),
               ('instruction index', A(self.bl) - g('ip')), ('mode', Lin(1) - g('mode'))]
        return out

    def cal_ok(self, st):
        """calibration tables referenced by the context lie inside the bytecode"""
        en = self.en
        for f, n in (('trans_poly', 8), ('trans_spline', 16)):
            p = self.cell(st, f + '_data', TPtr)
            k = self.val(st, f + '_count')
            if p is NULL:
                if not (k.isc() and k.c == 0): return False
            elif isinstance(p, P) and p.r is self.bc:
                if not (st.prove(p.o) and st.prove(A(self.bl) - p.o - k.scale(n))): return False
            else: return False
        return True

    def loop_hint(self, en, fn, loop, items):
        if self.in_body or self.found_loop: return None
        if not self.vm.has_indirect(fn, loop.blocks): return None
        self.found_loop = True
        en.no_ret_join.update(en.m.functions[n] for n in en.inline_stack if n in en.m.functions)
        h = loop.header
        phis = h.insts[:h.nphi]
        # entry states establish INV
        pcs = {}
        for (s, e, prev) in items:
            e0 = en.phis(h, s, e, prev)
            self.check_inv(en, s, e0, phis, h, 'entry')
        exits = []
        self.in_body = True
        for (s, e, prev) in items:
            e0 = en.phis(h, s, e, prev)
            # loop-invariant values that differ between the ways into the loop are analysed one by one
            sig = tuple(sorted((getattr(x, 'id', 0), repr(v)) for x, v in e0.items() if x not in phis and isinstance(x, Inst)))
            if sig in self.sigs: continue
            self.sigs.add(sig)
            exits += self.body(en, fn, loop, h, phis, s, e0)
        self.in_body = False
        return {'exit': exits, 'ret': []}

    def body(self, en, fn, loop, h, phis, s, e0):
        st = State()
        st.gh = {}
        env = dict(e0)
        if self.poatom is None: self.poatom = fresh('pc', 64, 0, 1 << 62)
        po = self.poatom
        self.po = A(po)
        pcphi = None
        ipc = self.val(s, 'ip')
        for ph in phis:
            v = e0[ph]
            if isinstance(v, P) and v.r is self.bc and pcphi is None:
                pcphi = ph
                env[ph] = P(self.bc, A(po))
            elif isinstance(v, P):
                a = fresh('hphi', 64, -(1 << 62), 1 << 63)
                env[ph] = P(v.r, A(a))
            elif isinstance(v, I):
                a = fresh('hphi', v.w)
                env[ph] = I(v.w, A(a))
                if pcphi is None and v.w == 64 and v.l == ipc:
                    pcphi = ph; env[ph] = I(64, A(po))
            elif isinstance(v, B): env[ph] = B(('key', ('hphi', fresh('hphi', 1).id)))
            elif isinstance(v, F): env[ph] = F(('fresh', 'hphi', fresh('hphi', 64).id))
            else: env[ph] = Opq(('hphi', fresh('hphi', 1).id))
        self.pcphi = pcphi
        st.assume(A(self.bl) - A(po))
        # ctx: arbitrary values satisfying INV
        self.h0 = {}
        for f in ('cursor', 'bit_offset', 'loop_depth', 'expr_sp', 'endianness', 'trans_type', 'is_next_optional', 'ip', 'mode'):
            if f == 'ip' and pcphi is None:
                en.write(st, self.ctx, Lin(self.vm.c['o_ip']), 8, I(64, A(po)))
            self.h0[f] = self.val(st, f)
        for nm, l in self.inv_facts(st, lambda f: self.h0[f]):
            if not st.assume(l): raise AnalysisError('inconsistent invariant ' + nm)
        for f, v in self.fix.items():
            if not (st.assume(self.h0[f] - v) and st.assume(Lin(v) - self.h0[f])): raise AnalysisError('cannot fix ' + f)
        self.h0 = {f: st.simp(l) for f, l in self.h0.items()}
        c = self.vm.c
        if self.variant == 'data':
            for f, n in (('trans_poly', 8), ('trans_spline', 16)):
                a = self.calpos.get(f)
                if a is None: a = self.calpos[f] = fresh(f + '_pos', 64, 0, 1 << 62)
                k = self.val(st, f + '_count')
                en.write(st, self.ctx, Lin(c['o_%s_data' % f]), 8, P(self.bc, A(a)))
                self.h0[f] = A(a)
                st.assume(A(self.bl) - A(a) - k.scale(n))
        else:
            for f in ('trans_poly', 'trans_spline'):
                en.write(st, self.ctx, Lin(c['o_%s_data' % f]), 8, NULL)
                en.write(st, self.ctx, Lin(c['o_%s_count' % f]), 1, I(8, ZERO))
        # the opcode byte
        if self.k is not None:
            op = en.cell(st, self.bc, A(po), 1, T1)
            a = op.l.single()
            st.bnd[a.id] = (self.k, self.k)
            st.assume(A(self.bl) - A(po) - 1)
            self.opatom = a
        else:
            # end of program
            st.assume(A(po) - A(self.bl))
        self.s0 = st.fork()
        res = en.run_region(fn, h, [(st, env, None)], loop)
        for (s, e, frm) in res['back']:
            be = en.phis(h, s, e, frm)
            self.check_inv(en, s, be, phis, h, 'back')
            self.paths.append(self.summary(s, 'next', None, be))
        for (s, v) in res['ret']:
            self.paths.append(self.summary(s, 'ret', self.U(s, v), None))
        return res['exit']

    def pc_of(self, st, env):
        if self.pcphi is None: return self.val(st, 'ip')
        v = env[self.pcphi]
        if isinstance(v, P) and v.r is self.bc: return st.simp(v.o)
        if isinstance(v, I): return self.U(st, v)
        return None

    def check_inv(self, en, st, env, phis, h, where):
        ins = h.insts[0]
        for ph in phis:
            v = env[ph]
            if isinstance(v, P) and v.r is self.bc:
                ok = st.prove(v.o) and st.prove(A(self.bl) - v.o)
                self.inv(en, ins, st, ok, lambda: 'next instruction position %r outside the bytecode' % st.simp(v.o), where)
        for nm, l in self.inv_facts(st, lambda f: self.val(st, f)):
            ok = st.prove(l)
            self.inv(en, ins, st, ok, lambda: '%s out of its valid range after the instruction (%r)' % (nm, st.simp(l)), where)
        self.inv(en, ins, st, self.cal_ok(st), 'calibration table not inside the bytecode', where)
        if where == 'entry':
            for f, v in (('cursor', 0), ('bit_offset', 0), ('loop_depth', 0), ('expr_sp', 0)):
                pass

    def inv(self, en, ins, st, ok, detail, where):
        d = detail() if callable(detail) else detail
        key = ('inv:' + where, self.last_loc(st, ins), hash(d.split('(')[0]) if not ok else 0)
        e = en.obls.get(key)
        if e is None: e = en.obls[key] = [0, 0, None, 'cnd_execute']
        if ok: e[0] += 1
        else:
            e[1] += 1
            if e[2] is None: e[2] = (d, st.trace()[-14:], None, st)

    def last_loc(self, st, ins):
        t = st.trace()
        for x in reversed(t):
            return '%s:%s' % (os.path.basename(str(x[0])), x[1])
        return ins.loc()

    def summary(self, st, kind, ret, env):
        return Path(self, st, kind, ret, env)

    def go(self):
        """run cnd_init + cnd_execute"""
        en = self.en
        st = State()
        c = self.vm.c
        fn = self.vm.exec_fn
        init = self.vm.m.functions.get('cnd_init')
        if init is None or init.decl: raise AnalysisError('cnd_init not found')
        # context storage before cnd_init is arbitrary
        self.ctx0 = self.ctx.init; self.ctx.init = {}
        mode = A(fresh('mode', 32, 0, 1))
        en.rec, r = False, None
        en.rec = True
        outs = en.run_function(init, [P(self.ctx, ZERO), I(32, mode), P(self.prog, ZERO), P(self.data, ZERO), I(64, A(self.dl)), Fn('@cb'), Opq(('user_ptr',))], st)
        self.ctx.init = self.ctx0
        self.inited = outs
        exits = []
        for (s, _) in outs:
            self.found_loop = False
            for (s2, v) in en.run_function(fn, [P(self.ctx, ZERO)], s):
                exits.append((s2, v))
        if not self.found_loop: raise AnalysisError('dispatch loop of cnd_execute not found')
        # paths that left the loop normally
        for (s2, v) in exits:
            self.paths.append(self.summary(s2, 'ret', self.U(s2, v), None))
        return self


class Path:
    def __init__(p, run, st, kind, ret, env):
        p.run = run; p.st = st; p.kind = kind; p.ret = ret
        p.pc = run.pc_of(st, env) if env is not None else None
        p.ev = [e for e in st.events() if isinstance(e, dict)]
        p.other = [e for e in st.events() if not isinstance(e, dict)]
        p.cbs = [e for e in p.ev if e['t'] == 'cb']
        p.wr = [e for e in p.ev if e['t'] == 'wr']
        p.rd = [e for e in p.ev if e['t'] == 'rd']
        p.cw = [e for e in p.ev if e['t'] == 'cw']

    @property
    def loc(p):
        t = p.st.trace()
        return '%s:%s' % (str(t[-1][0]), t[-1][1]) if t else 'src/vm/vm_exec.c'

    def f(p, name): return p.run.val(p.st, name)

    def retname(p):
        if p.kind == 'next': return 'next'
        if p.ret.isc(): return p.run.vm.errname.get(p.ret.c, str(p.ret.c))
        return repr(p.ret)


def analyse(vm, opcode, fix=None):
    r = Run(vm, opcode, 'data', fix).go()
    runs = [r]
    if r.touched_cal: runs.append(Run(vm, opcode, 'null', fix).go())
    return runs
