"""Properties of the runtime, decided on the abstract paths of the VM's dispatch loop."""
import multiprocessing as mp, os, time, traceback
from collections import Counter
from .report import Result
from .ir import AnalysisError
from . import vm as V, vmspec as S

_vm = None


def vm():
    global _vm
    if _vm is None: _vm = V.VM()
    return _vm


def _work(a):
    k, aspects, kinds = a
    v = vm()
    out = []; n = Counter(); o = Counter(); fns = set(); npaths = 0; cb = 0
    try:
        name = v.opname.get(k, '0x%02X' % k)
        for r, c in S.check_opcode(v, k):
            npaths += len(r.paths); fns |= set(r.en.fns_seen)
            for a_, m in c.n.items():
                if a_ in aspects: n[a_] += m
            for x in c.viol:
                if x.aspect in aspects: out.append((x.aspect, '%s: %s' % (name, x.msg[:600]), x.loc, x.trace, '%s|%s|%s' % (name, x.aspect, generic(x.msg))))
            for (kd, loc, i), (ok, bad, ex, fn) in r.en.obls.items():
                if kd in kinds:
                    o[kd] += ok + bad
                    if bad: out.append((kd, '%s: %s' % (name, str(ex[0])[:600]), loc, ex[1][-12:] if len(ex) > 1 and isinstance(ex[1], list) else [], '%s|%s|%s' % (name, kd, fn)))
        return k, n, o, out, fns, npaths, None
    except AnalysisError as e:
        return k, n, o, out, fns, npaths, '%s: %s' % (v.opname.get(k, k), e)
    except Exception:
        return k, n, o, out, fns, npaths, '%s: %s' % (v.opname.get(k, k), traceback.format_exc()[-1500:])


def generic(msg):
    import re
    return re.sub(r'[#\[\]{}()*+,:0-9]+', ' ', msg)[:80].strip()


def vmcheck(res, opcodes, aspects=(), kinds=(), budget=820):
    v = vm()
    t0 = time.time()
    tot = Counter(); ob = Counter(); fns = set(); paths = 0
    order = sorted(opcodes, key=lambda k: (k not in v.opname, k))
    with mp.Pool(min(8, os.cpu_count() or 1)) as pool:
        it = pool.imap_unordered(_work, [(k, frozenset(aspects), frozenset(kinds)) for k in order], 1)
        for _ in order:
            try: k, n, o, out, f, np_, err = it.next(timeout=max(1, budget - (time.time() - t0)))
            except mp.TimeoutError:
                res.errors.append('time budget exhausted'); pool.terminate(); break
            tot += n; ob += o; fns |= f; paths += np_
            if err: res.errors.append(err)
            for rule, msg, loc, tr, key in out:
                from .report import Finding
                res.findings.append(Finding(rule, msg, loc, tr, key))
    res.obligations += sum(tot.values()) + sum(ob.values())
    c = res.coverage
    c['opcodes_analysed'] = len(order)
    c['abstract_paths'] = c.get('abstract_paths', 0) + paths
    c['functions_analysed'] = sorted(set(c.get('functions_analysed', [])) | fns)
    c['obligations_by_rule'] = dict(Counter(c.get('obligations_by_rule', {})) + tot + ob)
    return res


def codes(names): return [vm().ops[n] for n in names if n in vm().ops]
ALL = range(256)


def simple(expl, ops, aspects, kinds=(), floor=1):
    def f(tier):
        r = Result('proof', expl)
        v = vm()
        o = list(ALL) if ops is None else codes(ops)
        vmcheck(r, o, aspects, kinds)
        if r.obligations < floor and not r.errors: r.errors.append('only %d obligations generated (expected at least %d)' % (r.obligations, floor))
        r.assumptions = ['context initialised by cnd_init and modified only by the runtime while it runs', 'the io callback is total: it may change the value it is handed but not the context']
        return r
    return f


MEM = ('mem', 'null', 'nul', 'inv', 'inv:back', 'inv:entry')
ARITH = ('shift', 'div0', 'divov', 'fptoint', 'nsw', 'uninit')
ARR = S.ARRS + ['OP_ARR_END']
CHECKS = ['OP_CONST_CHECK', 'OP_RANGE_CHECK', 'OP_ENUM_CHECK', 'OP_CRC_16', 'OP_CRC_32', 'OP_IO_BOOL', 'OP_IO_BIT_BOOL', 'OP_EMIT',
          'OP_EXIT_BIT_MODE', 'OP_STR_NULL']
ITEMS = list(S.PRIM) + list(S.FLT) + ['OP_IO_BOOL'] + S.BITS + ['OP_STR_NULL'] + list(S.STRP) + ['OP_RAW_BYTES', 'OP_CONST_CHECK', 'OP_CONST_WRITE',
        'OP_CRC_16', 'OP_CRC_32', 'OP_EMIT', 'OP_ALIGN_PAD', 'OP_ALIGN_FILL'] + S.ARRS
BRANCH = ['OP_JUMP', 'OP_JUMP_IF_NOT', 'OP_SWITCH', 'OP_SWITCH_TABLE']
NUM = list(S.PRIM) + list(S.FLT)
TRANS = ['OP_SCALE_LIN', 'OP_TRANS_ADD', 'OP_TRANS_SUB', 'OP_TRANS_MUL', 'OP_TRANS_DIV', 'OP_TRANS_POLY', 'OP_TRANS_SPLINE', 'OP_MARK_OPTIONAL']

PROPS = {
    'C01': simple('Every load, store and library access on every abstract path of one dispatch iteration, for each of the 256 opcode bytes, starting from an arbitrary '
                  'context satisfying the representation invariant; the invariant is re-established at every back edge.', None, (), MEM, 50000),
    'C02': simple('For every data instruction: success is only possible when the whole item fits into the message, the cursor advances by exactly the item size, and '
                  'out-of-bounds is only reported when the item does not fit.', ITEMS, ('advance', 'bounds', 'errcode'), (), 2000),
    'C03': simple('Message bytes and host value are related by the same width and byte order in both directions; nothing outside the item is written and decoding writes nothing.',
                  ITEMS + CHECKS, ('value', 'writes'), ('wrmode', 'wrback'), 2000),
    'C04': simple('Every continuing path has a successful host callback; every callback failure leads to CND_ERR_CALLBACK without any later write.', None, ('cbfail',), (), 1000),
    'C05': simple('Every checking instruction continues only if the checked relation is entailed on the path, and rejects only if its negation is.', CHECKS, ('gate', 'errcode'), (), 500),
    'C06': simple('Transform and optional markers are cleared by exactly the instructions that consume a data item and set only by their own instruction.',
                  None, ('modifier',), (), 2000),
    'C08': simple('Every division, shift, float-to-integer conversion and signed arithmetic instruction reachable from the dispatch loop.', None, (), ARITH, 2000),
    'C09': simple('Expression stack: concrete stack depths 0..limit times every opcode; pops and pushes checked against the depth.', S.STACK, ('stack', 'errcode', 'state'), (), 2000),
    'C10': simple('Array instructions: loop frame pushed/popped exactly, iteration counts, empty arrays, limits.', ARR, ('loop', 'pc', 'errcode', 'value', 'callback'), (), 500),
    'C11': simple('Every instruction whose operands do not fit is rejected before any effect; unassigned opcodes have no effect; the next instruction starts right after the operands.',
                  None, ('fetch', 'pc'), (), 5000),
    'C12': simple('Jump and switch targets are computed from the operands as documented and lie inside the program.', BRANCH, ('branch', 'pc', 'errcode', 'value', 'callback', 'key'), (), 300),
    'C13': simple('Result term of every arithmetic, bitwise, comparison and conversion instruction equals the reference term.', S.ALU + ['OP_PUSH_IMM', 'OP_POP', 'OP_SWAP', 'OP_DUP', 'OP_LOAD_CTX', 'OP_STORE_CTX', 'OP_EMIT'],
                  ('alu', 'value', 'errcode', 'gate'), (), 1000),
    'C16': simple('Integer and linear transforms: the value handed to the host when decoding and the bytes written when encoding equal the documented formulas.',
                  NUM + TRANS, ('transform', 'operand'), (), 500),
    'C17': simple('Number, order, key, type and storage of host callbacks of every instruction; context fields an instruction may change.', None, ('callback', 'key', 'state'), ('cbctx',), 10000),
}
