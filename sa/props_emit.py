"""Property simulation of the parser: what the declarations of a schema compile to."""
import multiprocessing, os, sys
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
from . import props_cc, emit, fields, exprs, branch, decls, prims
from .ir import AnalysisError
from .report import Result

MODEL = ('trusted: clang, LLVM assembler text, the engine; models of the parser primitives (token stream, keyword comparison, number parsing; what the code buffer, the name tables and match_keyword do is checked apart); '
         'a path that reports a parser error is dropped because the compiler then writes no image')
_m = None


def one(job):
    sys.setrecursionlimit(20000)
    kind, name = job
    try:
        if kind == 'expr':
            c = exprs.Expr(_m, name[2]); c.run(name[0], list(name[1]))
            return (job, None, dict(viol=c.viol, n=c.n, sites=sorted(c.sites), steps=c.esp.steps, maxq=c.esp.maxq, seen=sorted(c.seen), infix=c.infix, stops=c.stops, rets=c.rets, nsub=c.nsub))
        if kind in ('field', 'branch', 'decl', 'prim'):
            c = getattr({'field': fields, 'branch': branch, 'decl': decls, 'prim': prims}[kind], name)(_m); c.run()
        else:
            c = emit.Code(_m); c.root_run(name)
        return (job, None, dict(viol=c.viol, n=c.n, sites=sorted(c.sites), steps=c.esp.steps, maxq=c.esp.maxq, seen=sorted(c.esp.seen)))
    except AnalysisError as e: return (job, str(e), None)
    except RecursionError: return (job, 'recursion too deep', None)


def run(jobs, what):
    global _m
    _m = props_cc.cc(); emit.konst(); emit.V.opcode_table()
    res = Result('proof', what)
    ctx = multiprocessing.get_context('fork')
    try:
        with ProcessPoolExecutor(min(len(jobs), os.cpu_count() or 4), ctx) as p: out = list(p.map(one, jobs))
    except BrokenProcessPool: raise AnalysisError('an analysis process ended unexpectedly')
    sites = set(); steps = 0; fns = set(); empty = []
    for job, err, r in out:
        if err and job[0] == 'prim': empty.append('%s: not judged: %s' % (job[1], err)); continue
        if err: raise AnalysisError('%s: %s' % (job[1], err))
        sites |= set(r['sites']); steps += r['steps']; fns |= set(r['seen'])
        res.obligations += r['n']
        if job[0] != 'code' and not r['n']: raise AnalysisError('%s: nothing was analysed' % job[1])
        for (rule, k), (msg, loc) in r['viol'].items():
            res.ob(False, rule, msg, loc, ('projection %s' % job[1],), '%s|%s|%s' % (job[1], rule, k if rule != 'layout' else msg))
    res.coverage = {'emission_sites': len(sites), 'functions_followed': sorted(fns), 'property_states': steps, 'projections': ['%s %s' % j for j in jobs]}
    res.samples = sorted(sites)[:10]
    res.assumptions += empty
    res.trusted = [MODEL]
    return res


BYTES = [('prim', 'Bytes')]
BASE = BYTES + [('prim', 'Names')]
CODE = ('parse_if', 'parse_switch', 'parse_block', 'parse_primary', 'parse_unary', 'parse_binary', 'parse_grouping', 'parse_precedence', 'parse_expression', 'parse_struct', 'parse_packet', 'parse_enum', 'parse_import', 'parse_top_level')


def c20(tier):
    cc = props_cc.cc()
    return run([('field', 'Layout')] + [('code', f) for f in CODE if f in cc.functions and not cc.functions[f].decl] + BYTES, 'every path of the parser emits whole instructions: opcode of the VM, operands of the size the VM reads, counts equal to the values that follow, type operands the VM accepts')


def c21(tier):
    return run([('field', n) for n in ('Plain', 'Special', 'Kinds', 'Nested')] + BASE, 'the instruction that moves the value of a field, its type operand, key, constant and width compared with the declaration on every path')


def c22(tier):
    return run([('field', n) for n in ('Arrays', 'Strings')] + BASE, 'array headers, ends and string instructions compared with the declaration on every path')


def c23(tier):
    return run([('field', n) for n in ('Endian', 'Markers', 'Transforms', 'Ranges', 'Crc', 'CrcInit', 'CrcXor', 'CrcFlags', 'Exprs')] + BASE, 'instructions emitted for decorators, their operands and their place compared with the declaration on every path')


def c25(tier):
    return run([('branch', n) for n in ('Switch', 'If', 'Ctl')] + BASE, 'jumps and tables of if and switch: where every path of the parser makes them lead')


def c26(tier):
    return run([('decl', n) for n in ('Struct', 'Unaligned', 'Packet', 'Block', 'Import', 'Top', 'Enum')] + BASE, 'what the parser of every declaration registers, emits and leaves behind, on every path')


def c24(tier):
    global _m
    _m = props_cc.cc(); emit.konst(); emit.V.opcode_table()
    fn, types = exprs.discover(_m)
    res = Result('proof', 'every path of the expression parser, with the code it emits executed on a symbolic operand stack, for every binding strength an operand is parsed with')
    if fn is None:
        for (rule, w), (msg, loc) in types.items(): res.ob(False, rule, msg, loc, (), '%s|%s' % (rule, w))
        return res
    ctx = multiprocessing.get_context('fork')
    for job in BASE:
        _, err, r = one(job)
        if err: res.assumptions.append('%s: not judged: %s' % (job[1], err)); continue
        res.obligations += r['n']
        for (rule, w), (msg, loc) in r['viol'].items(): res.ob(False, rule, msg, loc, (), '%s|%s' % (rule, w))
    root = (exprs.ROOT, ()); todo = {root}; out = []; got = {}
    while todo:
        jobs = [('expr', k + (types,)) for k in sorted(todo)]
        try:
            with ProcessPoolExecutor(os.cpu_count() or 4, ctx) as p: o = list(p.map(one, jobs))
        except BrokenProcessPool: raise AnalysisError('an analysis process ended unexpectedly')
        for job, err, r in o:
            if err: raise AnalysisError('%s: %s' % (job[1][0] + ''.join(' %d' % x for x in job[1][1]), err))
            got[job[1][:2]] = r; out.append((job[1], r))
        todo = {key(L) for _, r in out for _, _, L in r['nsub']} - set(got)
    sites = set(); steps = 0; fns = set()
    for k, r in out:
        sites |= set(r['sites']); steps += r['steps']; fns |= set(r['seen']); res.obligations += r['n']
        if not r['n']: raise AnalysisError('%s: nothing was analysed' % (k[0] + ''.join(' %d' % x for x in k[1])))
        for (rule, w), (msg, loc) in r['viol'].items(): res.ob(False, rule, msg, loc, (), '%s|%s' % (rule, w))
        for t, v in sorted(r['rets'].items()): res.ob(v == {types.get(t)}, 'type', 'an expression of type %s is reported as %s' % (t, sorted(str(x) for x in v)), fn, (), 'type|' + t)
        both = r['infix'] & r['stops']
        if not r['viol']: res.ob(not both, 'strength', 'operator %s is sometimes left for the caller and sometimes not' % ', '.join(sorted(both)), fn, (), 'both|' + ','.join(sorted(both)))
    for k, r in out:
        for (who, rank, L), loc in sorted(r['nsub'].items(), key=str):
            want = set() if who == 'unary' else {t for t in exprs.RANK if rank is None or exprs.RANK[t] > rank}
            for t in sorted(got[key(L)]['infix'] ^ want):
                x = exprs.SYM[t]; y = ' or '.join(exprs.SYM[o] for o in exprs.RANK if exprs.RANK[o] == rank) if rank is not None else 'the unary operator' if who == 'unary' else '( )'
                res.ob(False, 'strength', ('the operand of %s takes in the operator %s' if t not in want else 'the operand of %s ends in front of the operator %s') % (y, x), loc, (), 'strength|%s|%s' % (y, x))
            res.ob(True, 'strength', '', '')
    miss = set(exprs.RANK) - got[root]['infix']
    res.ob(not miss or bool(res.findings), 'operator', 'operators not recognised: %s' % ', '.join(exprs.SYM[t] for t in sorted(miss)), exprs.ROOT, (), 'operators')
    res.coverage = {'emission_sites': len(sites), 'functions_followed': sorted(fns), 'property_states': steps, 'binding_strengths': [k[0] + ''.join(' %d' % x for x in k[1]) for k, _ in out]}
    res.samples = sorted(sites)[:10]
    res.trusted = [MODEL]
    return res


def key(L): return (exprs.ROOT, ()) if L[0] == 'expr' else (L[1], tuple(L[2:]))


PROPS = {'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25, 'C26': c26}
