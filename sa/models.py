"""Models of external (libc / intrinsic) functions."""
from .ir import AnalysisError
from .dom import *
from . import dom
from .engine import *

MODELS = {}


def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d


@model('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.va_start', 'llvm.va_end', 'llvm.va_copy', 'llvm.stacksave', 'llvm.stackrestore')
def _nop(en, st, ins, args):
    return [(st, None if ins.ty.k == 'void' else en.fresh_of(ins.ty, 'nop'))]


def chunks(n):
    out = []
    o = 0
    while o < n:
        s = 8
        while s > n - o: s //= 2
        out.append((o, s)); o += s
    return out


def copy_const(en, st, ins, d, s, n):
    """copy n (small constant) bytes: keep stored cell granularity of the source when possible"""
    pieces = None
    if isinstance(s, P) and s.o.isc():
        rm = en.rm(st, s.r)
        L = rm.layers[-1]
        if isinstance(L, dict):
            cs = sorted((k, sz) for k, (sz, v) in L.items() if k < s.o.c + n and s.o.c < k + sz)
            pos = s.o.c
            ok = True
            for k, sz in cs:
                if k != pos or k + sz > s.o.c + n: ok = False; break
                pos = k + sz
            if ok and pos == s.o.c + n: pieces = [(k - s.o.c, sz) for k, sz in cs]
    if pieces is None: pieces = chunks(n)
    class T: pass
    vals = []
    for o, sz in pieces:
        v = None
        if isinstance(s, P) and s.o.isc():
            L = en.rm(st, s.r).layers[-1]
            if isinstance(L, dict):
                h = L.get(s.o.c + o)
                if h is not None and h[0] == sz: v = h[1]
        if v is None:
            t = T(); t.k = 'int'; t.w = sz * 8; t.size = sz
            v = en.load(st, ins, P(s.r, s.o + o), sz, t)
        vals.append((o, sz, v))
    for o, sz, v in vals:
        en.store(st, ins, P(d.r, d.o + o), sz, v)


@model('memcpy', 'memmove', 'llvm.memcpy', 'llvm.memmove', '__memcpy_chk')
def _memcpy(en, st, ins, args):
    d, s, n = args[0], args[1], args[2]
    l = st.simp(en.U(st, n))
    if l.isc() and l.c == 0: return [(st, d)]
    zero = st.decide_eq(l)
    # a zero-length copy never dereferences; otherwise both ends must be valid
    res = []
    outs = [st]
    if zero is None and (not isinstance(d, P) or not isinstance(s, P) or (isinstance(s, P) and s.r.nullable) or (isinstance(d, P) and d.r.nullable)):
        z = st.fork()
        if z.assume(l) and z.assume(l.scale(-1)): res.append((z, d))
        outs = [st] if st.assume_ne(l) else []
        l = st.simp(l)
    for st in outs:
        ok = en.check_access(st, ins, s, l, 'read')
        ok2 = en.check_access(st, ins, d, l, 'write')
        if not (ok and ok2 and isinstance(d, P)):
            res.append((st, d)); continue
        h = en.models.get('@memcpy')
        if h is not None: h(en, st, ins, d, s, l)
        if l.isc() and l.c <= 64 and isinstance(s, P):
            copy_const(en, st, ins, d, s, l.c)
        else:
            en.havoc(st, d.r, d.o, l)
            st.note[('copied', d.r.id)] = (s, d.o, l)
        res.append((st, d))
    return res


@model('memset', 'llvm.memset')
def _memset(en, st, ins, args):
    d, v, n = args[0], args[1], args[2]
    l = st.simp(en.U(st, n))
    if l.isc() and l.c == 0: return [(st, d)]
    if not en.check_access(st, ins, d, l, 'write'): return [(st, d)]
    b = st.simp(en.U(st, v)) if isinstance(v, I) else None
    if l.isc() and l.c <= 1024 and b is not None and b.isc():
        by = b.c & 255
        for o, sz in chunks(l.c):
            x = 0
            for i in range(sz): x |= by << (8 * i)
            en.store(st, ins, P(d.r, d.o + o), sz, NULL if False else I(sz * 8, Lin(x)))
    else:
        h = en.models.get('@memcpy')
        if h is not None: h(en, st, ins, d, None, l)
        en.havoc(st, d.r, d.o, l)
    return [(st, d)]


def strlen_atom(en, st, p):
    """length of the C string at p; valid as long as the region is not written"""
    rm = en.rm(st, p.r)
    a = atom(('strlen', p.r.id, p.o, len(rm.layers), dom_ver(rm)), 0, (1 << 62), 64)
    return a


def dom_ver(rm):
    n = 0
    for L in rm.layers:
        if isinstance(L, dict): n = n * 31 + len(L)
        else: n = n * 31 + L.id
    return n


@model('strlen')
def _strlen(en, st, ins, args):
    p = args[0]
    if not en.check_access(st, ins, p, 1, 'read') or not isinstance(p, P):
        return [(st, I(64, A(fresh('strlen', 64, 0, 1 << 62))))]
    a = strlen_atom(en, st, p)
    if p.r.size is not None:
        # needs a terminator inside the region
        nul = getattr(p.r, 'tag', None)
        ok = nul == 'cstr'
        en.oblig('nul', ins, st, ok, lambda: 'strlen of %r: no terminator guaranteed inside the region' % p)
        st.assume(p.r.size - p.o - A(a) - 1)
    return [(st, I(64, A(a)))]


@model('strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'strncasecmp', 'bcmp')
def _cmp(en, st, ins, args):
    n = None
    if len(args) > 2: n = st.simp(en.U(st, args[2]))
    for p in args[:2]:
        if ins.x.name in ('memcmp', 'bcmp'):
            if n.isc() and n.c == 0: continue
            en.check_access(st, ins, p, n, 'read')
        else:
            if en.check_access(st, ins, p, 1, 'read') and isinstance(p, P) and p.r.size is not None and p.r.kind != 'global':
                en.oblig('nul', ins, st, p.r.tag == 'cstr', lambda: '%s of %r: no terminator guaranteed inside the region' % (ins.x.name, p))
    # byte-exact result for small constant memcmp against a constant
    if ins.x.name in ('memcmp', 'bcmp') and n.isc() and n.c <= 16 and all(isinstance(p, P) for p in args[:2]):
        class T: k = 'int'; w = 8; size = 1
        conj = TRUE
        xs = []
        for i in range(n.c):
            x = en.load(st, ins, P(args[0].r, args[0].o + i), 1, T); y = en.load(st, ins, P(args[1].r, args[1].o + i), 1, T)
            xs.append((x, y))
        eq = st.fork()
        ok = True
        for x, y in xs:
            d = en.U(eq, x) - en.U(eq, y)
            if not (eq.assume(d) and eq.assume(d.scale(-1))): ok = False; break
        out = []
        if ok: out.append((eq, I(32, ZERO)))
        r = fresh('memcmp', 32, 1, (1 << 32) - 1)
        out.append((st, I(32, A(r))))
        return out
    k = (ins.x.name, tuple(repr(a) for a in args))
    a = atom(('cmpres', k), -(1 << 31), (1 << 31) - 1, 32)
    return [(st, I(32, A(a)))]


@model('memchr')
def _memchr(en, st, ins, args):
    p, c, n = args
    l = st.simp(en.U(st, n))
    if not (l.isc() and l.c == 0):
        z = st.decide_eq(l)
        if z is not True:
            s2 = st
            en.check_access(st, ins, p, l, 'read')
    if not isinstance(p, P): return [(st, en.fresh_of(ins.ty, 'memchr'))]
    out = []
    f = st.fork()
    a = A(fresh('memchr', 64, 0, 1 << 62))
    if f.assume(l - a - 1):
        f.note[('memchr', ins.id)] = True
        # the byte found has the searched value
        cb = st.simp(en.U(st, c)) if isinstance(c, I) else None
        if cb is not None and p.r.bytes:
            v = en.cell(f, p.r, p.o + a, 1, _T8_)
            d = v.l - extract(cb, 32, 0, 8)
            f.assume(d); f.assume(d.scale(-1))
        f.conds[('memchr_first', ins.id)] = (p, a, l)
        out.append((f, P(p.r, p.o + a)))
    st.conds[('memchr_none', ins.id)] = (p, l)
    out.append((st, NULL))
    return out


class _T8_:
    k = 'int'; w = 8; size = 1


def alloc(en, st, ins, size, zero):
    r = Region('heap@%s' % ins.loc(), size, nullable=True, kind='zero' if zero else 'heap')
    r.tag = ins
    if size is not None and not zero: r.kind = 'heap'
    return P(r, ZERO)


@model('malloc')
def _malloc(en, st, ins, args):
    return [(st, alloc(en, st, ins, en.U(st, args[0]), False))]


@model('calloc')
def _calloc(en, st, ins, args):
    a, b = st.simp(en.U(st, args[0])), st.simp(en.U(st, args[1]))
    if b.isc(): n = a.scale(b.c)
    elif a.isc(): n = b.scale(a.c)
    else: n = A(fresh('calloc', 64))
    return [(st, alloc(en, st, ins, n, True))]


@model('realloc')
def _realloc(en, st, ins, args):
    p = args[0]
    r = alloc(en, st, ins, en.U(st, args[1]), False)
    return [(st, r)]


@model('free')
def _free(en, st, ins, args):
    p = args[0]
    if isinstance(p, P):
        if ('freed', p.r.id) in st.conds:
            en.oblig('uaf', ins, st, False, lambda: 'double free of %r' % p)
        st.conds[('freed', p.r.id)] = True
    return [(st, None)]


def _fterm(name):
    def f(en, st, ins, args):
        ks = tuple(a.k if isinstance(a, F) else ('opq', a) for a in args)
        return [(st, F((name,) + ks))]
    return f


for n in ('fabs', 'floor', 'ceil', 'sin', 'cos', 'tan', 'sqrt', 'log', 'exp', 'round', 'trunc', 'rint', 'nearbyint'):
    MODELS[n] = _fterm(n)
    MODELS['llvm.' + n] = _fterm(n)
MODELS['pow'] = MODELS['llvm.pow'] = _fterm('pow')
MODELS['fmod'] = _fterm('frem')


@model('llvm.fmuladd', 'llvm.fma')
def _fma(en, st, ins, args):
    return [(st, F(('fadd', ('fmul', args[0].k, args[1].k), args[2].k)))]


@model('llvm.umul', 'llvm.uadd', 'llvm.usub', 'llvm.sadd', 'llvm.ssub', 'llvm.smul')
def _ovf(en, st, ins, args):
    ty = ins.ty
    x, y = args
    nm = ins.x.name
    w = ty.elts[0].w
    if 'add' in nm or 'sub' in nm or 'mul' in nm:
        sgn = nm.split('.')[1][0] == 's'
        a = en.S(st, x) if sgn else en.U(st, x)
        b = en.S(st, y) if sgn else en.U(st, y)
        lo_, hi_ = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sgn else (0, (1 << w) - 1)
        if a is not None and b is not None:
            r = None
            if 'add' in nm: r = a + b
            elif 'sub' in nm: r = a - b
            elif a.isc(): r = b.scale(a.c)
            elif b.isc(): r = a.scale(b.c)
            if r is not None:
                out = []
                s2 = st.fork(); s3 = st.fork()
                if st.assume(r - lo_) and st.assume(Lin(hi_) - r):
                    out.append((st, Agg((I(w, r), FALSE))))
                if s2.assume(r - hi_ - 1): out.append((s2, Agg((I(w, extract(r, w, 0, w)), TRUE))))
                if s3.assume(Lin(lo_ - 1) - r): out.append((s3, Agg((I(w, extract(r, w, 0, w)), TRUE))))
                return out
    a = A(fresh('ovf', w))
    s2 = st.fork()
    return [(st, Agg((I(w, a), FALSE))), (s2, Agg((I(w, A(fresh('ovf', w))), TRUE)))]


@model('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')
def _minmax(en, st, ins, args):
    x, y = args
    nm = ins.x.name.split('.')[1]
    c = en.icmp(st, 'ult' if nm[0] == 'u' else 'slt', x, y)
    s2 = st.fork()
    out = []
    for s in en.assume(st, c, True): out.append((s, x if 'min' in nm else y))
    for s in en.assume(s2, c, False): out.append((s, y if 'min' in nm else x))
    return out


@model('llvm.abs')
def _abs(en, st, ins, args):
    x = args[0]
    c = en.icmp(st, 'slt', x, I(x.w, ZERO))
    s2 = st.fork()
    out = []
    for s in en.assume(st, c, True): out.append((s, I(x.w, x.l.scale(-1))))
    for s in en.assume(s2, c, False): out.append((s, x))
    return out


@model('llvm.trap', 'abort', 'exit', '__assert_fail')
def _noret(en, st, ins, args):
    return []


def io_nop(en, st, ins, args):
    return [(st, en.fresh_of(ins.ty, 'io') if ins.ty.k != 'void' else None)]


for n in ('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'perror', 'fflush'):
    MODELS[n] = io_nop
