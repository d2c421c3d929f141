"""Abstract domain: linear forms over atoms with intervals, plus a polyhedral entailment
test by bounded Fourier-Motzkin projection (no external solver)."""
from math import gcd

INF = 1 << 200


class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'w')

    def __repr__(self):
        return aname(self)


ATOMS = []
_atab = {}


def atom(key, lo, hi, w):
    a = _atab.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.key = key
        a.lo = lo
        a.hi = hi
        a.w = w
        ATOMS.append(a)
        _atab[key] = a
    return a


_fresh = [0]


def fresh(name, w, lo=None, hi=None):
    _fresh[0] += 1
    return atom(('fresh', name, _fresh[0]), 0 if lo is None else lo, (1 << w) - 1 if hi is None else hi, w)


def aname(a):
    k = a.key
    if k[0] == 'fresh': return '%s#%d' % (k[1], k[2])
    if k[0] == 'in': return '%s[%s]%s' % (k[1], k[3], '' if k[4] == 1 else ':%d' % k[4])
    if k[0] == 'bits': return '%s{%d+%d}' % (aname(ATOMS[k[1]]), k[2], k[3])
    if k[0] == 'named': return k[1]
    return '%s(%s)' % (k[0], ','.join(str(x) for x in k[1:]))


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self): return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v: d[a] = v
            else: d.pop(a, None)
        return mk(self.c + o.c, d)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def scale(self, k):
        if k == 0: return ZERO
        if k == 1: return self
        return Lin(self.c * k, tuple((a, v * k) for a, v in self.t))

    def isc(self): return not self.t

    def atoms(self): return [a for a, _ in self.t]

    def single(self):
        """the atom if this is exactly one atom with coefficient 1"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return ATOMS[self.t[0][0]]
        return None

    def subst(self, m):
        """m: atom id -> Lin"""
        if not any(a in m for a, _ in self.t): return self
        r = Lin(self.c, tuple((a, k) for a, k in self.t if a not in m))
        for a, k in self.t:
            if a in m: r = r + m[a].scale(k)
        return r

    def __repr__(self):
        s = []
        for a, k in self.t:
            n = aname(ATOMS[a])
            s.append(n if k == 1 else '-' + n if k == -1 else '%d*%s' % (k, n))
        if self.c or not s: s.append(str(self.c))
        return ' + '.join(s).replace('+ -', '- ')


def mk(c, d):
    # merge adjacent bit slices of one base
    bs = None
    for a in d:
        if ATOMS[a].key[0] == 'bits':
            if bs is None: bs = [a]
            else: bs.append(a)
    if bs is not None and len(bs) > 1:
        ch = True
        while ch:
            ch = False
            idx = {}
            for a in d:
                k = ATOMS[a].key
                if k[0] == 'bits': idx[(k[1], k[2])] = a
            for a in list(d):
                k = ATOMS[a].key
                if k[0] != 'bits' or a not in d: continue
                b = idx.get((k[1], k[2] + k[3]))
                if b is not None and b in d and d[b] == d[a] << k[3]:
                    co = d[a]
                    m = bits_atom(ATOMS[k[1]], k[2], k[3] + ATOMS[b].key[3])
                    del d[a]; del d[b]
                    d[m.id] = d.get(m.id, 0) + co
                    if not d[m.id]: del d[m.id]
                    ch = True
                    break
    return Lin(c, tuple(sorted(d.items())))


ZERO = Lin(0)
ONE = Lin(1)


def C(n): return Lin(n)


def A(a): return Lin(0, ((a.id, 1),))


SLICES = {}     # base atom id -> {slice atom id: (lo, n)}


def bits_atom(a, lo, n):
    if lo == 0 and n >= a.w: return a
    if lo == 0 and a.lo >= 0 and a.hi < (1 << n): return a
    r = atom(('bits', a.id, lo, n), 0, (1 << n) - 1, n)
    SLICES.setdefault(a.id, {})[r.id] = (lo, n)
    return r


def static_range(lin):
    lo = hi = lin.c
    for a, k in lin.t:
        x = ATOMS[a]
        if k > 0: lo += k * x.lo; hi += k * x.hi
        else: lo += k * x.hi; hi += k * x.lo
    return lo, hi


def _slices(lin):
    """disjoint slices [(pos, len, atom, alo)] + const or None"""
    if lin.c < 0: return None
    out = []
    mask = lin.c
    for a, k in lin.t:
        if k <= 0 or k & (k - 1): return None
        x = ATOMS[a]
        if x.lo < 0: return None
        p = k.bit_length() - 1
        n = x.hi.bit_length()
        m = ((1 << n) - 1) << p
        if mask & m: return None
        mask |= m
        out.append((p, n, x))
    return out


def disjoint_masks(a, b):
    sa = _slices(a); sb = _slices(b)
    if sa is None or sb is None: return False
    ma = a.c; mb = b.c
    for p, n, _ in sa: ma |= ((1 << n) - 1) << p
    for p, n, _ in sb: mb |= ((1 << n) - 1) << p
    return not (ma & mb)


def extract(lin, w, lo, n):
    """bits [lo, lo+n) of the value congruent to lin mod 2^w"""
    if lo >= w: return ZERO
    n = min(n, w - lo)
    M = 1 << (lo + n)
    # reduce modulo 2^(lo+n)
    red = Lin(lin.c % M, tuple((a, k % M) for a, k in lin.t if k % M))
    if not red.t:
        return Lin((red.c >> lo) & ((1 << n) - 1))
    s1 = lin.single()
    if s1 is not None and s1.key[0] == 'sext' and lo + n <= s1.key[1]:
        return extract(s1.key[2], s1.key[1], lo, n)
    sl = _slices(red)
    if sl is not None:
        d = {}
        c = (red.c >> lo) & ((1 << n) - 1)
        for p, ln, x in sl:
            s = max(p, lo); e = min(p + ln, lo + n)
            if s >= e: continue
            # bits [s-p, e-p) of x
            base, bl = x, s - p
            if x.key[0] == 'bits':
                base = ATOMS[x.key[1]]; bl = x.key[2] + (s - p)
            if s == p and e == p + ln:
                y = x
            else:
                y = bits_atom(base, bl, e - s)
            d[y.id] = d.get(y.id, 0) + (1 << (s - lo))
        return mk(c, d)
    if lo == 0:
        r0, r1 = static_range(lin)
        if r0 >= 0 and r1 < (1 << n): return lin
        r0, r1 = static_range(red)
        if r0 >= 0 and r1 < (1 << n): return red
    # opaque: name the value modulo 2^(lo+n)
    base = atom(('mod', lo + n, red), 0, M - 1, lo + n)
    return A(bits_atom(base, lo, n))


class Infeasible(Exception):
    pass


def _tight(c, d):
    g = 0
    for v in d.values():
        g = gcd(g, v)
        if g == 1: return c, d
    if g > 1:
        return c // g, {a: v // g for a, v in d.items()}
    return c, d


FM_LIMIT = 600
stats = {'fm': 0, 'fm_giveup': 0}


def fm_infeasible(ineqs, bnd):
    """ineqs: list of (c, {atom: coef}) meaning c + sum >= 0; bnd(a) -> (lo, hi). True if no integer (indeed
    rational, after gcd tightening) point satisfies them. Incomplete beyond FM_LIMIT (returns False)."""
    stats['fm'] += 1
    sysm = {}
    def add(c, d):
        if not d:
            return c < 0
        c, d = _tight(c, d)
        k = tuple(sorted(d.items()))
        o = sysm.get(k)
        if o is None or c < o:
            sysm[k] = c
            # opposite constraint check
            nk = tuple((a, -v) for a, v in k)
            o2 = sysm.get(nk)
            if o2 is not None and o2 + c < 0: return True
        return False
    for c, d in ineqs:
        if add(c, dict(d)): return True
    atoms = set()
    for k in sysm:
        atoms.update(a for a, _ in k)
    for a in atoms:
        lo, hi = bnd(a)
        if lo > -INF and add(-lo, {a: 1}): return True
        if hi < INF and add(hi, {a: -1}): return True
    # exact elimination of equalities that have a unit coefficient
    work = True
    while work:
        work = False
        for k in list(sysm):
            c = sysm.get(k)
            if c is None: continue
            nk = tuple((a, -v) for a, v in k)
            if sysm.get(nk) != -c: continue
            u = [a for a, v in k if v in (1, -1)]
            if not u: continue
            a = max(u); d = dict(k); v = d.pop(a)
            # v*a + d + c == 0  ->  a = -v*(d + c)
            del sysm[k]; del sysm[nk]
            for k2 in list(sysm):
                for x, y in k2:
                    if x == a: break
                else: continue
                c2 = sysm.pop(k2); d2 = dict(k2); d2.pop(a)
                for x, z in d.items():
                    w = d2.get(x, 0) - v * y * z
                    if w: d2[x] = w
                    else: d2.pop(x, None)
                if add(c2 - v * y * c, d2): return True
            work = True
            break
    while atoms:
        best = None; bc = None
        cnt = {}
        for k in sysm:
            for a, v in k:
                x = cnt.setdefault(a, [0, 0])
                x[v > 0] += 1
        atoms = set(cnt)
        if not atoms: return False
        for a, (n, p) in cnt.items():
            cost = n * p - n - p
            if bc is None or cost < bc or (cost == bc and a < best): best, bc = a, cost
        pos = []; neg = []
        for k in list(sysm):
            for a, v in k:
                if a == best:
                    (pos if v > 0 else neg).append((sysm[k], dict(k), abs(v)))
                    del sysm[k]
                    break
        if len(pos) * len(neg) + len(sysm) > FM_LIMIT:
            stats['fm_giveup'] += 1
            return False
        for c1, d1, v1 in pos:
            for c2, d2, v2 in neg:
                g = gcd(v1, v2)
                m1, m2 = v2 // g, v1 // g
                d = {}
                for a, v in d1.items():
                    if a != best: d[a] = v * m1
                for a, v in d2.items():
                    if a != best:
                        x = d.get(a, 0) + v * m2
                        if x: d[a] = x
                        else: d.pop(a, None)
                if add(c1 * m1 + c2 * m2, d): return True
        atoms.discard(best)
    return False
