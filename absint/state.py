"""Abstract state: heap, interval bounds on linear forms, known conditions."""
from math import gcd
from .values import *


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    """the analysis does not understand this construct: the obligation is undecided"""


class Cell(object):
    __slots__ = ('kind', 'cls', 'd')

    def __init__(self, kind, cls, d):
        self.kind = kind
        self.cls = cls
        self.d = d

    def copy(self):
        return Cell(self.kind, self.cls, dict(self.d) if isinstance(self.d, dict) else self.d)


def lkey(lin):
    g = 0
    for m, c in lin:
        g = gcd(g, c)
    if lin[0][1] < 0:
        g = -g
    return (lin if g == 1 else tuple((m, c // g) for m, c in lin)), g


def mk_ge0(p):
    """canonical (condition, polarity) for p >= 0; or a bool"""
    lin, c = psplit(p)
    if not lin:
        return c >= 0
    key, g = lkey(lin)
    if g > 0:
        # key >= -c/g  -> key >= ceil(-c/g)
        k = -((c) // g)
        return ('ge0', mkint(padd(key, pconst(-k)))), True
    # -|g| key + c >= 0 -> key <= floor(c/|g|) -> not (key >= floor+1)
    k = c // (-g) + 1
    return ('ge0', mkint(padd(key, pconst(-k)))), False


def mk_eq0(p):
    lin, c = psplit(p)
    if not lin:
        return c == 0
    key, g = lkey(lin)
    if c % g:
        return False
    return ('eq0', mkint(padd(key, pconst(c // g)))), True


def ndig(n, b):
    k = 0
    while n > 0:
        n //= b
        k += 1
    return k


def _segment(cond):
    """(atom, offset, constant, whole) when the condition compares (a piece of) an atom with a constant"""
    a, b = cond[1], cond[2]
    if isinstance(a, K):
        a, b = b, a
    if not (isinstance(a, Sq) and isinstance(b, K) and isinstance(b.v, (str, bytes)) and len(a.parts) == 1 and a.parts[0][0] == 'a'):
        return None
    t = a.parts[0][1]
    if t[0] == 'slice':
        if isinstance(t[2], K) and isinstance(t[3], K) and t[3].v - t[2].v == len(b.v):
            return t[1], t[2].v, b.v, False
        return None
    return t, 0, b.v, True


def xmul(a, b):
    """product of integers or infinities (integers may be too large for a float)"""
    if type(a) is int and type(b) is int:
        return a * b
    if a == 0 or b == 0:
        return 0
    return INF if (a > 0) == (b > 0) else -INF


def xadd(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    if type(a) is float:
        return a + b if type(b) is float else a
    return b


class State(object):
    def __init__(self):
        self.cells = {}
        self.base = {}
        self.bounds = {}
        self.lin = []
        self.facts = {}
        self.segs = {}
        self.tabs = ()
        self.trail = []
        self.nsw = {}
        self.next = 1
        self.dec = ()
        self.taken = []
        self.new = []
        self.writes = None
        self.imprecise = []
        self.events = []
        self.fresh_n = 0
        self.where = ''

    def clone(self):
        s = State.__new__(State)
        s.cells = {i: c.copy() for i, c in self.cells.items()}
        s.base = self.base
        s.bounds = dict(self.bounds)
        s.lin = list(self.lin)
        s.facts = dict(self.facts)
        s.segs = dict(self.segs)
        s.tabs = self.tabs
        s.trail = list(self.trail)
        s.nsw = dict(self.nsw)
        s.next = self.next
        s.dec = ()
        s.taken = []
        s.new = []
        s.writes = None
        s.imprecise = list(self.imprecise)
        s.events = list(self.events)
        s.fresh_n = self.fresh_n
        s.where = self.where
        return s

    def adopt(self, o):
        """become o (the state of one nested path), keeping the decision record"""
        for f in ('cells', 'bounds', 'lin', 'facts', 'segs', 'tabs', 'nsw', 'next', 'imprecise', 'events', 'fresh_n', 'trail', 'where'):
            setattr(self, f, getattr(o, f))

    # ------------------------------------------------------------------ heap
    def alloc(self, kind, cls, d):
        i = self.next
        self.next += 1
        self.cells[i] = Cell(kind, cls, d)
        return Ref(i)

    def cell(self, r):
        i = r.i if isinstance(r, Ref) else r
        c = self.cells.get(i)
        return c if c is not None else self.base[i]

    def wcell(self, r, key='*'):
        i = r.i if isinstance(r, Ref) else r
        if self.writes is not None:
            self.writes.add((i, key))
        c = self.cells.get(i)
        if c is None:
            c = self.cells[i] = self.base[i].copy()
        return c

    def freeze_base(self):
        self.base = dict(self.base)
        self.base.update(self.cells)
        self.cells = {}

    # ---------------------------------------------------------------- bounds
    def rng(self, p):
        lin, c = psplit(p)
        if not lin:
            return c, c
        key, g = lkey(lin)
        lo, hi = self.krng(key)
        if g > 0:
            return xadd(xmul(lo, g), c), xadd(xmul(hi, g), c)
        return xadd(xmul(hi, g), c), xadd(xmul(lo, g), c)

    def krng(self, key):
        lo = hi = 0
        for m, c in key:
            a, b = self.mrng(m)
            if c < 0:
                a, b = b, a
            lo = xadd(lo, xmul(c, a))
            hi = xadd(hi, xmul(c, b))
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        b = self.bounds.get(key)
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return lo, hi

    def mrng(self, m):
        if len(m) == 1:
            return self.arng(m[0])
        b = self.bounds.get(((m, 1),))
        lo, hi = 1, 1
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            a, c = self.arng(m[i])
            k = j - i

            def pw(x):
                return x ** k if x not in (INF, -INF) else (INF if x > 0 or k % 2 == 0 else -INF)
            cand = [pw(a), pw(c)]
            if k % 2 == 0 and a <= 0 <= c:
                cand.append(0)
            x, y = min(cand), max(cand)
            prods = []
            for u in (lo, hi):
                for v in (x, y):
                    prods.append(xmul(u, v))
            lo, hi = min(prods), max(prods)
            i = j
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return lo, hi

    def arng(self, i):
        b = self.bounds.get((((i,), 1),))
        lo, hi = self.default(_rev_atom(i))
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return lo, hi

    def default(self, t):
        h = t[0]
        if h in ('at', 'byte'):
            return (0, 255) if is_byte_term(t) else (-INF, INF)
        if h == 'len':
            if isinstance(t[1], tuple) and t[1][0] == 'dstr':
                lo, hi = self.rng(poly(t[1][1]))
                if lo >= 0:
                    return max(1, ndig(lo, 10)), (max(1, ndig(hi, 10)) if hi < INF else INF)
                return 1, INF
            return 0, INF
        if h == 'idx':
            return 0, self.rng(poly(t[1]))[1] - 1
        if h == 'mod':
            if isinstance(t[2], K):
                m = t[2].v
                lo, hi = self.rng(poly(t[1]))
                if 0 <= lo and hi < m:
                    return lo, hi
                return (0, min(m - 1, hi) if lo >= 0 else m - 1) if m > 0 else (m + 1, 0)
            return -INF, INF
        if h == 'fdiv':
            if isinstance(t[2], K) and t[2].v > 0:
                lo, hi = self.rng(poly(t[1]))
                m = t[2].v
                return (lo if lo == -INF else lo // m), (hi if hi == INF else hi // m)
            return -INF, INF
        if h == 'ndig':
            lo, hi = self.rng(poly(t[1]))
            b = t[2]
            return (ndig(lo, b) if lo > 0 else 0), (ndig(hi, b) if hi < INF else INF)
        if h == 'bitlen':
            lo, hi = self.rng(poly(t[1]))
            if lo < 0:
                return 0, INF
            return lo.bit_length() if lo < INF else 0, (hi.bit_length() if hi < INF else INF)
        if h == 'dec':
            lo, hi = self.seqlen_rng(t[1])
            return 0, (256 ** hi - 1 if hi < 600 else INF)
        if h in ('pow',):
            return 0, INF
        if h == 'count' or h == 'nonneg':
            return 0, INF
        return -INF, INF

    def seqlen_rng(self, s):
        from .seqs import seqlen
        return self.rng(seqlen(s))

    # --------------------------------------------------------------- assume
    def tighten(self, key, lo, hi, depth=0):
        a, b = self.krng(key)
        lo, hi = max(a, lo), min(b, hi)
        # skip excluded end points
        while lo > -INF and lo <= hi and self.facts.get(('eq0', mkint(padd(key, pconst(-lo))))) is False:
            lo += 1
        while hi < INF and lo <= hi and self.facts.get(('eq0', mkint(padd(key, pconst(-hi))))) is False:
            hi -= 1
        if lo > hi:
            raise Infeasible()
        if (lo, hi) == (a, b) and key in self.bounds:
            return
        self.bounds[key] = (lo, hi)
        if (lo, hi) == (a, b) or depth > 4:
            return
        if len(key) == 1:
            m, c = key[0]
            if len(m) == 1 and c == 1:
                t = _rev_atom(m[0])
                if t[0] == 'fdiv' and isinstance(t[2], K) and t[2].v > 0:
                    k = t[2].v
                    self.narrow(poly(t[1]), lo * k if lo > -INF else lo, hi * k + k - 1 if hi < INF else hi, depth)
                elif t[0] == 'ndig':
                    bb = t[2]
                    self.narrow(poly(t[1]), bb ** (lo - 1) if lo >= 1 else -INF, bb ** hi - 1 if hi < 1000 else INF, depth)
        else:
            for m, c in key:
                rest = tuple(x for x in key if x[0] != m)
                rl, rh = 0, 0
                for mm, cc in rest:
                    x, y = self.mrng(mm)
                    if cc < 0:
                        x, y = y, x
                    rl += cc * x
                    rh += cc * y
                # lo <= c*m + rest <= hi
                x = lo - rh if lo > -INF and rh < INF else -INF
                y = hi - rl if hi < INF and rl > -INF else INF
                if c < 0:
                    x, y, c = -y, -x, -c
                if x > -INF:
                    x = -((-x) // c)
                if y < INF:
                    y = y // c
                if x > -INF or y < INF:
                    self.tighten(((m, 1),), x, y, depth + 1)

    def narrow(self, p, lo, hi, depth=0):
        lin, c = psplit(p)
        if not lin:
            if not lo <= c <= hi:
                raise Infeasible()
            return
        key, g = lkey(lin)
        x, y = xadd(lo, -c), xadd(hi, -c)
        if g < 0:
            x, y, g = -y, -x, -g
        if x > -INF:
            x = -((-x) // g)
        if y < INF:
            y = y // g
        self.tighten(key, x, y, depth + 1)

    def assume_ge0(self, p):
        self.lin.append(p)
        self.narrow(p, 0, INF)
        self.check_tabs()

    def check_tabs(self):
        for c in self.tabs:
            lo, hi = self.rng(poly(c[1]))
            n = sum(lo <= k <= hi for k in c[2])
            if self.facts[c] and not n or not self.facts[c] and n == hi - lo + 1:
                raise Infeasible()

    def assume(self, cond, val):
        """cond canonical; record and propagate"""
        old = self.facts.get(cond)
        if old is not None:
            if old != val:
                raise Infeasible()
            return
        self.facts[cond] = val
        h = cond[0]
        if h == 'ge0':
            p = poly(cond[1])
            self.assume_ge0(p if val else padd(pscale(p, -1), pconst(-1)))
        elif h == 'eq0':
            p = poly(cond[1])
            if val:
                self.lin.append(p)
                self.lin.append(pscale(p, -1))
                self.narrow(p, 0, 0)
                self.check_tabs()
            else:
                lin, c = psplit(p)
                key, g = lkey(lin)
                lo, hi = self.krng(key)
                self.tighten(key, lo, hi)
        elif h == 'intab':
            self.tabs = self.tabs + (cond,)
        elif h == 'eqv' and val:
            g = _segment(cond)
            if g is not None:
                t, lo, const, whole = g
                self.segs[t] = self.segs.get(t, ()) + ((lo, const, whole),)

    # --------------------------------------------------------------- decide
    def decide(self, cond):
        v = self.facts.get(cond)
        if v is not None:
            return v
        h = cond[0]
        if h == 'ge0':
            p = poly(cond[1])
            lo, hi = self.rng(p)
            if lo >= 0:
                return True
            if hi < 0:
                return False
            if len(p) > 2 or len(psplit(p)[0]) > 1:
                if self.fm(padd(pscale(p, -1), pconst(-1))):
                    return True
                if self.fm(p):
                    return False
        elif h == 'eq0':
            p = poly(cond[1])
            lo, hi = self.rng(p)
            if lo == 0 == hi:
                return True
            if lo > 0 or hi < 0:
                return False
            if len(psplit(p)[0]) > 1:
                q = self.canon(p)
                if q == ():
                    return True
                if pis_const(q):
                    return False
                if self.fm(p) or self.fm(pscale(p, -1)):
                    return False
                if self.fm(padd(p, pconst(-1))) and self.fm(padd(pscale(p, -1), pconst(-1))):
                    return True
            elif self.tabs:
                for c in self.tabs:
                    d = padd(p, poly(c[1]), -1)
                    d2 = padd(p, poly(c[1]))
                    k = -pcval(d) if pis_const(d) else pcval(d2) if pis_const(d2) else None
                    if k is not None and (k in c[2]) != self.facts[c]:
                        return False
        elif h == 'intab':
            lo, hi = self.rng(poly(cond[1]))
            if lo == hi:
                return lo in cond[2]
            ks = [k for k in cond[2] if lo <= k <= hi]
            if not ks:
                return False
            for c in self.tabs:
                if c[1] == cond[1] and [k for k in c[2] if lo <= k <= hi] == ks:
                    return self.facts[c]
        elif h == 'eqv':
            g = _segment(cond) if self.segs else None
            if g is not None and g[0] in self.segs:
                t, lo, const, whole = g
                hi = lo + len(const)
                for lo2, const2, whole2 in self.segs[t]:
                    hi2 = lo2 + len(const2)
                    if whole2:
                        return const2[lo:hi] == const and (not whole or len(const) == len(const2))
                    if lo2 <= lo and hi <= hi2 and not whole:
                        return const2[lo - lo2:hi - lo2] == const
                    a, b = max(lo, lo2), min(hi, hi2)
                    if a < b and const[a - lo:b - lo] != const2[a - lo2:b - lo2]:
                        return False
                    if whole and hi2 > hi:
                        return False
        elif h == 'exists':
            # ('exists', n, depth, frozenset(trails))
            for k, v in self.facts.items():
                if k[0] == 'exists' and k[1] == cond[1] and k[2] == cond[2]:
                    if v is False and _covered(cond[3], k[3]):
                        return False
                    if v is True and _covered(k[3], cond[3]):
                        return True
            if self.rng(poly(cond[1]))[1] <= 0:
                return False
        return None

    def saturate(self):
        """re-evaluate the recorded facts under the current bounds"""
        from .seqs import resimp
        for _ in range(4):
            n = len(self.facts)
            b = dict(self.bounds)
            for c, v in list(self.facts.items()):
                if c[0] in ('ge0', 'eq0'):
                    p = poly(c[1])
                    if len(p) < 3 and not any(t[0] in ('mod', 'fdiv') for t in patoms(p)):
                        continue
                    q = p
                    for t in patoms(p):
                        if t[0] in ('fdiv', 'mod') and isinstance(t[2], K) and t[2].v > 0:
                            x = resimp(self, poly(t[1]))
                            if x != poly(t[1]):
                                y = patom((t[0], mkint(x), t[2])) if not pis_const(x) else None
                                if y is None:
                                    y = self.fdiv(x, t[2].v) if t[0] == 'fdiv' else self.mod(x, t[2].v)
                                q = psubst(q, t, y)
                            else:
                                y = self.fdiv(x, t[2].v) if t[0] == 'fdiv' else self.mod(x, t[2].v)
                                if y != patom(t):
                                    q = psubst(q, t, y)
                        elif len(p) > 2:
                            lo, hi = self.rng(patom(t))
                            if lo == hi:
                                q = psubst(q, t, pconst(lo))
                    if q == p:
                        continue
                    r = mk_ge0(q) if c[0] == 'ge0' else mk_eq0(q)
                    if isinstance(r, bool):
                        if r != v:
                            raise Infeasible()
                        continue
                    d = self.decide(r[0])
                    want = v == r[1]
                    if d is not None and d != want:
                        raise Infeasible()
                    self.assume(r[0], want)
            if len(self.facts) == n and b == self.bounds:
                return

    def decide_eq(self, p):
        if p == ():
            return True
        c = mk_eq0(p)
        if isinstance(c, bool):
            return c
        return self.decide(c[0]) is True

    # ------------------------------------------------- linear infeasibility
    def fm(self, extra):
        """True when (known linear facts and extra >= 0) has no rational solution"""
        cons = [extra]
        seen = set(m for m, c in extra if m)
        todo = list(self.lin)
        changed = True
        while changed:
            changed = False
            rest = []
            for p in todo:
                ms = set(m for m, c in p if m)
                if ms & seen:
                    cons.append(p)
                    if not ms <= seen:
                        seen |= ms
                        changed = True
                else:
                    rest.append(p)
            todo = rest
        for key, (lo, hi) in self.bounds.items():
            if len(key) > 1 and set(m for m, c in key) <= seen:
                if lo > -INF:
                    cons.append(padd(key, pconst(-lo)))
                if hi < INF:
                    cons.append(padd(pscale(key, -1), pconst(hi)))
        for m in list(seen):
            lo, hi = self.mrng(m)
            one = ((m, 1),)
            if lo > -INF:
                cons.append(padd(one, pconst(-lo)))
            if hi < INF:
                cons.append(padd(pscale(one, -1), pconst(hi)))
        return fm_infeasible(cons)

    def contradictory(self):
        """True when the linear facts alone have no solution, or an equality follows that is denied"""
        same, other = {}, []

        def root(x):
            while x in same:
                x = same[x]
            return x
        for c, val in self.facts.items():
            if type(c) is tuple and len(c) == 3 and c[0] == 'eqv':
                if val:
                    a, b = root(c[1]), root(c[2])
                    if a != b:
                        same[a] = b
                else:
                    other.append(c)
        if same and any(root(c[1]) == root(c[2]) for c in other):
            return True
        for p in self.lin:
            if self.fm(p):
                return True
        for key, (lo, hi) in list(self.bounds.items()):
            if lo > -INF and self.fm(padd(key, pconst(-lo))):
                return True
        return False

    # --------------------------------------------------------- integer ops
    def fdiv(self, p, m):
        if m == 1:
            return p
        q, r = {}, {}
        for mo, c in p:
            a, b = divmod(c, m)
            if mo == () or b == 0:
                if a:
                    q[mo] = a
                if b:
                    r[mo] = b
            else:
                r[mo] = c
        q, r = pnorm(q), pnorm(r)
        if not r:
            return q
        lo, hi = self.rng(r)
        if lo > -INF and hi < INF and lo // m == hi // m:
            return padd(q, pconst(lo // m))
        s = psingle(r)
        if s is not None:
            if s[0] == 'fdiv' and isinstance(s[2], K):
                return padd(q, self.fdiv(poly(s[1]), s[2].v * m))
            if s[0] == 'mod' and isinstance(s[2], K) and s[2].v % m == 0:
                return padd(q, self.mod(self.fdiv(poly(s[1]), m), s[2].v // m))
        for g in sorted(set(abs(c) for mo, c in r if mo), reverse=True):
            if g > 1 and m % g == 0:
                r1 = pnorm({mo: c // g for mo, c in r if c % g == 0})
                r2 = pnorm({mo: c for mo, c in r if c % g})
                lo, hi = self.rng(r2)
                if 0 <= lo and hi < g:
                    return padd(q, self.fdiv(r1, m // g))
        return padd(q, patom(('fdiv', mkint(r), K(m))))

    def mod(self, p, m):
        if m == 1:
            return ()
        lo, hi = self.rng(p)
        if lo > -INF and hi < INF and lo // m == hi // m:
            return padd(p, pconst(-m * (lo // m)))
        p = self._unmod(p, m)
        d = {}
        for mo, c in p:
            c %= m
            if mo != () and c > m // 2 and m > 2:
                c -= m
            if c:
                d[mo] = c
        p = pnorm(d)
        lo, hi = self.rng(p)
        if 0 <= lo and hi < m:
            return p
        for g in sorted(set(abs(c) for mo, c in p if mo), reverse=True):
            if g > 1 and m % g == 0:
                r1 = pnorm({mo: c // g for mo, c in p if c % g == 0})
                r2 = pnorm({mo: c for mo, c in p if c % g})
                lo, hi = self.rng(r2)
                if 0 <= lo and hi < g:
                    return padd(pscale(self.mod(r1, m // g), g), r2)
        return patom(('mod', mkint(p), K(m)))

    def _unmod(self, p, m):
        for t in patoms(p):
            if t[0] == 'mod' and isinstance(t[2], K) and t[2].v % m == 0:
                return self._unmod(psubst(p, t, poly(t[1])), m)
        return p

    def canon(self, p):
        """rewrite mod(x, m) as x - m*fdiv(x, m)"""
        for t in patoms(p):
            if t[0] == 'mod' and isinstance(t[2], K) and t[2].v > 0:
                x = self.canon(poly(t[1]))
                return self.canon(psubst(p, t, padd(x, pscale(self.fdiv(x, t[2].v), -t[2].v))))
        return p


def _covered(small, big):
    """every trail of small is at least as specific as some trail of big"""
    return all(any(b <= s for b in big) for s in small)


def _rev_atom(i):
    from . import values
    return values._rev[i]


def is_byte_term(t):
    return t[0] == 'byte' or (t[0] == 'at' and len(t) == 4 and t[3] == 'b')


def psubst(p, atom, q):
    i = aid(atom)
    out = ()
    for m, c in p:
        k = m.count(i)
        rest = tuple(x for x in m if x != i)
        term = ((rest, c),)
        for _ in range(k):
            term = pmul(term, q)
        out = padd(out, term)
    return out


def fm_infeasible(cons, limit=400):
    """Fourier-Motzkin over the monomials as rational variables: True when the
    conjunction of p >= 0 has no solution."""
    def norm(p):
        lin, c = psplit(p)
        if not lin:
            return p
        g = 0
        for m, k in lin:
            g = gcd(g, k)
        return tuple([((), c // g)] if c // g else []) + tuple((m, k // g) for m, k in lin)
    cs = set(norm(p) for p in cons)
    for _ in range(40):
        for p in cs:
            if pis_const(p) and pcval(p) < 0:
                return True
        vs = {}
        for p in cs:
            for m, c in p:
                if m:
                    e = vs.setdefault(m, [0, 0])
                    e[0 if c > 0 else 1] += 1
        if not vs:
            return False
        v = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        pos = [p for p in cs if dict(p).get(v, 0) > 0]
        neg = [p for p in cs if dict(p).get(v, 0) < 0]
        new = set(p for p in cs if dict(p).get(v, 0) == 0)
        for a in pos:
            ca = dict(a)[v]
            for b in neg:
                cb = -dict(b)[v]
                new.add(norm(padd(pscale(a, cb), pscale(b, ca))))
        if len(new) > limit:
            return False
        cs = new
    return False
