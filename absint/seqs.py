"""Layout domain: byte strings, text and tuples as concatenations of parts."""
from .values import *
from .state import Unsupported, mk_ge0, mk_eq0, psubst, is_byte_term

LEN = {}       # base term -> V length
ELEM = {}      # base sequence term -> maker(engine, at_term) -> V
ASCII = {'hex', 'dstr', 'b58'}


class Need(Exception):
    """the operation depends on this condition: fork on it and retry"""

    def __init__(self, cond):
        self.cond = cond


def iadd(a, b, k=1):
    return mkint(padd(poly(a), poly(b), k))


def termlen(t):
    h = t[0]
    if h == 'slice':
        return iadd(t[3], t[2], -1)
    if h == 'rev':
        return termlen(t[1])
    if h == 'enc':
        return t[2]
    if h == 'digits':
        return mkint(patom(('ndig', t[1], t[2])))
    if h == 'zeros':
        return t[1]
    if h == 'hex':
        return mkint(pscale(seqlen(t[1]), 2))
    if h == 'hash':
        return K({'sha256': 32, 'sha1': 20, 'ripemd160': 20, 'sha512': 64, 'md5': 16}[t[1]])
    if h == 'hmac':
        return K({'sha512': 64, 'sha256': 32, 'sha1': 20}[t[1]])
    v = LEN.get(t)
    if v is None:
        v = LEN[t] = mkint(patom(('len', t)))
    return v


def plen(p):
    h = p[0]
    if h == 'c':
        return pconst(len(p[1]))
    if h in ('b', 'i'):
        return pconst(1)
    if h == 'a':
        return poly(p[2])
    if h == 's':
        return poly(p[2])
    if h == 'e':
        if len(p) == 4:
            return poly(p[3])
        ks = set(tuplen(q) for f, q in p[2])
        if len(ks) == 1:
            return pmul(poly(p[1]), list(ks)[0])
        return patom(('count', p[1], p[2]))
    raise AssertionError(p)


def tuplen(parts):
    n = ()
    for p in parts:
        n = padd(n, plen(p))
    return n


def seqlen(s):
    if isinstance(s, K):
        return pconst(len(s.v))
    return tuplen(s.parts)


def each_len(n, alts):
    """length of an 'e' part of a string"""
    ks = set(tuplen(q) for f, q in alts)
    if len(ks) == 1:
        k = list(ks)[0]
        if not depends(k, ('idx', n)):
            return mkint(pmul(poly(n), k))
    return mkint(patom(('len', ('sumlen', n, alts))))


def mentions(x, pred):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and pred(x):
            return True
        return any(mentions(y, pred) for y in x)
    if isinstance(x, frozenset):
        return any(mentions(y, pred) for y in x)
    if isinstance(x, I):
        return any(mentions(t, pred) for t in patoms(x.p))
    if isinstance(x, C):
        return mentions(x.c, pred)
    if isinstance(x, (F, O, Lz)):
        return mentions(x.t, pred)
    if isinstance(x, (Sq, Tup)):
        return any(mentions(y, pred) for y in x.parts)
    if isinstance(x, NT):
        return any(mentions(y, pred) for y in x.items)
    if isinstance(x, Ob):
        return any(mentions(y, pred) for y in x.attrs)
    return False


def depends(x, head):
    if isinstance(x, tuple) and x and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], tuple) and not (x[0][0] and isinstance(x[0][0][0], str)):
        x = mkint(x)
    return mentions(x, lambda t: t[:len(head)] == head)


# ------------------------------------------------------------- constructors
def mk_slice(t, a, b):
    """part list for t[a:b] (0 <= a <= b <= len)"""
    if a == b:
        return ()
    if t[0] == 'slice':
        return mk_slice(t[1], iadd(t[2], a), iadd(t[2], b))
    if t[0] == 'zeros':
        return (('a', ('zeros', iadd(b, a, -1)), iadd(b, a, -1)),)
    if t[0] == 'hash' and t[1] == 'none':
        pass
    if a == K(0) and b == termlen(t):
        return (('a', t, b),)
    return (('a', ('slice', t, a, b), iadd(b, a, -1)),)


def mk_at(t, i):
    """atom for the byte of string term t at index i"""
    if t[0] == 'slice':
        return mk_at(t[1], iadd(t[2], i))
    if t[0] == 'rev':
        n = termlen(t[1])
        return mk_at(t[1], mkint(padd(padd(poly(n), pconst(-1)), poly(i), -1)))
    if t[0] == 'zeros':
        return K(0)
    return mkint(patom(('at', t, i, 'b')))


def mk_enc(st, n, L, end):
    """Sq parts of integer n as L bytes (0 <= n < 256**L known)"""
    if L == K(0):
        return ()
    if isinstance(n, K) and isinstance(L, K):
        return (('c', n.v.to_bytes(L.v, end)),)
    if n == K(0):
        return (('a', ('zeros', L), L),)
    if L == K(1):
        return (('b', n),)
    t = psingle(poly(n))
    if t is not None and t[0] == 'dec' and st.decide_eq(padd(seqlen(t[1]), poly(L), -1)):
        return t[1].parts if end == 'big' else rev_parts(t[1].parts)
    if isinstance(L, K) and L.v <= 72 and st is not None:
        out = []
        p = poly(n)
        for j in range(L.v):
            q = st.mod(st.fdiv(p, 256 ** j), 256)
            out.append(('b', mkint(q)))
        if end == 'big':
            out.reverse()
        return norm('bytes', out, st)
    return (('a', ('enc', n, L, end), L),)


def resimp(st, p):
    """re-evaluate quotients and remainders under the state's bounds"""
    if len(p) > 400:
        return p
    lo, hi = st.rng(p)
    if lo == hi:
        return pconst(lo)
    for t in patoms(p):
        if t[0] in ('fdiv', 'mod') and isinstance(t[2], K) and t[2].v > 0:
            x = resimp(st, poly(t[1]))
            y = st.fdiv(x, t[2].v) if t[0] == 'fdiv' else st.mod(x, t[2].v)
            if y != patom(t):
                return resimp(st, psubst(p, t, y))
        else:
            lo, hi = st.rng(patom(t))
            if lo == hi:
                return resimp(st, psubst(p, t, pconst(lo)))
    return p


def rev_term(t):
    h = t[0]
    if h == 'rev':
        return t[1]
    if h == 'enc':
        return ('enc', t[1], t[2], 'little' if t[3] == 'big' else 'big')
    if h == 'digits':
        return ('digits', t[1], t[2], 'le' if t[3] == 'be' else 'be')
    if h == 'zeros':
        return t
    if h == 'slice':
        n = termlen(t[1])
        return ('slice', rev_term(t[1]), iadd(n, t[3], -1), iadd(n, t[2], -1))
    return ('rev', t)


def rev_parts(parts):
    out = []
    for p in reversed(parts):
        if p[0] == 'c':
            out.append(('c', p[1][::-1]))
        elif p[0] in ('b', 'i'):
            out.append(p)
        elif p[0] == 'a':
            out.append(('a', rev_term(p[1]), p[2]))
        elif p[0] == 's':
            out.append(('s', rev_term(p[1]), p[2]))
        elif p[0] == 'e':
            n = p[1]

            def f(t):
                if t[0] == 'idx' and t[1] == n:
                    return mkint(padd(padd(poly(n), pconst(-1)), patom(t), -1))
                return None
            alts = tuple((smap(tr, f), rev_parts(tuple(smap(q, f)))) for tr, q in p[2])
            out.append(p[:2] + (alts,) + p[3:])
    return tuple(out)


def dec_val(st, parts):
    """big-endian value of the byte parts: V"""
    parts = list(parts)
    total = ()
    shift = 0          # bytes to the right
    while parts:
        p = parts.pop()
        n = plen(p)
        if p[0] == 'c':
            v = pconst(int.from_bytes(p[1], 'big'))
        elif p[0] == 'b':
            v = poly(p[1])
        elif p[0] == 'a' and p[1][0] == 'enc' and p[1][3] == 'big':
            v = poly(p[1][1])
        elif p[0] == 'a' and p[1][0] == 'digits' and p[1][3] == 'be' and p[1][2] == 256:
            v = poly(p[1][1])
        elif p[0] == 'a' and p[1][0] == 'zeros':
            v = ()
        elif p[0] == 'a' and isinstance(p[2], K) and p[2].v <= 72:
            v = ()
            for j in range(p[2].v):
                v = padd(v, pscale(poly(mk_at(p[1], K(j))), 256 ** (p[2].v - 1 - j)))
        else:
            v = patom(('dec', Sq('bytes', (p,))))
        if not pis_const(n):
            lo, hi = st.rng(n)
            if lo == hi:
                n = pconst(lo)
        if not pis_const(n) and parts:
            if all(q[0] == 'a' and q[1][0] == 'zeros' or (q[0] == 'c' and not q[1].strip(b'\0')) for q in parts):
                parts = []
            else:
                whole = Sq('bytes', tuple(parts) + (p,))
                return mkint(padd(total, pscale(patom(('dec', whole)), 256 ** shift)))
        total = padd(total, pscale(v, 256 ** shift))
        if parts:
            shift += pcval(n)
    if len(total) > 1:
        q = st.canon(total)
        if len(q) < len(total):
            total = q
    return mkint(total)


# ------------------------------------------------------------ normalisation
def _span(p):
    """(term, a, b) when the part is a slice of a term"""
    if p[0] == 'a':
        t = p[1]
        if t[0] == 'slice':
            return t[1], t[2], t[3]
        return t, K(0), p[2]
    if p[0] == 'b':
        t = psingle(poly(p[1])) if isinstance(p[1], I) else None
        if t is not None and t[0] == 'at' and is_byte_term(t):
            return t[1], t[2], iadd(t[2], K(1))
    if p[0] == 's':
        t = p[1]
        if t[0] == 'slice':
            return t[1], t[2], t[3]
        return t, K(0), p[2]
    if p[0] == 'i':
        t = provenance(p[1])
        if t is not None and t[0] == 'at' and len(t) == 3:
            return t[1], t[2], iadd(t[2], K(1))
    return None


PROV = {}      # V made by an element maker -> its at term


def provenance(v):
    try:
        return PROV.get(v)
    except TypeError:
        return None


def same(st, a, b):
    if a == b:
        return True
    return st is not None and st.decide_eq(padd(poly(a), poly(b), -1))


def norm(kind, parts, st=None):
    out = []
    for p in parts:
        if p[0] == 'c' and len(p[1]) == 0:
            continue
        if p[0] == 'b' and isinstance(p[1], K):
            p = ('c', bytes([p[1].v & 0xff]))
        if p[0] == 'a':
            n = p[2]
            if isinstance(n, I) and st is not None:
                lo, hi = st.rng(n.p)
                if lo == hi:
                    n = K(lo)
                    p = ('a', p[1], n)
            if n == K(0):
                continue
            if p[1][0] == 'zeros' and isinstance(n, K):
                p = ('c', b'\0' * n.v)
            elif kind == 'bytes' and n == K(1):
                if p[1][0] == 'enc':
                    p = ('b', p[1][1])
                else:
                    v = mk_at(p[1], K(0))
                    p = ('b', v) if not isinstance(v, K) else ('c', bytes([v.v]))
        if p[0] in ('s', 'e'):
            n = p[2] if p[0] == 's' else p[1]
            if n == K(0):
                continue
            if p[0] == 'e' and all(not q for f, q in p[2]):
                continue
            if p[0] == 's' and isinstance(n, I) and st is not None and st.rng(n.p)[1] <= 0:
                continue
        if out:
            q = out[-1]
            if p[0] == 'c' and q[0] == 'c':
                out[-1] = ('c', q[1] + p[1])
                continue
            a, b = _span(q), _span(p)
            if a and b and a[0] == b[0] and same(st, a[2], b[1]) and not (a[0][0] == 'zeros'):
                if kind == 'tup':
                    n = iadd(b[2], a[1], -1)
                    if a[1] == K(0) and b[2] == termlen(a[0]):
                        out[-1] = ('s', a[0], n)
                    else:
                        out[-1] = ('s', ('slice', a[0], a[1], b[2]), n)
                    continue
                m = mk_slice(a[0], a[1], b[2])
                out[-1:] = list(m)
                continue
            # digits ++ zeros  ->  fixed width integer
            if p[0] in 'ac' and q[0] in 'ac' and kind == 'bytes':
                z = _zeros(p)
                if z is not None and q[0] == 'a' and q[1][0] == 'digits' and q[1][3] == 'le' and q[1][2] == 256:
                    L = iadd(q[2], z)
                    out[-1] = ('a', ('enc', q[1][1], L, 'little'), L)
                    continue
                z = _zeros(q)
                if z is not None and p[0] == 'a' and p[1][0] == 'digits' and p[1][3] == 'be' and p[1][2] == 256:
                    L = iadd(p[2], z)
                    out[-1] = ('a', ('enc', p[1][1], L, 'big'), L)
                    continue
                if p[0] == 'a' == q[0] and p[1][0] == 'zeros' == q[1][0]:
                    L = iadd(q[2], p[2])
                    out[-1] = ('a', ('zeros', L), L)
                    continue
        out.append(p)
    # a fixed-width integer of known width
    for i, p in enumerate(out):
        if p[0] == 'a' and p[1][0] == 'enc':
            L, n = p[1][2], p[1][1]
            if isinstance(L, I) and st is not None:
                lo, hi = st.rng(L.p)
                if lo == hi:
                    L = K(lo)
            if isinstance(L, K) and (L != p[1][2] or L == K(1)):
                out[i:i + 1] = list(mk_enc(st, n, L, p[1][3])) if st is not None else [('a', ('enc', n, L, p[1][3]), L)]
                return norm(kind, out, st)
    return tuple(out)


def _zeros(p):
    if p[0] == 'a' and p[1][0] == 'zeros':
        return p[2]
    if p[0] == 'c' and isinstance(p[1], bytes) and p[1] and not p[1].strip(b'\0'):
        return K(len(p[1]))
    return None


def mkseq(kind, parts, st=None):
    parts = norm(kind, parts, st)
    if kind == 'tup':
        return Tup(parts)
    if not parts:
        return K(b'' if kind == 'bytes' else '')
    if len(parts) == 1 and parts[0][0] == 'c':
        return K(parts[0][1])
    return Sq(kind, parts)


def parts_of(v):
    if isinstance(v, K):
        if isinstance(v.v, (bytes, str)):
            return (('c', v.v),) if v.v else ()
        raise Unsupported('parts of %r' % (v,))
    return v.parts


def kind_of(v):
    if isinstance(v, K):
        return 'bytes' if isinstance(v.v, bytes) else 'str'
    return v.kind


# --------------------------------------------------------------- cut, index
def _dec(st, c):
    """decide a (cond, polarity) pair or bool; None when open"""
    if isinstance(c, bool):
        return c
    d = st.decide(c[0])
    return None if d is None else d == c[1]


def cut(st, parts, pos):
    """split at position pos (poly), 0 <= pos <= length"""
    left = []
    rem = pos
    for i, p in enumerate(parts):
        if rem == () or st.rng(rem) == (0, 0):
            return tuple(left), tuple(parts[i:])
        L = plen(p)
        c = mk_ge0(padd(rem, L, -1))
        d = _dec(st, c)
        if d is None:
            raise Need(c[0])
        if d:
            left.append(p)
            rem = padd(rem, L, -1)
            continue
        a, b = split_part(st, p, rem)
        return tuple(left) + a, b + tuple(parts[i + 1:])
    return tuple(left), ()


def split_part(st, p, rem):
    if p[0] == 'c':
        if pis_const(rem):
            k = pcval(rem)
            return (('c', p[1][:k]),), (('c', p[1][k:]),)
        z = _zeros(p)
        if z is not None:
            a, b = mkint(rem), mkint(padd(poly(z), rem, -1))
            return (('a', ('zeros', a), a),), (('a', ('zeros', b), b),)
        for k in range(len(p[1])):
            c = mk_eq0(padd(rem, pconst(-k)))
            d = _dec(st, c)
            if d:
                return (('c', p[1][:k]),), (('c', p[1][k:]),)
            if d is None:
                raise Need(c[0])
        raise Unsupported('cut inside a constant')
    if p[0] == 'a':
        n = p[2]
        return mk_slice(p[1], K(0), mkint(rem)), mk_slice(p[1], mkint(rem), n)
    if p[0] == 's':
        t, n = p[1], p[2]
        r = mkint(rem)
        if t[0] == 'slice':
            t, a, b = t[1], t[2], t[3]
        else:
            a, b = K(0), n
        m = iadd(a, r)
        return (('s', ('slice', t, a, m), r),), (('s', ('slice', t, m, b), iadd(n, r, -1)),)
    if p[0] == 'e':
        n, alts = p[1], p[2]
        k = plen(p)
        per = None
        if len(p) == 4:
            ks = set(tuplen(q) for f, q in alts)
        else:
            ks = set(tuplen(q) for f, q in alts)
        if len(ks) == 1 and pis_const(list(ks)[0]) and pcval(list(ks)[0]) == 1:
            r = mkint(rem)
            rest = iadd(n, r, -1)
            return each_range(p, K(0), r), each_range(p, r, n)
        raise Unsupported('cut inside a repeated layout')
    # single element with 0 < rem < 1: impossible
    raise Unsupported('cut inside an element')


def each_range(p, a, b):
    """the elements a..b-1 of an 'e' part, as an 'e' part of its own"""
    n = iadd(b, a, -1)
    if n == K(0):
        return ()

    def f(t):
        if t[0] == 'idx' and t[1] == p[1]:
            return mkint(padd(patom(('idx', n) + t[2:]), poly(a)))
        return None
    alts = tuple((smap(tr, f), tuple(smap(q, f))) for tr, q in p[2])
    if len(p) == 4:
        return (('e', n, alts, each_len(n, alts)),)
    return (('e', n, alts),)


# ------------------------------------------------------------- substitution
REBUILD_ST = [None]


def smap(x, f):
    """rebuild x replacing every atom t with f(t) (a V or atom) when that is not None"""
    memo = getattr(f, 'memo', None)
    if memo is not None and isinstance(x, (I, Sq, C)):
        r = memo.get(x)
        if r is None:
            r = memo[x] = _smap(x, f)
        return r
    return _smap(x, f)


def _smap(x, f):
    if isinstance(x, I):
        out = x.p
        todo = []
        for t in patoms(x.p):
            r = _smap_atom(t, f)
            if r is not t and r != t:
                todo.append((t, r))
        if not todo:
            return x
        d = ()
        rep = {aid(t): (poly(r) if isinstance(r, V) else patom(r)) for t, r in todo}
        for m, c in x.p:
            term = pconst(c)
            for i in m:
                term = pmul(term, rep[i] if i in rep else (((i,), 1),))
            d = padd(d, term)
        return mkint(d)
    if isinstance(x, C):
        from .engine import renorm_cond
        r = _smap_atom(x.c, f)
        return renorm_cond(r)
    if isinstance(x, F):
        r = _smap_atom(x.t, f)
        return r if isinstance(r, V) else F(r)
    if isinstance(x, O):
        r = _smap_atom(x.t, f)
        return r if isinstance(r, V) else (x if r == x.t else O(r, x.cls))
    if isinstance(x, Lz):
        r = _smap_atom(x.t, f)
        return x if r == x.t else Lz(r, x.fn)
    if isinstance(x, Sq):
        ps = smap_parts(x.parts, f)
        return x if ps == x.parts else mkseq(x.kind, ps, REBUILD_ST[0])
    if isinstance(x, Tup):
        ps = smap_parts(x.parts, f)
        return x if ps == x.parts else mkseq('tup', ps, REBUILD_ST[0])
    if isinstance(x, NT):
        t = provenance(x)
        r = NT(x.cls, tuple(smap(y, f) for y in x.items))
        if t is not None and r != x:
            nt = _smap_atom(t, f)
            if isinstance(nt, tuple):
                PROV[r] = nt
        return r
    if isinstance(x, Ob):
        t = provenance(x)
        r = Ob(x.cls, tuple((k, smap(y, f)) for k, y in x.attrs))
        if t is not None and r != x:
            nt = _smap_atom(t, f)
            if isinstance(nt, tuple):
                PROV[r] = nt
        return r
    if isinstance(x, V):
        return x
    if isinstance(x, frozenset):
        from .engine import renorm_trail
        return renorm_trail(frozenset((_smap_atom(c, f), b) for c, b in x))
    if isinstance(x, tuple):
        return tuple(smap(y, f) for y in x) if not (x and isinstance(x[0], str)) else smap_one(x, f)
    return x


def smap_one(p, f):
    """a part or an atom"""
    if p[0] in ('c',):
        return p
    if p[0] in ('b', 'i') and len(p) == 2:
        return (p[0], smap(p[1], f))
    if p[0] in ('a', 's') and len(p) == 3:
        t = _smap_atom(p[1], f)
        if isinstance(t, V):
            raise Unsupported('substitution of a string atom in place')
        return (p[0], t, smap(p[2], f))
    if p[0] == 'e':
        return ('e', smap(p[1], f), tuple((smap(tr, f), smap_parts(q, f)) for tr, q in p[2])) + tuple(smap(y, f) for y in p[3:])
    return _smap_atom(p, f)


def smap_parts(parts, f):
    out = []
    for p in parts:
        if p[0] in ('a', 's') and len(p) == 3:
            t = _smap_atom(p[1], f)
            if isinstance(t, V):
                out.extend(parts_of(t))
                continue
            if t == p[1]:
                out.append((p[0], t, smap(p[2], f)))
            elif p[0] == 'a' and t[0] == 'slice':
                out.extend(mk_slice(t[1], t[2], t[3]))
            else:
                out.append((p[0], t, smap(p[2], f)))
            continue
        out.append(smap_one(p, f))
    return tuple(out)


def _smap_atom(t, f):
    memo = getattr(f, 'memo', None)
    if memo is not None:
        r = memo.get(t)
        if r is None:
            r = memo[t] = _smap_atom1(t, f)
        return r
    return _smap_atom1(t, f)


def _smap_atom1(t, f):
    r = f(t)
    if r is not None:
        return r
    ch = False
    args = []
    for a in t:
        b = a
        if isinstance(a, V) or isinstance(a, frozenset):
            b = smap(a, f)
        elif isinstance(a, tuple):
            if a and isinstance(a[0], str):
                b = _smap_atom(a, f)
            else:
                b = tuple(smap(y, f) if isinstance(y, (tuple, V, frozenset)) else y for y in a)
        if b is not a and b != a:
            ch = True
        args.append(b)
    if not ch:
        return t
    if isinstance(args[0], V):
        raise Unsupported('head')
    return rebuild(tuple(args))


def rebuild(t):
    """re-canonicalise an atom whose arguments changed"""
    st = REBUILD_ST[0]
    h = t[0]
    if h == 'at' and len(t) == 4:
        b = t[1]
        if isinstance(b, V):
            return index_seq(st, b, t[2])
        return mk_at(b, t[2])
    if h == 'at' and isinstance(t[1], tuple):
        if t[1][0] == 'slice':
            return rebuild(('at', t[1][1], iadd(t[1][2], t[2])))
    if h == 'fdiv' and isinstance(t[2], K) and st is not None:
        return mkint(st.fdiv(poly(t[1]), t[2].v))
    if h == 'mod' and isinstance(t[2], K) and st is not None:
        return mkint(st.mod(poly(t[1]), t[2].v))
    if h == 'dec':
        return dec_val(st, parts_of(t[1]))
    if h == 'ndig' and isinstance(t[1], K):
        from .state import ndig
        return K(ndig(t[1].v, t[2]))
    if h == 'slice':
        b = t[1]
        if isinstance(b, V):
            ps = parts_of(b)
            l, r = cut(st, ps, poly(t[3]))
            l, r = cut(st, l, poly(t[2]))
            return mkseq(kind_of(b), r, st)
        if b[0] == 'slice':
            return ('slice', b[1], iadd(b[2], t[2]), iadd(b[2], t[3]))
        if t[2] == K(0) and t[3] == termlen(b):
            return b
    if h == 'rev':
        b = t[1]
        if isinstance(b, V):
            return mkseq(kind_of(b), rev_parts(parts_of(b)), st)
        return rev_term(b)
    if h == 'len':
        if isinstance(t[1], V):
            return mkint(seqlen(t[1]))
        return termlen(t[1])
    if h == 'hash' and isinstance(t[2], K) and isinstance(t[2].v, bytes):
        import hashlib
        return K(hashlib.new(t[1], t[2].v).digest())
    if h == 'powmod' and all(isinstance(x, K) for x in t[1:]):
        try:
            return K(pow(t[1].v, t[2].v, t[3].v))
        except ValueError:
            return t
    if h == 'hex' and isinstance(t[1], K) and isinstance(t[1].v, bytes):
        return K(t[1].v.hex())
    if h == 'lookup' and isinstance(t[2], K):
        for k, v in t[1]:
            if k == t[2]:
                return v
    return t


def index_seq(st, s, i):
    """element of a byte string at index i >= 0 known in range: int V"""
    if st is not None and not isinstance(i, K):
        i = mkint(resimp(st, poly(i)))
    l, r = cut(st, parts_of(s), poly(i))
    p = r[0]
    if p[0] == 'c':
        return K(p[1][0])
    if p[0] == 'b':
        return p[1]
    if p[0] == 'a':
        return mk_at(p[1], K(0))
    raise Unsupported('index into repeated layout')


def atom(i):
    from . import values
    return values._rev[i]
