"""Concretisation: members of an abstract difference.

Given two abstract results that the domains cannot equate, pick members of the
abstract input (respecting the intervals and conditions of the partition) and evaluate
both abstract results there.  Only the analysis' own terms are evaluated; the analysed
program is not run."""
import hashlib
import hmac as _hmac
import random
import time
import binascii
import urllib.parse

from .values import *
from .state import ndig
from .seqs import *
from .models import PYOP
import ast


class NoValue(Exception):
    """not evaluable (imprecise or opaque term)"""


class Reject(Exception):
    """this choice violates the partition"""


def alike(a, b):
    """names of the same part of two objects (earlier.key.x and key.x, x.secret and y.secret)"""
    p, q = a.split('.'), b.split('.')
    if len(p) != len(q):
        return p[-len(q):] == q or q[-len(p):] == p
    if len(p) == 1:
        return p[0].rstrip('0123456789') == q[0].rstrip('0123456789') and p[0] != p[0].rstrip('0123456789')
    return p[1:] == q[1:] or p[:-1] == q[:-1] and len(p) > 1 and p[-1].rsplit('_', 1)[0] == q[-1].rsplit('_', 1)[0]


class Env(object):
    def __init__(self, rnd, st, samplers):
        self.rnd = rnd
        self.st = st
        self.samplers = samplers
        self.val = {}       # atom -> concrete value
        self.forced = {}    # atom -> value wanted
        self.opaque = set()
        self.idx = {}
        self.mirror = rnd.random() < .3

    # -------------------------------------------------------------- integers
    def pick_int(self, atom):
        lo, hi = self.st.rng(patom(atom))
        return pick(self.rnd, lo, hi)

    def poly(self, p):
        t = 0
        for m, c in p:
            x = c
            for i in m:
                x *= self.atom_int(_rev_(i))
            t += x
        return t

    def atom_int(self, a):
        v = self.atom(a)
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, int):
            raise NoValue('int %r' % (a,))
        return v

    # ------------------------------------------------------------------ atoms
    def atom(self, a):
        if a in self.val:
            return self.val[a]
        v = self._atom(a)
        if not self.idx:
            self.val[a] = v
        return v

    def twin(self, a):
        """the value already chosen for a symbol that plays the same part elsewhere in the input"""
        if a[0] == 'len' and len(a) == 2 and a in self.samplers and isinstance(a[1], tuple) and a[1][0] == 'sym':
            for b, v in self.val.items():
                if b[0] == 'len' and b[1] != a[1] and b[1][0] == 'sym' and alike(b[1][1], a[1][1]):
                    return v
        if a[0] == 'sym' and isinstance(a[1], str):
            for b, v in self.val.items():
                if b[0] == 'sym' and b != a and isinstance(b[1], str) and alike(b[1], a[1]):
                    return v
        return None

    def _atom(self, a):
        h = a[0]
        if self.mirror and h in ('sym', 'len'):
            v = self.twin(a)
            if v is not None:
                return v
        g = getattr(self, 'a_' + h, None)
        if g is not None:
            return g(a)
        raise NoValue(h)

    def a_sym(self, a):
        s = self.samplers.get(a)
        if s is not None:
            return s(self, a)
        return self.pick_int(a)

    def a_fld(self, a):
        s = self.samplers.get(a)
        if s is not None:
            return s(self, a)
        if isinstance(a[1], tuple) and a[1][0] == 'url':
            u = urllib.parse.urlparse(self.v(a[1][1]))
            return getattr(u, a[2])
        s = self.samplers.get(('fld', a[2]))
        if s is not None:
            return s(self, a)
        raise NoValue('fld')

    def a_at(self, a):
        if len(a) == 4:
            b = self.atom(a[1])
            i = self.v(a[2])
            if not 0 <= i < len(b):
                raise Reject('index')
            return b[i]
        s = self.samplers.get(('at', a[1]))
        if s is not None:
            return s(self, a)
        if a[1][0] == 'split' or a[1] in self.samplers:
            b = self.atom(a[1])
            i = self.v(a[2])
            if not 0 <= i < len(b):
                raise Reject('index')
            return b[i]
        raise NoValue('at')

    def a_len(self, a):
        s = self.samplers.get(a)
        if s is not None:
            return s(self, a)
        try:
            return len(self.atom(a[1]))
        except NoValue:
            return self.pick_int(a)

    def a_fdiv(self, a):
        d = self.v(a[2])
        if d == 0:
            raise Reject('zero')
        return self.v(a[1]) // d

    def a_mod(self, a):
        d = self.v(a[2])
        if d == 0:
            raise Reject('zero')
        return self.v(a[1]) % d

    def a_pow(self, a):
        x, y = self.v(a[1]), self.v(a[2])
        if not 0 <= y < 5000:
            raise NoValue('pow')
        return x ** y

    def a_band(self, a):
        return self.v(a[1]) & self.v(a[2])

    def a_nonneg(self, a):
        return self.atom(a[1])

    def a_byte(self, a):
        return self.atom(a[1])

    def a_lookup(self, a):
        k = self.v(a[2])
        for x, y in a[1]:
            if x.v == k:
                return y.v
        raise Reject('lookup')

    def a_ndig(self, a):
        return ndig(self.v(a[1]), a[2])

    def a_bitlen(self, a):
        return self.v(a[1]).bit_length()

    def a_powmod(self, a):
        try:
            return pow(self.v(a[1]), self.v(a[2]), self.v(a[3]))
        except ValueError:
            raise Reject('powmod')

    def a_dec(self, a):
        return int.from_bytes(self.v(a[1]), 'big')

    def a_idx(self, a):
        if a[1] in self.idx:
            return self.idx[a[1]]
        raise NoValue('idx')

    def a_count(self, a):
        n = 0
        for k in range(self.small(a[1])):
            n += len(self.each(a[1], a[2], k))
        return n

    def a_sumlen(self, a):
        return b''.join(self.join(self.each(a[1], a[2], k)) for k in range(self.small(a[1])))

    def a_sumv(self, a):
        t = 0
        for k in range(self.small(a[1])):
            old = self.idx.get(a[1])
            self.idx[a[1]] = k
            try:
                for tr, v in a[2]:
                    if self.trail(tr):
                        t += self.v(v)
            finally:
                self.unidx(a[1], old)
        return t

    def a_firstidx(self, a):
        for k in range(self.small(a[1])):
            old = self.idx.get(a[1])
            self.idx[a[1]] = k
            try:
                if any(self.trail(tr) for tr in a[2]):
                    return k
            finally:
                self.unidx(a[1], old)
        raise Reject('firstidx')

    def unidx(self, n, old):
        if old is None:
            self.idx.pop(n, None)
        else:
            self.idx[n] = old

    def small(self, n):
        k = self.v(n)
        if k > 3000:
            raise NoValue('large collection')
        return k

    def a_intof(self, a):
        try:
            return int(self.v(a[1]), *[self.v(x) for x in a[2:]])
        except (ValueError, TypeError):
            raise Reject('intof')

    def a_ordof(self, a):
        return ord(self.v(a[1]))

    def a_findof(self, a):
        return self.v(a[1]).find(*[self.v(x) for x in a[2]])

    def a_roundf(self, a):
        x = self.v(a[1])
        try:
            return round(x)
        except (ValueError, OverflowError):
            raise Reject('round')

    def a_repr(self, a):
        x = self.v(a[1])
        if isinstance(x, (bytes, str, int, float)) or x is None:
            return repr(x)
        raise NoValue('repr')

    def a_strof(self, a):
        x = self.v(a[1])
        if isinstance(x, (bytes, str, int, float)) or x is None:
            return str(x)
        raise NoValue('str')

    def a_fpow(self, a):
        try:
            x = self.v(a[1]) ** self.v(a[2])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Reject('pow')
        if isinstance(x, complex):
            raise NoValue('complex')
        return x

    def a_trunc(self, a):
        return self.a_truncf(a)

    def a_truncf(self, a):
        x = self.v(a[1])
        try:
            return int(x)
        except (ValueError, OverflowError):
            raise Reject('int')

    # ----------------------------------------------------------- string atoms
    def a_slice(self, a):
        b = self.atom(a[1])
        i, j = self.v(a[2]), self.v(a[3])
        if not 0 <= i <= j <= len(b):
            raise Reject('slice')
        return b[i:j]

    def a_rev(self, a):
        return self.atom(a[1])[::-1]

    def a_B(self, a):
        return self.atom(a[1])

    def a_T(self, a):
        return self.atom(a[1])

    def a_enc(self, a):
        try:
            return self.v(a[1]).to_bytes(self.v(a[2]), a[3])
        except OverflowError:
            raise Reject('enc')

    def a_zeros(self, a):
        n = self.v(a[1])
        if n < 0:
            raise Reject('zeros')
        return b'\0' * n

    def a_hash(self, a):
        try:
            return hashlib.new(a[1], self.v(a[2])).digest()
        except ValueError:
            return hashlib.sha256(a[1].encode() + self.v(a[2])).digest()[:20]

    def a_hmac(self, a):
        return _hmac.new(self.v(a[2]), self.v(a[3]), a[1]).digest()

    def a_b58(self, a):
        return base58check(self.v(a[1]))

    def a_snenc(self, a):
        return snenc(self.v(a[1]))

    def a_hex(self, a):
        return self.v(a[1]).hex()

    def a_asc(self, a):
        return self.atom(a[1]).encode('latin-1', 'replace')

    def a_utf8(self, a):
        return self.atom(a[1]).encode('utf-8', 'surrogatepass')

    def a_dectext(self, a):
        return self.v(a[1]).decode('utf-8', 'surrogateescape')

    def a_unhex(self, a):
        s = self.v(a[1])
        try:
            return binascii.unhexlify(s if isinstance(s, bytes) else s.encode('ascii'))
        except (ValueError, UnicodeError):
            raise Reject('unhex')

    def a_dstr(self, a):
        return str(self.v(a[1]))

    def a_hexint(self, a):
        return hex(self.v(a[1]))

    def a_chrof(self, a):
        return chr(self.v(a[1]))

    def a_text(self, a):
        s = self.v(a[2])
        return getattr(s, a[1])(*[self.v(x) for x in a[3:]])

    def a_split(self, a):
        return self.v(a[1]).split(*[self.v(x) for x in a[2:]])

    def a_fmt(self, a):
        v = self.v(a[2])
        return a[1] % (v,) if a[1].startswith('%') else format(v, a[1])

    def a_join(self, a):
        sep = self.v(a[1])
        return sep.join(self.items(a[2]))

    def a_rand(self, a):
        n = self.v(a[2])
        return bytes(self.rnd.randrange(256) for _ in range(n))

    def a_randint(self, a):
        return self.rnd.randint(self.v(a[2]), self.v(a[3]))

    def a_weakrand(self, a):
        r = [self.v(x) for x in a[2:]]
        if len(r) == 2 and all(isinstance(x, int) for x in r) and r[0] <= r[1]:
            return self.rnd.randint(*r)
        return self.rnd.getrandbits(255)

    def a_byteof(self, a):
        return bytes([self.v(a[1])])

    def a_dictval(self, a):
        d = self.pairs(a[1])
        k = self.v(a[2])
        if k not in d:
            raise Reject('dictval')
        return d[k]

    def pairs(self, t):
        if t[0] == 'pairs':
            return dict(urllib.parse.parse_qsl(self.v(t[1])))
        raise NoValue('pairs')

    def a_quoted(self, a):
        return (urllib.parse.quote_plus if a[1] else urllib.parse.quote)(self.v(a[2]))

    # ----------------------------------------------------------------- values
    def each(self, n, alts, k):
        old = self.idx.get(n)
        self.idx[n] = k
        try:
            for tr, q in alts:
                if self.trail(tr):
                    out = []
                    for p in q:
                        out.append(self.part(p))
                    res = []
                    for o in out:
                        res.extend(o)
                    return res
        finally:
            self.unidx(n, old)
        raise Reject('no alternative')

    def part(self, p):
        """list of pieces"""
        h = p[0]
        if h == 'c':
            return [p[1]]
        if h == 'b':
            x = self.v(p[1])
            if not 0 <= x <= 255:
                raise Reject('byte')
            return [bytes([x])]
        if h == 'a':
            v = self.atom(p[1])
            if len(v) != self.v(p[2]):
                raise Reject('length')
            return [v]
        if h == 'i':
            return [self.v(p[1])]
        if h == 's':
            out = []
            from .loops import at_term
            for k in range(self.small(p[2])):
                t = at_term(p[1], K(k))
                if t[1][0] == 'B':
                    out.append(self.atom(('at', t[1][1], t[2], 'b')))
                else:
                    out.append(self.atom(t))
            return out
        if h == 'e':
            out = []
            for k in range(self.small(p[1])):
                out.extend(self.each(p[1], p[2], k))
            return out
        raise NoValue('part')

    def items(self, parts):
        out = []
        for p in parts:
            out.extend(self.part(p))
        return out

    def join(self, xs):
        if not xs:
            return b''
        return xs[0][:0].join(xs)

    def v(self, v):
        if isinstance(v, K):
            return v.v
        if isinstance(v, I):
            return self.poly(v.p)
        if isinstance(v, C):
            return self.cond(v.c)
        if isinstance(v, F):
            return self.flt(v.t)
        if isinstance(v, Sq):
            e = b'' if v.kind == 'bytes' else ''
            return e.join(self.items(v.parts))
        if isinstance(v, Tup):
            return tuple(self.items(v.parts))
        if isinstance(v, NT):
            return (v.cls.qual,) + tuple(self.v(x) for x in v.items)
        if isinstance(v, Ob):
            return (v.cls.qual,) + tuple((k, self.v(x)) for k, x in v.attrs)
        if isinstance(v, Enm):
            return (v.cls.qual, v.name)
        if isinstance(v, O):
            return self.atom(v.t)
        if isinstance(v, Cls):
            return ('class', v.qual)
        if isinstance(v, Fn):
            return ('fn', v.qual)
        raise NoValue('value %r' % (v,))

    def flt(self, t):
        h = t[0]
        try:
            if h in ('fadd', 'fsub', 'fmul', 'fdivide'):
                a, b = self.v(t[1]), self.v(t[2])
                return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdivide': lambda: a / b}[h]()
            if h == 'fneg':
                return -self.v(t[1])
            if h == 'fabs':
                return abs(self.v(t[1]))
            if h == 'ofint':
                return float(self.v(t[1]))
            if h == 'floatof':
                return float(self.v(t[1]))
            if h == 'fround':
                return round(self.v(t[1]), self.v(t[2]))
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Reject('float')
        return self.atom(t)

    # -------------------------------------------------------------- conditions
    def trail(self, tr):
        return all(self.cond(c) == b for c, b in tr)

    def cond(self, c):
        h = c[0]
        if h == 'not':
            return not self.cond(c[1])
        if h == 'and':
            return all(self.cond(x) for x in c[1:])
        if h == 'or':
            return any(self.cond(x) for x in c[1:])
        if h == 'never':
            return False
        if h == 'ge0':
            return self.v(c[1]) >= 0
        if h == 'eq0':
            return self.v(c[1]) == 0
        if h == 'eqv':
            return self.v(c[1]) == self.v(c[2])
        if h == 'intab':
            return self.v(c[1]) in c[2]
        if h == 'exists':
            n = self.small(c[1])
            for k in range(n):
                old = self.idx.get(c[1])
                self.idx[c[1]] = k
                try:
                    if any(self.trail(tr) for tr in c[3]):
                        return True
                finally:
                    self.unidx(c[1], old)
            return False
        if h == 'ascii':
            return self.v(c[1]).isascii()
        if h == 'latin1':
            return all(ord(x) < 256 for x in self.v(c[1]))
        if h == 'utf8able':
            try:
                self.v(c[1]).encode('utf8')
                return True
            except UnicodeError:
                return False
        if h == 'decodable':
            try:
                self.v(c[2]).decode(c[1])
                return True
            except UnicodeError:
                return False
        if h in ('ishex', 'ishexws'):
            s = self.v(c[1])
            if isinstance(s, str):
                if not s.isascii():
                    return False
                s = s.encode()
            if h == 'ishexws':
                try:
                    bytes.fromhex(s.decode())
                    return True
                except ValueError:
                    return False
            return len(s) % 2 == 0 and all(x in b'0123456789abcdefABCDEF' for x in s)
        if h in ('isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'isidentifier'):
            return getattr(self.v(c[1]), h)()
        if h == 'isdigit':
            return self.v(c[1]).isdigit()
        if h == 'isintstr':
            try:
                int(self.v(c[1]), *[self.v(x) for x in c[2:]])
                return True
            except ValueError:
                return False
        if h == 'isfloatstr':
            try:
                float(self.v(c[1]))
                return True
            except ValueError:
                return False
        if h == 'substr':
            return self.v(c[1]) in self.v(c[2])
        if h == 'cmp' or h.startswith('f__'):
            n = c[1] if h == 'cmp' else h[1:]
            a, b = (c[2], c[3]) if h == 'cmp' else (c[1], c[2])
            a, b = self.v(a), self.v(b)
            return {'__lt__': a < b, '__le__': a <= b, '__gt__': a > b, '__ge__': a >= b}[n]
        if h == 'fzero':
            return self.v(c[1]) == 0
        if h == 'fnan':
            x = self.v(c[1])
            return x != x
        if h == 'finf':
            return abs(self.v(c[1])) == INF
        if h == 'haskey':
            return self.v(c[2]) in self.pairs(c[1])
        if h == 'badurl':
            try:
                urllib.parse.urlparse(self.v(c[1]))
                return False
            except ValueError:
                return True
        if h == 'isnone':
            return self.atom(c[1]) is None
        # an uninterpreted condition: any truth value consistent with the partition
        v = self.st.facts.get(c)
        if v is None:
            raise NoValue('condition %s' % h)
        self.opaque.add(h)
        return v


def _rev_(i):
    from . import values
    return values._rev[i]


def pick(rnd, lo, hi):
    if lo == hi:
        return lo
    if lo == -INF and hi == INF:
        return rnd.choice([0, 1, -1, rnd.getrandbits(8), rnd.getrandbits(40), -rnd.getrandbits(40), rnd.getrandbits(300)])
    if lo == -INF:
        return hi - rnd.choice([0, 0, 1, rnd.getrandbits(8), rnd.getrandbits(40), rnd.getrandbits(260)])
    if hi == INF:
        return lo + rnd.choice([0, 0, 1, rnd.getrandbits(8), rnd.getrandbits(40), rnd.getrandbits(260)])
    r = rnd.random()
    if r < .2:
        return lo
    if r < .4:
        return hi
    if r < .5:
        return min(hi, lo + rnd.getrandbits(8))
    if r < .6:
        return max(lo, hi - rnd.getrandbits(8))
    return rnd.randint(lo, hi)


# -------------------------------------------------------------------- searching
BASE = ('sym', 'fld', 'rand', 'randint')


def sample_bytes(env, t):
    """content of a symbolic byte string, within the partition's bounds"""
    n = termlen(t)
    k = env.v(n)
    if k < 0 or k > 70000:
        raise Reject('length')
    mode = env.rnd.random()
    if mode < .15:
        b = bytearray(k)
    elif mode < .25:
        b = bytearray(b'\xff' * k)
    elif mode < .4:
        b = bytearray(env.rnd.choice((0, 1, 0x7f, 0x80, 0xff, 0x4c, 0x51, 2, 3)) for _ in range(k))
    else:
        b = bytearray(env.rnd.getrandbits(8) for _ in range(k))
    for key, (lo, hi) in env.st.bounds.items():
        if len(key) == 1 and key[0][1] == 1 and len(key[0][0]) == 1:
            a = _rev_(key[0][0][0])
            if a[0] == 'at' and len(a) == 4 and a[1] == t:
                if not isinstance(a[2], K) and mentions(a[2], lambda x: x == t):
                    continue
                try:
                    i = env.v(a[2])
                except (NoValue, Reject):
                    continue
                if 0 <= i < k and not max(lo, 0) <= b[i] <= min(hi, 255):
                    b[i] = env.rnd.randint(int(max(lo, 0)), int(min(hi, 255)))
    return bytes(b)


def lin_base(env, p):
    """(coefficient, atom) pairs of the poly that can be set freely"""
    out = []
    for m, c in p:
        if len(m) == 1 and c in (1, -1):
            a = _rev_(m[0])
            if a[0] in ('sym',) and (isinstance(env.val.get(a), int)):
                out.append((c, a))
            elif a[0] == 'fld' and isinstance(env.val.get(a), int):
                out.append((c, a))
            elif a[0] == 'at' and len(a) == 4 and isinstance(env.val.get(a[1]), bytes) and a[1][0] in BASE:
                out.append((c, a))
            elif a[0] == 'len' and a not in env.samplers and a[1][0] in BASE and isinstance(env.val.get(a[1]), (bytes, str)):
                out.append((c, a))
    return out


def set_base(env, a, x):
    base = {k: v for k, v in env.val.items() if k[0] in BASE or (k[0] == 'len' and k in env.samplers)}
    if a[0] == 'at':
        i = env.v(a[2])
        b = bytearray(base[a[1]])
        if not (0 <= i < len(b) and 0 <= x <= 255):
            return False
        b[i] = x
        base[a[1]] = bytes(b)
    elif a[0] == 'len':
        b = base[a[1]]
        if not 0 <= x <= 70000:
            return False
        base[a[1]] = b[:x] + (b'\0' if isinstance(b, bytes) else '0') * (x - len(b))
    else:
        base[a] = x
    env.val = base
    return True


def repair(env, c, want):
    """adjust a base atom so that a violated condition holds"""
    h = c[0]
    if h in ('eq0', 'ge0'):
        p = poly(c[1])
        cur = env.poly(p)
        if h == 'eq0':
            need = 0 if want else cur + env.rnd.choice((1, -1, 5))
        else:
            need = env.rnd.choice((0, 0, 1, 7)) if want else -env.rnd.choice((1, 1, 2, 8))
        cand = lin_base(env, p)
        env.rnd.shuffle(cand)
        for k, a in cand:
            x = env.atom_int(a) + (need - cur) * k
            lo, hi = env.st.rng(patom(a))
            if lo <= x <= hi and set_base(env, a, x):
                return True
        # byte atoms under a positive coefficient
        for m, k in p:
            if len(m) == 1 and abs(k) > 1:
                a = _rev_(m[0])
                if a[0] == 'at' and len(a) == 4 and isinstance(env.val.get(a[1]), bytes) and a[1][0] in BASE and (need - cur) % k == 0:
                    if set_base(env, a, env.atom_int(a) + (need - cur) // k):
                        return True
        return False
    if h == 'intab' and want:
        p = poly(c[1])
        cur, need = env.poly(p), env.rnd.choice(c[2])
        for k, a in lin_base(env, p):
            if set_base(env, a, env.atom_int(a) + (need - cur) * k):
                return True
        return False
    if h == 'eqv' and want:
        for x, y in ((c[1], c[2]), (c[2], c[1])):
            if isinstance(x, Sq) and len(x.parts) == 1 and x.parts[0][0] == 'a':
                t = x.parts[0][1]
                lo = 0
                if t[0] == 'slice':
                    lo, t = env.v(t[2]), t[1]
                if t[0] in BASE and isinstance(env.val.get(t), (bytes, str)):
                    w = env.v(y)
                    b = env.val[t]
                    nb = b[:lo] + w + b[lo + len(w):]
                    if len(nb) == len(b):
                        base = {k: v for k, v in env.val.items() if k[0] in BASE or (k[0] == 'len' and k in env.samplers)}
                        base[t] = nb
                        env.val = base
                        return True
    return False


def find(st, trail, samplers, differ, tries=400, seed=1, seconds=4.0):
    """an environment in the partition where differ(env) is true; (env, opaque) or None"""
    rnd = random.Random(seed)
    bad = 0
    end = time.time() + seconds
    for k in range(tries):
        if time.time() > end:
            return None
        env = Env(rnd, st, samplers)
        try:
            ok = False
            for r in range(30):
                ok = True
                for c, b in trail:
                    if env.cond(c) != b:
                        ok = False
                        if not repair(env, c, b):
                            raise Reject('cond')
                        break
                if ok:
                    break
            if not ok:
                continue
            if differ(env):
                return env
            bad += 1
            if bad > 60:
                return None
        except Reject:
            continue
        except (NoValue, TypeError, ValueError, IndexError, KeyError, AttributeError, OverflowError, ZeroDivisionError):
            bad += 3
            if bad > 60:
                return None
            continue
    return None


# ------------------------------------------------------- uninterpreted functions
from . import curve as _curve   # noqa: E402


def _pt(v, i):
    if v is None:
        raise Reject('infinity')
    return v[i]


def _root(x):
    a = (x ** 3 + 7) % _curve.P
    y = pow(a, (_curve.P + 1) // 4, _curve.P)
    if y * y % _curve.P != a:
        raise Reject('no root')
    return y if y % 2 == 0 else _curve.P - y


def base58check(data):
    data += hashlib.sha256(hashlib.sha256(data).digest()).digest()[:4]
    n, out = int.from_bytes(data, 'big'), ''
    while n:
        n, r = divmod(n, 58)
        out = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'[r] + out
    return '1' * (len(data) - len(data.lstrip(b'\0'))) + out


def snum(b):
    if not b:
        return 0
    n = int.from_bytes(b, 'little')
    m = 1 << (8 * len(b) - 1)
    return -(n - m) if n >= m else n


def snenc(n):
    if n == 0:
        return b''
    k = abs(n).bit_length() // 8 + 1
    return (abs(n) + (1 << (8 * k - 1) if n < 0 else 0)).to_bytes(k, 'little')


UF = {
    'isascii': lambda s: int(s.isascii()),
    'mulx': lambda x, y, k: _pt(_curve.mul(k, (x, y)), 0),
    'muly': lambda x, y, k: _pt(_curve.mul(k, (x, y)), 1),
    'addx': lambda a, b, c, d: _pt(_curve.add((a, b), (c, d)), 0),
    'addy': lambda a, b, c, d: _pt(_curve.add((a, b), (c, d)), 1),
    'dblx': lambda a, b: _pt(_curve.add((a, b), (a, b)), 0),
    'dbly': lambda a, b: _pt(_curve.add((a, b), (a, b)), 1),
    'eroot': lambda x: _root(x),
    'oroot': lambda x: _curve.P - _root(x),
    'isroot': lambda x: int(pow(x ** 3 + 7, (_curve.P - 1) // 2, _curve.P) == 1),
    'sqrt': lambda a, p: pow(a, (p + 1) // 4, p) if pow(a, (p - 1) // 2, p) == 1 else 0,
    'inv': lambda a, m: pow(a, -1, m),
    'snum': lambda b: snum(b),
    'snlong': lambda b: int(snenc(snum(b)) != b),
}


def _a_uf(self, a):
    args = [self.v(x) for x in a[2:]]
    try:
        return UF[a[1]](*args)
    except (ValueError, ZeroDivisionError):
        raise Reject('undefined')


Env.a_uf = _a_uf


def _plain(self, x):
    if isinstance(x, V):
        try:
            return self.v(x)
        except NoValue:
            return show(x)
    if isinstance(x, tuple):
        return tuple(_plain(self, y) for y in x)
    return x


def _a_call(self, a):
    """a result of an external library: some function of its arguments"""
    h = hashlib.sha512(repr(_plain(self, a)).encode()).digest()
    return (b'\x30' + h + h)[:70 + h[0] % 3]


Env.a_call = _a_call
