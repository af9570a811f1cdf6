"""Abstract values: an element of each domain describes a set of concrete Python values.

  K      one exact immutable Python value (constant domain)
  I      an integer given by a polynomial over atoms (value-numbering domain); the
         interval of a linear form lives in the State (interval domain)
  C      a boolean given by a canonical condition
  F      a float known by provenance
  Sq     a byte or text string given as a concatenation of parts (layout domain)
  Tup    a tuple given as a sequence of parts, some of unknown length
  NT     an instance of a namedtuple class
  Ob     an immutable snapshot of an instance (class and fields)
  O      an opaque value known by provenance only
  Lz     a field whose shape depends on a sibling field; resolved when used
  Ref    a reference to a mutable cell of the abstract heap

Atoms (terms) are tuples whose head is a string and whose arguments are V, str, int,
None, nested atoms or frozensets; integers inside atoms are always V (K or I).
"""

INF = float('inf')

# ---------------------------------------------------------------- polynomials
_ids = {}
_rev = []


def aid(atom):
    i = _ids.get(atom)
    if i is None:
        i = len(_rev)
        _ids[atom] = i
        _rev.append(atom)
    return i


def pnorm(d):
    return tuple(sorted((m, c) for m, c in d.items() if c != 0))


def pconst(n):
    n = int(n)
    return (((), n),) if n else ()


def patom(atom):
    return (((aid(atom),), 1),)


def padd(a, b, k=1):
    if not b:
        return a
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + k * c
    return pnorm(d)


def pscale(a, k):
    return tuple((m, c * k) for m, c in a) if k else ()


def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            mn = tuple(sorted(m + n))
            d[mn] = d.get(mn, 0) + c * e
    return pnorm(d)


def pis_const(p):
    return p == () or (len(p) == 1 and p[0][0] == ())


def pcval(p):
    return p[0][1] if p else 0


def psplit(p):
    if p and p[0][0] == ():
        return p[1:], p[0][1]
    return p, 0


def psingle(p):
    if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
        return _rev[p[0][0][0]]
    return None


def patoms(p):
    out = []
    for m, c in p:
        for i in m:
            a = _rev[i]
            if a not in out:
                out.append(a)
    return out


# --------------------------------------------------------------------- values
class V(object):
    __slots__ = ()

    def __ne__(self, other):
        return not self == other


class K(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(o.v) is type(self.v) and (o.v == self.v or (o.v != o.v and self.v != self.v))

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return 'K(%r)' % (self.v,)


class _T(V):
    """value classes identified by a tuple of slots"""
    __slots__ = ('_h',)
    _f = ()

    def key(self):
        return tuple(getattr(self, f) for f in self._f)

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is not type(self) or hash(o) != hash(self) or o.key() != self.key():
            return False
        for f in self._f:       # equal values share their parts: comparing them again is immediate
            setattr(o, f, getattr(self, f))
        return True

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__,) + self.key())
            return self._h

    def __repr__(self):
        return show(self)


class I(_T):
    __slots__ = ('p',)
    _f = ('p',)

    def __init__(self, p):
        self.p = p


class C(_T):
    __slots__ = ('c',)
    _f = ('c',)

    def __init__(self, c):
        self.c = c


class F(_T):
    __slots__ = ('t',)
    _f = ('t',)

    def __init__(self, t):
        self.t = t


class Sq(_T):
    """kind: 'bytes' or 'str'. parts: tuple of
         ('c', const)             constant text
         ('b', I/K)               one byte of that value
         ('a', term, len)         an atom of that length (len is K or I)
         ('e', n, alts, len)      for each index below n: the parts of the alternative
                                  whose trail holds
    """
    __slots__ = ('kind', 'parts')
    _f = ('kind', 'parts')

    def __init__(self, kind, parts):
        self.kind = kind
        self.parts = parts


class Tup(_T):
    """parts: ('i', V) | ('s', term, n) | ('e', n, alts)"""
    __slots__ = ('parts',)
    _f = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)


class NT(_T):
    __slots__ = ('cls', 'items')
    _f = ('cls', 'items')

    def __init__(self, cls, items):
        self.cls = cls
        self.items = tuple(items)

    def get(self, name):
        return self.items[self.cls.nt_fields().index(name)]


class Ob(_T):
    __slots__ = ('cls', 'attrs', 't')
    _f = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = tuple(sorted(attrs.items())) if isinstance(attrs, dict) else attrs


class Enm(_T):
    __slots__ = ('cls', 'name', 'value')
    _f = ('cls', 'name')

    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value


class O(_T):
    """opaque value; cls: the class it is known to be an instance of, if any"""
    __slots__ = ('t', 'cls')
    _f = ('t',)

    def __init__(self, t, cls=None):
        self.t = t
        self.cls = cls


class Lz(_T):
    __slots__ = ('t', 'fn')
    _f = ('t',)

    def __init__(self, t, fn):
        self.t = t
        self.fn = fn


class Ref(_T):
    __slots__ = ('i',)
    _f = ('i',)

    def __init__(self, i):
        self.i = i


class Slice(_T):
    __slots__ = ('a', 'b', 'c')
    _f = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class BM(_T):
    """bound method (user function)"""
    __slots__ = ('fn', 'self')
    _f = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_


class Bi(_T):
    """modelled function or method: name, and the bound receiver if any"""
    __slots__ = ('name', 'self')
    _f = ('name', 'self')

    def __init__(self, name, self_=None):
        self.name = name
        self.self = self_


class Partial(_T):
    __slots__ = ('fn', 'args', 'kwargs')
    _f = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), tuple(sorted(kwargs.items()))


class _Id(V):
    __slots__ = ()

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Fn(_Id):
    __slots__ = ('node', 'mod', 'qual', 'frame', 'cls', 'defaults', 'kwdefaults', 'is_gen', 'locs', 'name')

    def __init__(self, node, mod, qual, frame, cls, defaults, kwdefaults):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.frame = frame
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.locs = None
        self.is_gen = None

    def __eq__(self, o):
        return isinstance(o, Fn) and o.node is self.node and o.frame == self.frame

    def __hash__(self):
        return id(self.node)

    def __repr__(self):
        return 'Fn(%s)' % self.qual


class Wrap(_Id):
    """staticmethod / classmethod / property wrapper in a class namespace"""
    __slots__ = ('kind', 'fn', 'setter')

    def __init__(self, kind, fn):
        self.kind = kind
        self.fn = fn
        self.setter = None


class Mod(_Id):
    __slots__ = ('name', 'ns', 'external', 'path', 'done', 'tree', 'pkg')

    def __init__(self, name, external=False, path=None):
        self.name = name
        self.ns = {}
        self.external = external
        self.path = path
        self.done = False
        self.tree = None
        self.pkg = False

    def __repr__(self):
        return 'Mod(%s)' % self.name


class Cls(_Id):
    __slots__ = ('name', 'qual', 'bases', 'ns', 'mod', 'builtin', 'fields', 'node', '_mro', 'flags', 'subs', 'defaults')

    def __init__(self, name, qual, bases, ns=None, mod=None, builtin=False, fields=None, node=None):
        self.name = name
        self.qual = qual
        self.bases = bases
        self.ns = ns if ns is not None else {}
        self.mod = mod
        self.builtin = builtin
        self.fields = fields
        self.node = node
        self._mro = None
        self.flags = set()
        self.subs = []
        self.defaults = ()
        for b in bases:
            b.subs.append(self)

    def __repr__(self):
        return self.qual

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases] + [list(self.bases)]
            res = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    raise ValueError('mro ' + self.qual)
                res.append(cand)
                for s in seqs:
                    if s[0] is cand:
                        del s[0]
            self._mro = res
        return self._mro

    def issub(self, other):
        return other in self.mro()

    def nt_fields(self):
        for c in self.mro():
            if c.fields is not None:
                return c.fields
        return None

    def all_subs(self):
        out = []
        for s in self.subs:
            out.append(s)
            out += s.all_subs()
        return out


class Super(_Id):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def mkint(p):
    if pis_const(p):
        return K(pcval(p))
    return I(p)


def poly(v):
    """polynomial of an integer value"""
    if isinstance(v, I):
        return v.p
    if isinstance(v, K) and isinstance(v.v, int):
        return pconst(v.v)
    raise TypeError('not an int: %r' % (v,))


def isint(v):
    return isinstance(v, I) or (isinstance(v, K) and isinstance(v.v, int))


# ------------------------------------------------------------------ rendering
def _num(c):
    return hex(c) if abs(c) > 10**6 else str(c)


def show_poly(p):
    if p == ():
        return '0'
    out = []
    for m, c in sorted(p, key=lambda mc: (mc[0] == (), mc[0])):
        if m == ():
            out.append(_num(c))
        else:
            s = '*'.join(show_term(_rev[i]) for i in m)
            out.append(s if c == 1 else '%s*%s' % (_num(c), s))
    return ' + '.join(out).replace('+ -', '- ')


def show_term(t):
    if isinstance(t, V):
        return show(t)
    if isinstance(t, frozenset):
        return '{' + ', '.join(sorted(show_term(x) for x in t)) + '}'
    if not isinstance(t, tuple):
        return str(t)
    h = t[0] if t else ''
    if h == 'lookup':
        return 'table[%s]' % show_term(t[2])
    if h in ('sym', 'ph') and len(t) == 2:
        return str(t[1])
    if h == 'ge0':
        lin, c = psplit(poly(t[1]))
        return '(%s >= %s)' % (show_poly(lin), _num(-c))
    if h == 'eq0':
        lin, c = psplit(poly(t[1]))
        return '(%s == %s)' % (show_poly(lin), _num(-c))
    if h == 'fld':
        return '%s.%s' % (show_term(t[1]), t[2])
    if h == 'at':
        return '%s[%s]' % (show_term(t[1]), show_term(t[2]))
    if h == 'slice':
        return '%s[%s:%s]' % (show_term(t[1]), show_term(t[2]), show_term(t[3]))
    if h == 'idx':
        return '#i<%s' % show_term(t[1])
    if isinstance(h, str) and len(t) > 1 or h in ('sym',):
        return '%s(%s)' % (h, ', '.join(show_term(x) for x in t[1:]))
    return '(%s)' % ', '.join(show_term(x) for x in t)


def show_trail(tr):
    return ' and '.join(sorted(('' if tv else 'not ') + show_term(c) for c, tv in tr)) or 'always'


def show_part(p):
    h = p[0]
    if h == 'c':
        return repr(p[1])
    if h == 'b':
        return 'byte(%s)' % show(p[1])
    if h == 'a':
        return show_term(p[1])
    if h == 'i':
        return show(p[1])
    if h == 's':
        return '*' + show_term(p[1])
    if h == 'e':
        return 'each[%s: %s]' % (show(p[1]), ' | '.join(
            (show_trail(f) + ' -> ' if f else '') + (' ++ '.join(show_part(x) for x in q) or 'nothing') for f, q in p[2]))
    return repr(p)


def show(v):
    if isinstance(v, K):
        return repr(v.v) if not (isinstance(v.v, int) and abs(v.v) > 10**6) else hex(v.v)
    if isinstance(v, I):
        return show_poly(v.p)
    if isinstance(v, C):
        return show_term(v.c)
    if isinstance(v, F):
        return show_term(v.t)
    if isinstance(v, Sq):
        return '%s<%s>' % (v.kind, ' ++ '.join(show_part(p) for p in v.parts) or 'empty')
    if isinstance(v, Tup):
        return '(%s)' % ', '.join(show_part(p) for p in v.parts)
    if isinstance(v, NT):
        return '%s(%s)' % (v.cls.name, ', '.join('%s=%s' % (f, show(x)) for f, x in zip(v.cls.nt_fields(), v.items)))
    if isinstance(v, Ob):
        return '%s(%s)' % (v.cls.name, ', '.join('%s=%s' % (f, show(x)) for f, x in v.attrs))
    if isinstance(v, Enm):
        return '%s.%s' % (v.cls.name, v.name)
    if isinstance(v, (O, Lz)):
        return show_term(v.t)
    if isinstance(v, Ref):
        return 'Ref(%d)' % v.i
    if isinstance(v, Bi):
        return 'builtin ' + v.name
    return object.__repr__(v) if type(v).__repr__ is _T.__repr__ else repr(v)
