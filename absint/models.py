"""Abstract semantics of Python's built-in types and of the library functions that the
analysed package uses."""
import ast
import builtins as _py
import hashlib
import re
import urllib.parse
import string as _string

from .values import *
from .state import Unsupported, Infeasible, mk_ge0, mk_eq0
from .seqs import *
from . import seqs
from .engine import (cond_ge0, cond_eq0, c_and, c_or, c_not, cV, vC, BINOPS, PyExc, Brk)

FN = {}        # name -> handler(eng, self, args, kwargs)


def fn(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


REAL = {'int': int, 'bool': bool, 'float': float, 'str': str, 'bytes': bytes, 'bytearray': bytearray,
        'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'frozenset': frozenset,
        'NoneType': type(None), 'object': object, 'type': type, 'generator': type(i for i in ())}

EXCS = [n for n in dir(_py) if isinstance(getattr(_py, n), type) and issubclass(getattr(_py, n), BaseException)]


# --------------------------------------------------------------------- set-up
def install(eng):
    B = eng.builtins = {}
    obj = B['object'] = Cls('object', 'object', [], builtin=True)
    for n in ('type', 'int', 'float', 'str', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'set', 'frozenset',
              'NoneType', 'function', 'module', 'generator', 'range'):
        B[n] = Cls(n, n, [obj], builtin=True)
    B['bool'] = Cls('bool', 'bool', [B['int']], builtin=True)

    def exc(c):
        if c.__name__ in B:
            return B[c.__name__]
        bases = [exc(b) if b is not object else obj for b in c.__bases__]
        B[c.__name__] = Cls(c.__name__, c.__name__, bases, builtin=True)
        return B[c.__name__]
    for n in EXCS:
        e = exc(getattr(_py, n))
        B[n] = e
    B['binascii.Error'] = Cls('Error', 'binascii.Error', [B['ValueError']], builtin=True)
    B['struct.error'] = Cls('error', 'struct.error', [B['Exception']], builtin=True)
    for n in ('len ord chr range enumerate zip map filter reversed sorted any all sum min max abs round pow divmod '
              'isinstance issubclass hasattr getattr setattr repr hash iter next print super hex bin format callable '
              'locals globals vars eval exec dir id oct staticmethod classmethod property ascii delattr').split():
        if n not in B:
            B[n] = Bi(n)
    B['range'] = Bi('range')
    B['None'], B['True'], B['False'] = NONE, TRUE, FALSE
    B['NotImplemented'] = K(NotImplemented)
    B['Ellipsis'] = K(Ellipsis)
    B['__name__'] = K('?')
    B['Enum'] = None
    del B['Enum']
    eng.enum_base = Cls('Enum', 'enum.Enum', [obj], builtin=True)
    eng.enum_base.flags.add('enum')
    eng.number_cls = Cls('Number', 'numbers.Number', [obj], builtin=True)
    eng.ext_classes = {}


def lift(eng, x):
    """abstract value of a concrete Python value"""
    if x is None or isinstance(x, (bool, int, float, str, bytes)) or x is NotImplemented:
        return K(x)
    if isinstance(x, tuple):
        return Tup(tuple(('i', lift(eng, y)) for y in x))
    if isinstance(x, list):
        return eng.st.alloc('list', eng.builtins['list'], tuple(('i', lift(eng, y)) for y in x))
    if isinstance(x, bytearray):
        return eng.st.alloc('ba', eng.builtins['bytearray'], (('c', bytes(x)),) if x else ())
    if isinstance(x, (set, frozenset)):
        return eng.st.alloc('set', eng.builtins['set'], tuple(('i', lift(eng, y)) for y in sorted(x, key=repr)))
    if isinstance(x, dict):
        return eng.st.alloc('dict', eng.builtins['dict'], tuple((lift(eng, k), lift(eng, v)) for k, v in x.items()))
    raise Unsupported('constant %r' % type(x))


def lower(eng, v):
    """concrete Python value of a fully known abstract value, or raise KeyError"""
    if isinstance(v, K):
        return v.v
    if isinstance(v, Tup):
        if all(p[0] == 'i' for p in v.parts):
            return tuple(lower(eng, p[1]) for p in v.parts)
    if isinstance(v, Ref):
        c = eng.st.cell(v)
        if c.kind == 'list' and all(p[0] == 'i' for p in c.d):
            return [lower(eng, p[1]) for p in c.d]
        if c.kind == 'ba' and all(p[0] == 'c' for p in c.d):
            return bytearray(b''.join(p[1] for p in c.d))
    raise KeyError


def fold(eng, f, args, kwargs=None):
    """constant folding of a pure built-in on fully known arguments"""
    kw = kwargs or {}
    a = [lower(eng, x) for x in args]
    k = {n: lower(eng, x) for n, x in kw.items()}
    try:
        r = f(*a, **k)
    except Exception as e:
        if type(e).__module__ != 'builtins':
            raise KeyError
        if isinstance(e, (MemoryError, RecursionError)):
            raise KeyError
        eng.exc(type(e).__name__, str(e))
    if isinstance(r, (range, map, filter, zip, enumerate, reversed)) or hasattr(r, '__next__'):
        r = list(r)
    try:
        return lift(eng, r)
    except Unsupported:
        raise KeyError


# ------------------------------------------------------------------ externals
EXT = {
    'hashlib': 'sha256 sha1 sha512 md5 new ripemd160', 'hmac': 'new', 'binascii': 'hexlify unhexlify b2a_hex a2b_hex Error',
    'os': 'urandom', 'random': 'SystemRandom randint', 'functools': 'total_ordering reduce partial wraps lru_cache',
    'collections': 'namedtuple OrderedDict', 'enum': 'Enum', 'inspect': 'getmembers', 'sys': 'modules version_info maxsize',
    'numbers': 'Number', 'struct': 'pack unpack error', 'urllib.parse': 'urlparse urlsplit parse_qsl urlencode quote quote_plus',
    'itertools': 'chain count repeat', 'operator': 'itemgetter', 'math': '', 'ecdsa': '', 'codecs': 'encode decode',
    'secrets': 'randbelow', 'decimal': '', 'time': '', 'copy': 'copy', 'string': '', 're': '',
}


def external_module(eng, name):
    if name in ('urlparse', 'urllib2', 'Crypto', 'Crypto.Hash', 'Crypto.Hash.RIPEMD'):
        return None
    if name.split('.')[0] == 'bitforge':
        return None
    try:
        import importlib.util
        known = name in EXT or name.split('.')[0] in EXT or importlib.util.find_spec(name.split('.')[0]) is not None
    except (ImportError, ValueError):
        known = False
    if not known:
        return None
    return Mod(name, external=True)


def external_attr(eng, m, name):
    q = m.name + '.' + name
    if q == 'enum.Enum' or q == 'enum.IntEnum':
        return eng.enum_base
    if q == 'numbers.Number':
        return eng.number_cls
    if q in ('binascii.Error', 'struct.error'):
        return eng.builtins[q]
    if q == 'sys.version_info':
        return lift(eng, (3, 12, 3, 'final', 0))
    if q == 'sys.maxsize':
        return K(2 ** 63 - 1)
    if q == 'sys.modules':
        return O(('sys.modules',))
    if q == 'urllib.parse':
        return eng.import_module('urllib.parse')
    if q == 'os.path':
        return O(('ext', q))
    if q in ('math.inf', 'math.nan', 'math.pi'):
        import math
        return K(getattr(math, name))
    if q == 'collections.OrderedDict':
        return eng.builtins['dict']
    if m.name == 'string' and isinstance(getattr(_string, name, None), str):
        return K(getattr(_string, name))
    if q in FN:
        return Bi(q)
    if q in ('ecdsa.BadSignatureError', 'ecdsa.keys.BadSignatureError'):
        return ext_class(eng, 'ecdsa.BadSignatureError', 'AssertionError')
    return None


def ext_class(eng, q, base='Exception'):
    if q not in eng.ext_classes:
        eng.ext_classes[q] = Cls(q.split('.')[-1], q, [eng.builtins[base]], builtin=True)
    return eng.ext_classes[q]


def opaque_attr(eng, v, name):
    t = v.t
    if t == ('ext', 'ecdsa.der') and name == 'UnexpectedDER':
        return ext_class(eng, 'ecdsa.der.UnexpectedDER')
    if t == ('ext', 'ecdsa.keys') and name == 'BadSignatureError':
        return ext_class(eng, 'ecdsa.BadSignatureError', 'AssertionError')
    if t[0] == 'ext':
        return O(('ext', t[1] + '.' + name))
    if t[0] == 'url' and name in ('path', 'netloc', 'query', 'scheme', 'fragment', 'params', 'hostname'):
        tt = ('fld', t, name)
        return Sq('str', (('a', tt, termlen(tt)),))
    if t[0] == 'urlparts':
        d = dict(t[1:])
        if name in d:
            return d[name]
    if t == ('sysrandom',):
        return Bi('sysrandom.' + name, v)
    if t == ('weakrandom',) and 'random.' + name in FN:
        return Bi('random.' + name, v)
    if v.cls is not None and v.cls.builtin and v.cls.name in REAL:
        return Bi('opq.' + name, v)
    return None


def opaque_call(eng, f, args, kwargs):
    t = f.t
    fr = tuple(eng.freeze(a) for a in args)
    kw = tuple(sorted((k, eng.freeze(v)) for k, v in kwargs.items()))
    if t[0] == 'fld' and t[2] == 'verify_digest' or t[0] == 'fld' and t[2] == 'verify':
        k = eng.branch(('sigok', t[1], fr, kw))
        if k:
            return TRUE
        if eng.branch(('sigder', t[1], fr, kw)):
            eng.exc(ext_class(eng, 'ecdsa.der.UnexpectedDER'), 'der')
        eng.exc(ext_class(eng, 'ecdsa.BadSignatureError', 'AssertionError'), 'bad signature')
    if t[0] == 'fld' and t[2] in ('sign_digest', 'sign_digest_deterministic') and len(fr) <= 1:
        d = dict(kw)
        for k in ('entropy', 'k', 'hashfunc', 'extra_entropy'):
            if d.get(k, NONE) == NONE or k == 'hashfunc':
                d.pop(k, None)
        if 'digest' in d:
            fr = (d.pop('digest'),)
        t, kw = ('fld', t[1], 'sign_digest'), tuple(sorted(d.items()))
    if t == ('ext', 'ecdsa.SigningKey.from_secret_exponent'):
        d = dict(kw)
        d.pop('hashfunc', None)
        for k, v in zip(('secexp', 'curve'), fr):
            d[k] = v
        fr, kw = (), tuple(sorted(d.items()))
    r = ('call', t, fr, kw)
    if t[0] == 'fld' and t[2] in ('sign_digest', 'sign', 'sign_digest_deterministic', 'sign_deterministic', 'to_string'):
        n = termlen(r)
        if isinstance(n, I) and t[2] != 'to_string':
            # a DER signature of this curve
            eng.assume(cond_ge0(padd(poly(n), pconst(-8))))
            eng.assume(cond_ge0(padd(pconst(72), poly(n), -1)))
        return Sq('bytes', (('a', r, n),))
    if t[0] == 'imp':
        return eng.imp('call')
    return O(r)


def as_class(eng, b):
    if isinstance(b, Cls):
        return b
    if isinstance(b, O):
        q = str(b.t)
        return ext_class(eng, q, 'object')
    raise Unsupported('base class %r' % (b,))


# -------------------------------------------------------------- class machinery
def class_attr(eng, cls, name):
    if name == '__new__':
        return base_method(eng, cls, None, '__new__')
    for c in cls.mro():
        if c.builtin and c.name in REAL and hasattr(REAL[c.name], name):
            return Bi('%s.%s' % (c.name, name))
        if c.fields is not None:
            if name == '_make':
                return Partial(Bi('nt._make'), [cls], {})
            if name in c.fields:
                return Bi('nt.field.' + name)
        if 'enum' in c.flags and name == '__members__':
            raise Unsupported('__members__')
    if name in ('__subclasses__',):
        raise Unsupported(name)
    return None


def base_method(eng, cls, after, name):
    mro = cls.mro()
    if after is not None and after in mro:
        mro = mro[mro.index(after) + 1:]
    for c in mro:
        if c.fields is not None:
            if name == '__new__':
                return Bi('nt.__new__')
            if name in ('__repr__', '__eq__', '__hash__', '_replace', '_asdict', '__getitem__', '__len__', '__ne__', '__iter__'):
                return Bi('nt.' + name)
        if c.builtin:
            if c.issub(eng.builtins['BaseException']):
                if name == '__init__':
                    return Bi('exc.__init__')
                if name == '__new__':
                    return Bi('object.__new__')
                if name == '__str__':
                    return Bi('exc.__str__')
            n = c.name
            if name == '__new__':
                return Bi({'tuple': 'tuple.__new__'}.get(n, 'object.__new__'))
            if n in REAL and hasattr(REAL[n], name):
                return Bi('%s.%s' % (n, name))
    return None


@fn('object.__new__')
def _object_new(eng, self, args, kw):
    cls = args[0]
    return default_new(eng, cls, args[1:], kw)


@fn('object.__init__', 'object.__init_subclass__')
def _object_init(eng, self, args, kw):
    return NONE


@fn('object.__setattr__')
def _object_setattr(eng, self, args, kw):
    if self is None:
        self, args = args[0], args[1:]
    eng.setattr(self, args[0].v, args[1])
    return NONE


@fn('object.__repr__', 'object.__str__')
def _object_repr(eng, self, args, kw):
    return str_atom('repr', eng, self if self is not None else args[0])


@fn('object.__hash__')
def _object_hash(eng, self, args, kw):
    return mkint(patom(('hashval', eng.freeze(self))))


@fn('object.__eq__')
def _object_eq(eng, self, args, kw):
    return K(NotImplemented) if self != args[0] else TRUE


@fn('exc.__init__')
def _exc_init(eng, self, args, kw):
    eng.st.wcell(self, 'args').d['args'] = Tup(tuple(('i', a) for a in args))
    return NONE


@fn('exc.__str__')
def _exc_str(eng, self, args, kw):
    a = eng.st.cell(self).d.get('args', Tup(()))
    if len(a.parts) == 1:
        return to_str(eng, a.parts[0][1])
    return K('') if not a.parts else to_str(eng, a)


@fn('nt.__new__')
def _nt_new(eng, self, args, kw):
    cls = args[0]
    if not isinstance(cls, Cls):
        raise Unsupported('nt.__new__')
    return nt_make(eng, cls, args[1:], kw)


def nt_make(eng, cls, args, kw):
    fields = cls.nt_fields()
    base = [c for c in cls.mro() if c.fields is not None][0]
    vals = dict(zip(fields, args))
    if len(args) > len(fields):
        eng.exc('TypeError', '%s() takes %d arguments' % (cls.name, len(fields)))
    for k, v in kw.items():
        if k not in fields or k in vals:
            eng.exc('TypeError', '%s() got an unexpected keyword argument %r' % (cls.name, k))
        vals[k] = v
    nd = len(base.defaults)
    for i, f in enumerate(fields):
        if f not in vals:
            j = i - (len(fields) - nd)
            if j < 0:
                eng.exc('TypeError', '%s() missing %r' % (cls.name, f))
            vals[f] = base.defaults[j]
    return NT(cls, [vals[f] for f in fields])


@fn('nt._make')
def _nt_make(eng, self, args, kw):
    ps = eng.loops.parts(eng, args[1])
    if any(p[0] != 'i' for p in ps):
        raise Unsupported('_make')
    return nt_make(eng, args[0], [p[1] for p in ps], {})


def nt_attr(eng, v, name):
    if name in ('_replace', '_asdict'):
        return Bi('nt.' + name, v)
    if name == '_fields':
        return Tup(tuple(('i', K(f)) for f in v.cls.nt_fields()))
    if hasattr(tuple, name):
        return Bi('tuple.' + name, v)
    return None


@fn('nt._replace')
def _nt_replace(eng, self, args, kw):
    vals = dict(zip(self.cls.nt_fields(), self.items))
    for k, v in kw.items():
        if k not in vals:
            eng.exc('ValueError', 'unexpected field names')
        vals[k] = v
    # namedtuple._replace builds through _make, i.e. tuple.__new__: no validation
    return NT(self.cls, [vals[f] for f in self.cls.nt_fields()])


@fn('nt._asdict')
def _nt_asdict(eng, self, args, kw):
    return eng.st.alloc('dict', eng.builtins['dict'], tuple((K(f), x) for f, x in zip(self.cls.nt_fields(), self.items)))


@fn('nt.__repr__')
def _nt_repr(eng, self, args, kw):
    return str_atom('repr', eng, self)


@fn('nt.__eq__', 'tuple.__eq__')
def _nt_eq(eng, self, args, kw):
    if self is None:
        self, args = args[0], args[1:]
    o = args[0]
    if not isinstance(o, (NT, Tup)):
        return K(NotImplemented)
    return cV(eng.parts_eq(eng.loops.parts(eng, self), eng.loops.parts(eng, o)))


@fn('nt.__ne__', 'tuple.__ne__')
def _nt_ne(eng, self, args, kw):
    r = _nt_eq(eng, self, args, kw)
    return r if r == K(NotImplemented) else cV(c_not(vC(r)))


@fn('nt.__hash__', 'tuple.__hash__')
def _nt_hash(eng, self, args, kw):
    hashable(eng, self, top=True)
    return mkint(patom(('hashval', Tup(tuple(('i', eng.freeze(x)) for x in self.items)) if isinstance(self, NT) else eng.freeze(self))))


def default_new(eng, cls, args, kw):
    if cls.nt_fields() is not None:
        return nt_make(eng, cls, args, kw)
    B = eng.builtins
    for n in ('bytearray', 'list', 'dict', 'set', 'tuple', 'str', 'bytes', 'int', 'float'):
        if cls.issub(B[n]):
            if n == 'bytearray':
                return eng.st.alloc('ba', cls, ())
            if n == 'list':
                return eng.st.alloc('list', cls, ())
            if n == 'dict':
                return eng.st.alloc('dict', cls, ())
            if n == 'set':
                return eng.st.alloc('set', cls, ())
            raise Unsupported('subclass of ' + n)
    d = {}
    if cls.issub(B['BaseException']):
        d['args'] = Tup(tuple(('i', a) for a in args))
    return eng.st.alloc('inst', cls, d)


def default_init(eng, obj, cls, args, kw, userinit):
    B = eng.builtins
    if isinstance(obj, Ref):
        c = eng.st.cell(obj)
        if c.kind == 'ba':
            c.d = bytes_parts(eng, args, kw)
            return
        if c.kind == 'list':
            c.d = tuple(eng.loops.parts(eng, args[0])) if args else ()
            return
        if c.kind == 'set':
            c.d = eng.st.cell(mkset(eng, tuple(eng.loops.parts(eng, args[0])) if args else ())).d
            return
        if c.kind == 'dict':
            if args:
                call_builtin(eng, Bi('dict.update', obj), args, {})
            return
    if cls.nt_fields() is not None or cls.issub(B['BaseException']):
        return
    if (args or kw) and not userinit:
        eng.exc('TypeError', '%s() takes no arguments' % cls.name)


def enum_lookup(eng, cls, v):
    for n in cls.ns[' members']:
        m = cls.ns[n]
        if v == m:
            return m
        if not isinstance(v, Enm) and eng.branch(eng.eq(m.value, v)):
            return m
    eng.exc('ValueError', 'not a valid ' + cls.name)


# ------------------------------------------------------------------ hashability
def hashable(eng, v, top=False):
    v = eng.force(v)
    if isinstance(v, Ref):
        c = eng.st.cell(v)
        if c.kind in ('list', 'dict', 'set', 'ba'):
            eng.exc('TypeError', 'unhashable type: %s' % c.cls.name)
        if 'unhashable' in c.cls.flags:
            eng.exc('TypeError', 'unhashable type: %s' % c.cls.name)
    elif isinstance(v, NT):
        if 'unhashable' in v.cls.flags:
            eng.exc('TypeError', 'unhashable type: %s' % v.cls.name)
        m = None if top else eng.user_method(v, '__hash__')
        if m is not None:
            eng.call(m, [v])
        else:
            for x in v.items:
                hashable(eng, x)
    elif isinstance(v, Tup):
        for p in v.parts:
            if p[0] == 'i':
                hashable(eng, p[1])
            elif p[0] == 's':
                n = p[2]
                if eng.st.rng(poly(n))[1] > 0:
                    hashable(eng, eng.loops.seg_elem(eng, p, K(0)))
            elif p[0] == 'e':
                for tr, q in p[2]:
                    for x in q:
                        if x[0] == 'i':
                            hashable(eng, x[1])
    elif isinstance(v, Ob):
        if 'unhashable' in v.cls.flags:
            eng.exc('TypeError', 'unhashable type: %s' % v.cls.name)


@fn('hash')
def _hash(eng, self, args, kw):
    v = eng.force(args[0])
    if isinstance(v, (Ref, NT, Ob)):
        if 'unhashable' not in eng.type_of(v).flags:
            m = eng.user_method(v, '__hash__')
            if m is not None:
                return eng.call(m, [v])
    hashable(eng, v)
    return mkint(patom(('hashval', hash_key(eng, v))))


def hash_key(eng, v):
    """what a hash depends on: equal keys have equal hashes"""
    v = eng.force(v)
    if isinstance(v, (Ref, NT, Ob)) and 'unhashable' not in eng.type_of(v).flags:
        m = eng.user_method(v, '__hash__')
        if m is not None:
            return eng.force(eng.call(m, [v]))
    if isinstance(v, (Tup, NT)):
        ps = eng.loops.parts(eng, v)
        if all(p[0] == 'i' for p in ps):
            return Tup(tuple(('i', hash_key(eng, p[1])) for p in ps))
    return eng.freeze(v)


# ---------------------------------------------------------------- constructors
def construct(eng, cls, args, kw):
    n = cls.name
    args = [eng.force(a) for a in args]
    if cls.issub(eng.builtins['BaseException']):
        return eng.st.alloc('inst', cls, {'args': Tup(tuple(('i', a) for a in args))})
    f = CONS.get(n)
    if f is None:
        if n == 'object':
            return eng.st.alloc('inst', cls, {})
        raise Unsupported('construct ' + n)
    return f(eng, args, kw)


def c_int(eng, args, kw):
    if not args:
        return K(0)
    v = args[0]
    if isinstance(v, C):
        v = K(eng.branch(v.c))
    try:
        return fold(eng, int, [v] + args[1:], kw)
    except KeyError:
        pass
    if isint(v):
        return v
    if isinstance(v, F):
        if v.t[0] == 'ofint' :
            return v.t[1]
        if v.t[0] == 'round':
            return mkint(patom(('round', v.t[1])))
        if eng.branch(('finf', v)):
            eng.exc('OverflowError', 'cannot convert float infinity to integer')
        if eng.branch(('fnan', v)):
            eng.exc('ValueError', 'cannot convert float NaN to integer')
        return mkint(patom(('trunc', v)))
    s = eng.as_seq(v)
    if s is not None:
        base = args[1] if len(args) > 1 else kw.get('base', K(10))
        ps = parts_of(s)
        if len(ps) == 1 and ps[0][0] == 'a' and ps[0][1][0] == 'dstr' and base == K(10):
            return ps[0][1][1]
        if base == K(16) and ps and all(p[0] == 'a' and p[1][0] == 'hex' for p in ps):
            if eng.branch(cond_ge0(padd(tuplen(ps), pconst(-1)))):
                return dec_val(eng.st, tuple(x for p in ps for x in parts_of(p[1][1])))
        if not eng.branch(('isintstr', s, base)):
            eng.exc('ValueError', 'invalid literal for int()')
        t = ('intof', s, base)
        if eng.st.facts.get(('isdigit', s)):
            t = ('nonneg', t)
        return mkint(patom(t))
    if isinstance(v, O):
        if v.cls is None:
            return mkint(patom(('intof', v)))
    m = eng.user_method(v, '__int__') if isinstance(v, (Ref, NT, Ob)) else None
    if m is not None:
        return eng.call(m, [v])
    eng.exc('TypeError', 'int() argument')


def c_float(eng, args, kw):
    if not args:
        return K(0.0)
    v = args[0]
    try:
        return fold(eng, float, [v])
    except KeyError:
        pass
    if isinstance(v, F):
        return v
    if isint(v):
        return F(('ofint', v))
    s = eng.as_seq(v)
    if s is not None:
        if not eng.branch(('isfloatstr', s)):
            eng.exc('ValueError', 'could not convert string to float')
        return F(('floatof', s))
    if isinstance(v, O):
        return F(('floatof', v))
    eng.exc('TypeError', 'float() argument')


def c_bool(eng, args, kw):
    if not args:
        return FALSE
    return cV(eng.truth_cond(args[0]))


def str_atom(head, eng, v):
    t = (head, eng.freeze(v))
    return Sq('str', (('a', t, termlen(t)),))


def to_str(eng, v):
    v = eng.force(v)
    if isinstance(v, K):
        return K(str(v.v))
    if isinstance(v, C):
        return K(str(eng.branch(v.c)))
    if isinstance(v, I):
        return str_atom('dstr', eng, v)
    if isinstance(v, Sq) and v.kind == 'str':
        return v
    if isinstance(v, (Ref, NT, Ob)):
        for n in ('__str__', '__repr__'):
            m = eng.user_method(v, n)
            if m is not None:
                return eng.call(m, [v])
        if isinstance(v, Ref) and eng.st.cell(v).cls.issub(eng.builtins['BaseException']):
            return _exc_str(eng, v, [], {})
        if isinstance(v, NT):
            for x in v.items:
                to_repr(eng, x)
    if isinstance(v, Tup):
        return to_repr(eng, v)
    return str_atom('strof', eng, v)


def to_repr(eng, v):
    v = eng.force(v)
    if isinstance(v, K):
        return K(repr(v.v))
    if isinstance(v, I):
        return str_atom('dstr', eng, v)
    if isinstance(v, (Ref, NT, Ob)):
        m = eng.user_method(v, '__repr__')
        if m is not None:
            return eng.call(m, [v])
    if isinstance(v, (Tup, NT)) or (isinstance(v, Ref) and eng.st.cell(v).kind == 'list'):
        ps = eng.loops.parts(eng, v)
        rs = [to_repr(eng, p[1]) for p in ps if p[0] == 'i']
        if len(rs) == len(ps) and isinstance(v, (Tup, Ref)):
            a, b = '()' if isinstance(v, Tup) else '[]'
            out = [('c', a)]
            for k, r in enumerate(rs):
                out += ([('c', ', ')] if k else []) + list(parts_of(r))
            return mkseq('str', tuple(out) + (('c', ',)' if isinstance(v, Tup) and len(rs) == 1 else b),), eng.st)
    return str_atom('repr', eng, v)


def c_str(eng, args, kw):
    if not args:
        return K('')
    if len(args) > 1 or kw:
        return call_builtin(eng, Bi('bytes.decode', args[0]), args[1:], kw)
    return to_str(eng, args[0])


def byte_part(eng, v):
    """one integer as a byte, raising ValueError outside 0..255"""
    v = eng.force(v)
    if isinstance(v, C):
        v = K(int(eng.branch(v.c)))
    if not isint(v):
        if isinstance(v, O):
            return ('a', ('byteof', v), K(1))
        eng.exc('TypeError', 'an integer is required')
    if not eng.branch(c_and([cond_ge0(poly(v)), cond_ge0(padd(pconst(255), poly(v), -1))])):
        eng.exc('ValueError', 'byte must be in range(0, 256)')
    return ('b', v)


def bterm(t):
    """byte-string term behind a sequence-of-bytes segment term, or None"""
    if t[0] == 'B':
        return t[1]
    if t[0] == 'rev':
        x = bterm(t[1])
        return None if x is None else rev_term(x)
    if t[0] == 'slice':
        x = bterm(t[1])
        if x is None:
            return None
        ps = mk_slice(x, t[2], t[3])
        return ps[0][1] if ps else ('zeros', K(0))
    return None


def to_byte_parts(eng, parts):
    out = []
    for p in parts:
        if p[0] == 'i':
            out.append(byte_part(eng, p[1]))
        elif p[0] == 's':
            t = bterm(p[1])
            if t is not None:
                out.append(('a', t, p[2]))
                continue
            e = eng.loops.seg_elem(eng, p, K(0))
            raise Unsupported('bytes of a sequence of unknown numbers')
        else:
            # check the range of every alternative
            alts = []
            for tr, q in p[2]:
                qs = []
                for x in q:
                    if x[0] != 'i' or not isint(x[1]):
                        raise Unsupported('bytes of repeated layout')
                    lo, hi = eng.st.rng(poly(x[1]))
                    if lo < 0 or hi > 255:
                        raise Unsupported('bytes of unbounded numbers')
                    qs.append(('b', x[1]))
                alts.append((tr, norm('bytes', qs, eng.st)))
            alts = tuple(alts)
            out.append(('e', p[1], alts, each_len(p[1], alts)))
    return norm('bytes', out, eng.st)


def bytes_parts(eng, args, kw):
    if not args:
        return ()
    v = eng.force(args[0])
    if isinstance(v, C):
        v = K(eng.branch(v.c))
    s = eng.as_seq(v)
    if s is not None:
        if kind_of(s) == 'str':
            if len(args) < 2 and 'encoding' not in kw:
                eng.exc('TypeError', 'string argument without an encoding')
            return parts_of(call_builtin(eng, Bi('str.encode', s), args[1:], kw))
        return parts_of(s)
    if isint(v):
        if not eng.branch(cond_ge0(poly(v))):
            eng.exc('ValueError', 'negative count')
        return norm('bytes', (('a', ('zeros', v), v),), eng.st)
    if isinstance(v, (Ref, NT, Ob)):
        m = eng.user_method(v, '__bytes__')
        if m is not None:
            return parts_of(eng.call(m, [v]))
    if isinstance(v, O):
        if v.cls is None:
            t = ('bytesof', v)
            return (('a', t, termlen(t)),)
    if v == NONE or isinstance(v, (K, F)):
        eng.exc('TypeError', 'cannot convert to bytes')
    return to_byte_parts(eng, eng.loops.parts(eng, v))


def c_bytes(eng, args, kw):
    return mkseq('bytes', bytes_parts(eng, args, kw), eng.st)


def c_bytearray(eng, args, kw):
    return eng.st.alloc('ba', eng.builtins['bytearray'], bytes_parts(eng, args, kw))


def c_list(eng, args, kw):
    return eng.st.alloc('list', eng.builtins['list'], tuple(eng.loops.parts(eng, args[0])) if args else ())


def c_tuple(eng, args, kw):
    if not args:
        return Tup(())
    if isinstance(args[0], Tup):
        return args[0]
    return mkseq('tup', eng.loops.parts(eng, args[0]), eng.st)


def c_dict(eng, args, kw):
    r = eng.st.alloc('dict', eng.builtins['dict'], ())
    call_builtin(eng, Bi('dict.update', r), args, kw)
    return r


def c_set(eng, args, kw):
    return mkset(eng, tuple(eng.loops.parts(eng, args[0])) if args else ())


def c_type(eng, args, kw):
    if len(args) == 1:
        t = eng.type_of(args[0])
        if t is None:
            raise Unsupported('type of unknown')
        return t
    raise Unsupported('type()')


CONS = {'int': c_int, 'float': c_float, 'bool': c_bool, 'str': c_str, 'bytes': c_bytes, 'bytearray': c_bytearray,
        'list': c_list, 'tuple': c_tuple, 'dict': c_dict, 'set': c_set, 'frozenset': c_set, 'type': c_type}


# ------------------------------------------------------------------------ sets
def mkset(eng, parts):
    out = []
    for p in parts:
        if p[0] == 'i':
            hashable(eng, p[1])
            v = p[1]
            dup = False
            for q in out:
                if q[0] == 'i' and (q[1] == v or eng.branch(eng.eq(q[1], v))):
                    dup = True
                    break
            if not dup:
                out.append(p)
        else:
            hashable(eng, Tup((p,)))
            out.append(p)
    return eng.st.alloc('set', eng.builtins['set'], tuple(out))


def set_len(eng, parts):
    if all(p[0] == 'i' for p in parts):
        return K(len(parts))
    t = ('distinct', eng.freeze_parts(parts))
    n = mkint(patom(('nonneg', t)))
    eng.st.assume_ge0(padd(tuplen(parts), poly(n), -1))
    return n


def set_eq(eng, a, b):
    x, y = eng.st.cell(a).d, eng.st.cell(b).d
    if x == y:
        return True
    if all(p[0] == 'i' for p in x + y):
        return c_and([contains_parts(eng, x, q[1]) for q in y] +
                     [contains_parts(eng, y, q[1]) for q in x])
    return eng.eqv(O(('set', eng.freeze_parts(x))), O(('set', eng.freeze_parts(y))))


def set_order(eng, name, a, b):
    x, y = eng.st.cell(a).d, eng.st.cell(b).d
    if name in ('__ge__', '__gt__'):
        x, y = y, x
        name = {'__ge__': '__le__', '__gt__': '__lt__'}[name]
    if name == '__lt__':
        if not all(p[0] == 'i' for p in x + y):
            raise Unsupported('strict subset')
        return c_and([contains_parts(eng, y, q[1]) for q in x] + [c_not(c_and([contains_parts(eng, x, q[1]) for q in y]))])
    if all(p[0] == 'i' for p in x + y):
        return c_and([contains_parts(eng, y, q[1]) for q in x])
    return ('subset', eng.freeze_parts(x), eng.freeze_parts(y))


def contains_parts(eng, parts, item):
    cs = []
    for p in parts:
        if p[0] == 'i':
            c = eng.eq(p[1], item)
            if c is True:
                return True
            cs.append(c)
        else:
            cs.append(eng.loops.exists(eng, p, lambda e: eng.branch(eng.eq(e, item))))
    return c_or(cs)


def sub_parts(P, Q):
    """the parts P stand one after another within Q"""
    P, Q = list(P), list(Q)
    n = len(P)
    if not n:
        return True

    def fits(a, b, first, last):
        if a == b:
            return True
        if a[0] != 'c' or b[0] != 'c':
            return False
        if first and last:
            return a[1] in b[1]
        return first and b[1].endswith(a[1]) or last and b[1].startswith(a[1])
    return any(all(fits(P[j], Q[k + j], j == 0, j == n - 1) for j in range(n)) for k in range(len(Q) - n + 1))


def contains(eng, box, item):
    box = eng.force(box)
    item = eng.force(item)
    s = eng.as_seq(box)
    if s is not None:
        i = eng.as_seq(item)
        if kind_of(s) == 'bytes' and isint(item):
            return contains_parts(eng, eng.loops.parts(eng, s), item)
        if i is None or kind_of(i) != kind_of(s):
            eng.exc('TypeError', 'in requires a string')
        if isinstance(s, K) and isinstance(i, K):
            return i.v in s.v
        if sub_parts(parts_of(i), parts_of(s)):
            return True
        if kind_of(s) == 'bytes' and len(parts_of(i)) == 1 and parts_of(i)[0][0] == 'b':
            return contains_parts(eng, eng.loops.parts(eng, s), parts_of(i)[0][1])
        return ('substr', i, s)
    if isinstance(box, Ref):
        c = eng.st.cell(box)
        m = eng.user_method(box, '__contains__')
        if m is not None:
            return eng.truth_cond(eng.call(m, [box, item]))
        if c.kind == 'dict':
            return dict_has(eng, box, item)
        if c.kind == 'set':
            hashable(eng, item)
        if c.kind in ('list', 'set'):
            return contains_parts(eng, c.d, item)
    if isinstance(box, (Tup, NT)):
        return contains_parts(eng, eng.loops.parts(eng, box), item)
    if isinstance(box, O):
        return ('in', eng.freeze(item), box.t)
    if isinstance(box, Cls) and 'enum' in box.flags:
        return isinstance(item, Enm) and item.cls is box
    return contains_parts(eng, eng.loops.parts(eng, box), item)


# ----------------------------------------------------------------- dictionaries
def const_table(d):
    """dict of constant keys and values"""
    return len(d) > 6 and all(len(e) == 2 and isinstance(e[0], K) and isinstance(e[1], K) for e in d)


def keys_cond(eng, d, key):
    """membership of an integer in a table of constant integers, as a condition"""
    ks = sorted(e[0].v for e in d if isinstance(e[0].v, int))
    p = poly(key)
    lo, hi = eng.st.rng(p)
    ks = [k for k in ks if lo <= k <= hi]
    if not ks:
        return False
    runs = []
    for k in ks:
        if runs and runs[-1][1] == k - 1:
            runs[-1][1] = k
        else:
            runs.append([k, k])
    if len(runs) > 3:
        if lo == hi:
            return True
        return ('intab', key, tuple(ks))
    return c_or([c_and([cond_ge0(padd(p, pconst(-a))), cond_ge0(padd(pconst(b), p, -1))]) for a, b in runs])


def table_value(eng, d, key):
    vals = [e[1].v for e in d]
    if all(type(e[0].v) is int for e in d):
        lo, hi = eng.st.rng(poly(key))
        d = sorted((e for e in d if lo <= e[0].v <= hi), key=lambda e: e[0].v)
    t = ('lookup', tuple((e[0], e[1]) for e in d), key)
    if all(isinstance(x, str) for x in vals):
        return Sq('str', (('a', t, termlen(t)),))
    if all(isinstance(x, int) for x in vals):
        lo, hi = min(vals), max(vals)
        if lo >= 0 and hi <= 255:
            t = ('byte', t)
        return mkint(patom(t))
    return None


def dict_lookup(eng, ref, key):
    """value, or None"""
    hashable(eng, key)
    d = eng.st.cell(ref).d
    if isinstance(key, I) and const_table(d) and table_value(eng, d, key) is not None:
        if not eng.branch(keys_cond(eng, d, key)):
            return None
        lo, hi = eng.st.rng(key.p)
        if lo != hi:
            return table_value(eng, d, key)
        key = K(lo)
    for e in reversed(d):
        if len(e) == 3:
            if e[2] == 'str':
                if eng.branch(('haskey', e[1], eng.freeze(key))):
                    t = ('dictval', e[1], eng.freeze(key))
                    return Sq('str', (('a', t, termlen(t)),))
                return None
            raise Unsupported('lookup in an unknown dict')
        k, v = e
        if isinstance(k, K) and isinstance(key, K):
            try:
                if k.v == key.v:
                    return v
            except Exception:
                pass
            continue
        if eng.branch(eng.eq(k, key)):
            return v
    return None


def dict_has(eng, ref, key):
    hashable(eng, key)
    d = eng.st.cell(ref).d
    if isinstance(key, I) and const_table(d):
        return keys_cond(eng, d, key)
    cs = []
    for e in reversed(d):
        if len(e) == 3:
            cs.append(('haskey', e[1], eng.freeze(key)))
            continue
        c = eng.eq(e[0], key)
        if c is True:
            return True
        cs.append(c)
    return c_or(cs)


def dict_set(eng, ref, key, v):
    hashable(eng, key)
    c = eng.st.wcell(ref)
    d = c.d
    for i, e in enumerate(d):
        if len(e) == 2 and (e[0] == key or (not (isinstance(e[0], K) and isinstance(key, K)) and eng.branch(eng.eq(e[0], key)))):
            c.d = d[:i] + ((e[0], v),) + d[i + 1:]
            return
    c.d = d + ((key, v),)


def dict_items(eng, v):
    v = eng.force(v)
    if isinstance(v, Ref) and eng.st.cell(v).kind == 'dict':
        d = eng.st.cell(v).d
        if any(len(e) != 2 for e in d):
            raise Unsupported('items of an unknown dict')
        return d
    raise Unsupported('items of %r' % (v,))


def dict_eq(eng, a, b):
    x, y = dict_items(eng, a), dict_items(eng, b)
    if len(x) != len(y):
        return False
    cs = []
    for k, v in x:
        w = dict_lookup(eng, b, k)
        if w is None:
            return False
        cs.append(eng.eq(v, w))
    return c_and(cs)


# ---------------------------------------------------------- indexing and slices
def settle(eng, p, n):
    """decide an index into a short sequence of known length"""
    if pis_const(p) or not pis_const(n) or pcval(n) > 12:
        return p
    lo, hi = eng.st.rng(p)
    if lo == hi:
        return pconst(lo)
    if hi - lo > 12:
        return p
    for k in range(int(lo), int(hi)):
        if eng.branch(cond_eq0(padd(p, pconst(-k)))):
            return pconst(k)
    return pconst(int(hi))


def norm_index(eng, i, n):
    """non-negative index poly for i in a sequence of length n, or None when out of range"""
    if isinstance(i, C):
        i = K(int(eng.branch(i.c)))
    if isinstance(i, K) and isinstance(i.v, bool):
        i = K(int(i.v))
    if not isint(i):
        eng.exc('TypeError', 'indices must be integers')
    p = poly(i)
    if not eng.branch(cond_ge0(p)):
        p = padd(p, n)
        if not eng.branch(cond_ge0(p)):
            return None
        return p
    if not eng.branch(cond_ge0(padd(padd(n, p, -1), pconst(-1)))):
        return None
    return settle(eng, p, n)


def slice_bounds(eng, s, n):
    def clamp(v, default):
        if v == NONE:
            return default
        if isinstance(v, C):
            v = K(int(eng.branch(v.c)))
        if not isint(v):
            eng.exc('TypeError', 'slice indices must be integers')
        p = poly(v)
        if not eng.branch(cond_ge0(p)):
            p = padd(p, n)
            if not eng.branch(cond_ge0(p)):
                return ()
            return p
        if not eng.branch(cond_ge0(padd(n, p, -1))):
            return n
        return settle(eng, p, n)
    a = clamp(eng.force(s.a), ())
    b = clamp(eng.force(s.b), n)
    if not eng.branch(cond_ge0(padd(b, a, -1))):
        b = a
    return a, b


def slice_parts(eng, parts, s):
    step = eng.force(s.c)
    n = tuplen(parts)
    if step not in (NONE, K(1)):
        if step == K(-1) and s.a == NONE and s.b == NONE:
            return rev_parts(parts)
        if all(p[0] in ('i', 'b') or p[0] == 'c' for p in parts):
            xs = []
            for p in parts:
                if p[0] == 'c':
                    xs += [('c', p[1][i:i + 1]) for i in range(len(p[1]))]
                else:
                    xs.append(p)
            try:
                return tuple(xs[slice(*[x.v for x in (s.a, s.b, step)])])
            except AttributeError:
                pass
        raise Unsupported('slice step')
    a, b = slice_bounds(eng, s, n)
    if a == b:
        return ()

    def go():
        l, r = cut(eng.st, parts, b)
        l, r = cut(eng.st, l, a)
        return r
    return eng.retry(go)


def seq_index(eng, parts, i):
    """element of tuple parts at index i (0 <= i < length)"""
    def go():
        l, r = cut(eng.st, parts, poly(i))
        return r
    r = eng.retry(go)
    while r and r[0][0] != 'i':
        p = r[0]
        # the segment may be empty
        if not eng.branch(cond_ge0(padd(plen(p), pconst(-1)))):
            r = r[1:]
            continue
        return eng.loops.seg_elem(eng, p, K(0))
    if not r:
        raise Unsupported('index beyond known parts')
    return r[0][1]


def byte_at(eng, s, p):
    return eng.retry(lambda: index_seq(eng.st, s, mkint(p)))


def getitem(eng, v, i):
    if isinstance(v, Ref):
        c = eng.st.cell(v)
        m = eng.user_method(v, '__getitem__')
        if m is not None:
            return eng.call(m, [v, i])
        if c.kind == 'dict':
            r = dict_lookup(eng, v, i)
            if r is None:
                eng.exc('KeyError', i)
            return r
        if c.kind == 'list':
            if isinstance(i, Slice):
                return eng.st.alloc('list', eng.builtins['list'], slice_parts(eng, c.d, i))
            p = norm_index(eng, i, tuplen(c.d))
            if p is None:
                eng.exc('IndexError', 'list index out of range')
            return seq_index(eng, c.d, mkint(p))
        if c.kind == 'ba':
            if isinstance(i, Slice):
                # a slice of a bytearray subclass is a plain bytearray
                return eng.st.alloc('ba', eng.builtins['bytearray'], norm('bytes', slice_parts(eng, c.d, i), eng.st))
            p = norm_index(eng, i, tuplen(c.d))
            if p is None:
                eng.exc('IndexError', 'bytearray index out of range')
            return byte_at(eng, Sq('bytes', c.d), p)
        eng.exc('TypeError', '%s object is not subscriptable' % c.cls.name)
    if isinstance(v, (Tup, NT)):
        m = eng.user_method(v, '__getitem__')
        if m is not None:
            return eng.call(m, [v, i])
        parts = eng.loops.parts(eng, v)
        if isinstance(i, Slice):
            return mkseq('tup', slice_parts(eng, parts, i), eng.st)
        p = norm_index(eng, i, tuplen(parts))
        if p is None:
            eng.exc('IndexError', 'tuple index out of range')
        return seq_index(eng, parts, mkint(p))
    s = eng.as_seq(v)
    if s is not None:
        if isinstance(s, K):
            try:
                if isinstance(i, Slice):
                    return K(s.v[slice(lower(eng, i.a), lower(eng, i.b), lower(eng, i.c))])
                if isinstance(i, K):
                    try:
                        return K(s.v[i.v])
                    except (IndexError, TypeError) as e:
                        eng.exc(type(e).__name__, str(e))
            except KeyError:
                pass
        k = kind_of(s)
        if isinstance(i, Slice):
            return mkseq(k, slice_parts(eng, parts_of(s), i), eng.st)
        n = seqlen(s)
        p = norm_index(eng, i, n)
        if p is None:
            eng.exc('IndexError', 'index out of range')
        if isinstance(s, K) and not pis_const(p):
            lo, hi = eng.st.rng(p)
            if lo == hi:
                return K(s.v[lo])
            tab = tuple((K(j), K(s.v[j] if k == 'bytes' else s.v[j])) for j in range(len(s.v)))
            if k == 'bytes':
                return mkint(patom(('byte', ('lookup', tab, mkint(p)))))
            t = ('lookup', tab, mkint(p))
            return Sq('str', (('a', t, K(1)),))
        if k == 'bytes':
            return byte_at(eng, s, p)
        return mkseq('str', eng.retry(lambda: cut(eng.st, cut(eng.st, parts_of(s), padd(p, pconst(1)))[0], p)[1]), eng.st)
    if isinstance(v, O):
        if v.t == ('sys.modules',) and isinstance(i, K):
            m = eng.mods.get(i.v)
            if m is None:
                eng.exc('KeyError', i)
            return m
        if v.t[0] == 'imp':
            return eng.imp('item')
        return O(('item', v.t, eng.freeze(i) if not isinstance(i, Slice) else (eng.freeze(i.a), eng.freeze(i.b), eng.freeze(i.c))))
    if isinstance(v, Cls) and 'enum' in v.flags and isinstance(i, K):
        if i.v in v.ns[' members']:
            return v.ns[i.v]
        eng.exc('KeyError', i)
    if isinstance(v, Ob):
        m = eng.user_method(v, '__getitem__')
        if m is not None:
            return eng.call(m, [v, i])
    t = eng.type_of(v)
    eng.exc('TypeError', '%s object is not subscriptable' % (t.name if t else v))


def replace_at(eng, parts, p, new):
    def go():
        l, r = cut(eng.st, parts, p)
        m, r = cut(eng.st, r, pconst(1))
        return l, r
    l, r = eng.retry(go)
    return l + new + r


def setitem(eng, v, i, x):
    v, i = eng.force(v), eng.force(i)
    if isinstance(v, Ref):
        c = eng.st.cell(v)
        m = eng.user_method(v, '__setitem__')
        if m is not None:
            eng.call(m, [v, i, x])
            return
        if c.kind == 'dict':
            return dict_set(eng, v, i, x)
        if c.kind in ('list', 'ba'):
            if isinstance(i, Slice):
                if i.c not in (NONE, K(1)):
                    raise Unsupported('extended slice assignment')
                a, b = slice_bounds(eng, i, tuplen(c.d))
                new = bytes_parts(eng, [x], {}) if c.kind == 'ba' else tuple(eng.loops.parts(eng, x))

                def go():
                    l, r = cut(eng.st, c.d, b)
                    l, m = cut(eng.st, l, a)
                    return l + new + r
                eng.st.wcell(v).d = norm('bytes' if c.kind == 'ba' else 'tup', eng.retry(go), eng.st)
                return
            p = norm_index(eng, i, tuplen(c.d))
            if p is None:
                eng.exc('IndexError', 'assignment index out of range')
            if c.kind == 'ba':
                new = replace_at(eng, c.d, p, (byte_part(eng, x),))
                eng.st.wcell(v).d = norm('bytes', new, eng.st)
            else:
                new = replace_at(eng, c.d, p, (('i', x),))
                eng.st.wcell(v).d = new
            return
    if isinstance(v, O):
        raise Unsupported('item assignment on an unknown object')
    eng.exc('TypeError', 'object does not support item assignment')


def delitem(eng, v, i):
    v, i = eng.force(v), eng.force(i)
    if isinstance(v, Ref):
        c = eng.st.cell(v)
        if c.kind == 'dict':
            for j, e in enumerate(c.d):
                if len(e) == 3:
                    raise Unsupported('del in an unknown dict')
                if eng.branch(eng.eq(e[0], i)):
                    eng.st.wcell(v).d = c.d[:j] + c.d[j + 1:]
                    return
            eng.exc('KeyError', i)
        if c.kind in ('list', 'ba'):
            n = tuplen(c.d)
            if isinstance(i, Slice):
                if i.c not in (NONE, K(1)):
                    raise Unsupported('extended slice deletion')
                a, b = slice_bounds(eng, i, n)
            else:
                a = norm_index(eng, i, n)
                if a is None:
                    eng.exc('IndexError', 'deletion index out of range')
                b = padd(a, pconst(1))
            if a == b:
                return

            def go():
                l, r = cut(eng.st, c.d, b)
                l, m = cut(eng.st, l, a)
                return l + r
            new = eng.retry(go)
            eng.st.wcell(v).d = norm('bytes' if c.kind == 'ba' else 'tup', new, eng.st)
            return
    eng.exc('TypeError', 'object does not support item deletion')


def extend(eng, ref, v):
    c = eng.st.cell(ref)
    if c.kind == 'ba':
        if isinstance(v, K) and isinstance(v.v, str) or isinstance(v, Sq) and v.kind == 'str':
            eng.exc('TypeError', 'expected iterable of integers; got: str')
        if isint(v):
            eng.exc('TypeError', 'object is not iterable')
        new = c.d + tuple(bytes_parts(eng, [v], {}))
        eng.st.wcell(ref).d = norm('bytes', new, eng.st)
    else:
        new = c.d + tuple(eng.loops.parts(eng, v))
        eng.st.wcell(ref).d = norm('tup', new, eng.st)


# ------------------------------------------------------------------- operators
def bit_and(st, p, mask):
    """p & mask for a constant mask (p any integer), as a poly"""
    if mask < 0:
        return padd(p, bit_and(st, p, ~mask), -1)
    out = ()
    k = 0
    while mask >> k:
        if not (mask >> k) & 1:
            k += 1
            continue
        j = k
        while (mask >> j) & 1:
            j += 1
        seg = st.mod(st.fdiv(p, 1 << k), 1 << (j - k))
        out = padd(out, pscale(seg, 1 << k))
        k = j
    return out


PYOP = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
        ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
        ast.Pow: lambda a, b: a ** b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
        ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b}


def isnum(v):
    return isint(v) or isinstance(v, F) or (isinstance(v, K) and isinstance(v.v, float))


def fop(op, a, b):
    name = {ast.Add: 'fadd', ast.Sub: 'fsub', ast.Mult: 'fmul', ast.Div: 'fdivide'}.get(op)
    if name is None:
        raise Unsupported('float operator')

    def w(x):
        return K(float(x.v)) if isinstance(x, K) and isinstance(x.v, int) and abs(x.v) < 2 ** 53 else x
    a, b = w(a), w(b)
    if name in ('fadd', 'fmul') and aid(('V', a)) > aid(('V', b)):
        a, b = b, a
    return F((name, a, b))


def binop(eng, op, a, b):
    if isinstance(a, K) and isinstance(b, K):
        if op is ast.Mod and isinstance(a.v, str):
            return percent(eng, a, b)
        try:
            if op is ast.Pow and isinstance(b.v, int) and abs(b.v) > 100000:
                raise Unsupported('huge power')
            if op is ast.LShift and b.v > 100000:
                raise Unsupported('huge shift')
            if op is ast.Mult and isinstance(b.v, int) and isinstance(a.v, (bytes, str)) and b.v * len(a.v) > 10 ** 6:
                raise Unsupported('huge repeat')
            return K(PYOP[op](a.v, b.v))
        except (TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
            eng.exc(type(e).__name__, str(e))
    # user-defined operators
    name = BINOPS[op]
    for x, y, n in ((a, b, name), (b, a, name.replace('__', '__r', 1))):
        if isinstance(x, (Ref, NT, Ob)) or (isinstance(x, O) and x.cls is not None and not x.cls.builtin):
            m = eng.user_method(x, n)
            if m is not None:
                r = eng.call(eng.bind(m, None, x, None), [y])
                if r == K(NotImplemented):
                    continue
                return r
    st = eng.st
    if isint(a) and isint(b):
        return int_op(eng, op, a, b)
    if isnum(a) and isnum(b):
        if op is ast.Div and isint(b) is False and isinstance(b, F):
            if eng.branch(('fzero', b)):
                eng.exc('ZeroDivisionError', 'float division by zero')
        return fop(op, a, b)
    if op is ast.Mod and (isinstance(a, Sq) and a.kind == 'str' or isinstance(a, K) and isinstance(a.v, str)):
        return percent(eng, a, b)
    sa, sb = eng.as_seq(a), eng.as_seq(b)
    if op is ast.Add and sa is not None and sb is not None:
        if kind_of(sa) != kind_of(sb):
            eng.exc('TypeError', "can't concat %s to %s" % (kind_of(sb), kind_of(sa)))
        r = mkseq(kind_of(sa), parts_of(sa) + parts_of(sb), st)
        if isinstance(a, Ref):
            return st.alloc('ba', eng.builtins['bytearray'], parts_of(r))
        return r
    la, lb = is_list(eng, a), is_list(eng, b)
    if op is ast.Add:
        if la and lb:
            return st.alloc('list', eng.builtins['list'], norm('tup', st.cell(a).d + st.cell(b).d, st))
        if isinstance(a, (Tup, NT)) and isinstance(b, (Tup, NT)):
            return mkseq('tup', eng.loops.parts(eng, a) + eng.loops.parts(eng, b), st)
    if op is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if isint(y):
                s = eng.as_seq(x)
                if s is not None or is_list(eng, x) or isinstance(x, (Tup, NT)):
                    return repeat(eng, x, s, y)
    if isinstance(a, Ref) and isinstance(b, Ref) and st.cell(a).kind == 'set' and st.cell(b).kind == 'set':
        if op is ast.BitOr:
            return mkset(eng, st.cell(a).d + st.cell(b).d)
        return set_op(eng, op, st.cell(a).d, st.cell(b).d)
    if isinstance(a, O) or isinstance(b, O):
        if (isinstance(a, O) and a.t[0] == 'imp') or (isinstance(b, O) and b.t[0] == 'imp'):
            return eng.imp('op')
        return O(('op', name, eng.freeze(a), eng.freeze(b)))
    ta, tb = eng.type_of(a), eng.type_of(b)
    eng.exc('TypeError', 'unsupported operand types for %s: %s and %s' % (name, ta.name if ta else '?', tb.name if tb else '?'))


def is_list(eng, v):
    return isinstance(v, Ref) and eng.st.cell(v).kind == 'list'


def repeat(eng, x, s, n):
    st = eng.st
    if isinstance(n, I):
        lo, hi = st.rng(n.p)
        if lo == hi:
            n = K(lo)
    if s is not None:
        kind = kind_of(s)
        if isinstance(n, K):
            if len(parts_of(s)) * max(n.v, 0) > 5000:
                raise Unsupported('huge repeat')
            ps = parts_of(s) * max(n.v, 0)
        else:
            if not eng.branch(cond_ge0(poly(n))):
                ps = ()
            elif s == K(b'\0'):
                ps = (('a', ('zeros', n), n),)
            else:
                alts = ((frozenset(), parts_of(s)),)
                ps = (('e', n, alts, each_len(n, alts)),)
        r = mkseq(kind, ps, st)
        if isinstance(x, Ref):
            return st.alloc('ba', eng.builtins['bytearray'], parts_of(r))
        return r
    ps = eng.loops.parts(eng, x)
    if isinstance(n, K):
        out = tuple(ps) * max(n.v, 0)
    elif not eng.branch(cond_ge0(poly(n))):
        out = ()
    else:
        if any(p[0] != 'i' for p in ps):
            raise Unsupported('repeat of unknown length')
        out = (('e', n, ((frozenset(), tuple(ps)),)),) if ps else ()
    if isinstance(x, Ref):
        return st.alloc('list', eng.builtins['list'], out)
    return mkseq('tup', out, st)


def telescope(st, p):
    """256*fdiv(x, 256) + mod(x, 256)  ->  x"""
    if any(t[0] in ('mod', 'fdiv') for t in patoms(p)):
        p = resimp(st, p)
        if len(p) > 1 and any(t[0] == 'mod' for t in patoms(p)):
            r = st.canon(p)
            if len(r) < len(p) or not any(t[0] in ('mod', 'fdiv') for t in patoms(r)):
                return r
    return p


def int_op(eng, op, a, b):
    st = eng.st
    p, q = poly(a), poly(b)
    if op is ast.Add:
        return mkint(telescope(st, padd(p, q)))
    if op is ast.Sub:
        return mkint(telescope(st, padd(p, q, -1)))
    if op is ast.Mult:
        return mkint(pmul(p, q))
    if op in (ast.FloorDiv, ast.Mod):
        if isinstance(b, I):
            lo, hi = st.rng(q)
            if lo == hi:
                b = K(lo)
                q = pconst(lo)
        if isinstance(b, K):
            if b.v == 0:
                eng.exc('ZeroDivisionError', 'integer modulo by zero')
            if b.v > 0:
                return mkint(st.fdiv(p, b.v) if op is ast.FloorDiv else st.mod(p, b.v))
            if op is ast.FloorDiv:
                return mkint(st.fdiv(pscale(p, -1), -b.v))
            return mkint(pscale(st.mod(pscale(p, -1), -b.v), -1))
        if eng.branch(cond_eq0(q)):
            eng.exc('ZeroDivisionError', 'integer modulo by zero')
        return mkint(patom(('fdiv' if op is ast.FloorDiv else 'mod', a, b)))
    if op is ast.Div:
        if eng.branch(cond_eq0(q)):
            eng.exc('ZeroDivisionError', 'division by zero')
        return fop(op, a, b)
    if op is ast.Pow:
        if isinstance(b, K):
            if b.v < 0:
                return F(('fpow', a, b))
            if b.v <= 16:
                r = pconst(1)
                for _ in range(b.v):
                    r = pmul(r, p)
                return mkint(r)
        return mkint(patom(('pow', a, b)))
    if op in (ast.LShift, ast.RShift):
        if isinstance(b, I):
            lo, hi = st.rng(q)
            if lo == hi:
                b = K(lo)
        if isinstance(b, K):
            if b.v < 0:
                eng.exc('ValueError', 'negative shift count')
            if b.v > 100000:
                raise Unsupported('huge shift')
            if op is ast.LShift:
                return mkint(pscale(p, 1 << b.v))
            return mkint(st.fdiv(p, 1 << b.v))
        if not eng.branch(cond_ge0(q)):
            eng.exc('ValueError', 'negative shift count')
        two = ('pow', K(2), b)
        if op is ast.LShift:
            return mkint(pmul(p, patom(two)))
        return mkint(patom(('fdiv', a, mkint(patom(two)))))
    # bitwise
    if isinstance(a, I):
        lo, hi = st.rng(p)
        if lo == hi:
            a, p = K(lo), pconst(lo)
    if isinstance(b, I):
        lo, hi = st.rng(q)
        if lo == hi:
            b, q = K(lo), pconst(lo)
    if isinstance(a, K) and isinstance(b, K):
        return K(PYOP[op](a.v, b.v))
    if isinstance(a, K):
        a, b, p, q = b, a, q, p
    if isinstance(b, K):
        x = bit_and(st, p, b.v)
    else:
        x = disjoint_and(eng, p, q)
        if x is None:
            if a == b:
                x = p
            else:
                if aid(('V', a)) > aid(('V', b)):
                    a, b = b, a
                lo = 0 if st.rng(p)[0] >= 0 or st.rng(q)[0] >= 0 else -INF
                x = patom(('nonneg', ('band', a, b))) if lo == 0 else patom(('band', a, b))
    if op is ast.BitAnd:
        return mkint(x)
    if op is ast.BitOr:
        return mkint(telescope(st, padd(padd(p, q), x, -1)))
    return mkint(telescope(st, padd(padd(p, q), pscale(x, -2))))


def remainders(st, p):
    """x - 256*fdiv(x, 256)  ->  mod(x, 256)"""
    for t in patoms(p):
        if t[0] == 'fdiv' and isinstance(t[2], K) and t[2].v > 0:
            c = dict(p).get(next(iter(patom(t)))[0], 0)
            if c and c % t[2].v == 0:
                k = -c // t[2].v
                r = padd(padd(p, patom(t), -c), padd(pscale(poly(t[1]), -k), pscale(patom(('mod', t[1], t[2])), k)))
                if len(r) < len(p):
                    return r
    return p


def disjoint_and(eng, p, q):
    """() when the two values provably share no bits"""
    st = eng.st

    def width(x):
        lo, hi = st.rng(x)
        if lo < 0 or hi == INF:
            x = remainders(st, x)
            lo, hi = st.rng(x)
            if lo < 0 or hi == INF:
                return None
        return hi.bit_length()

    def low(x):
        g = 0
        from math import gcd
        for m, c in x:
            g = gcd(g, c)
        return (g & -g).bit_length() - 1 if g else 0
    for a, b in ((p, q), (q, p)):
        w = width(a)
        if w is not None and st.rng(b)[0] >= 0 and low(b) >= w:
            return ()
    return None


# ------------------------------------------------------------------- dispatch
PURE_BUILTIN = {'ord': ord, 'chr': chr, 'abs': abs, 'round': round, 'pow': pow, 'divmod': divmod, 'hex': hex, 'bin': bin,
                'oct': oct, 'repr': repr, 'format': format, 'ascii': ascii}
MUT = {'append', 'extend', 'pop', 'insert', 'reverse', 'sort', 'remove', 'clear', 'add', 'update', 'discard', 'setdefault'}


def call_builtin(eng, f, args, kw):
    name = f.name
    args = [eng.force(a) for a in args]
    eng.calls += 1
    if '.' in name:
        t, m = name.split('.', 1)
        if t in REAL and m not in MUT and not m.startswith('__'):
            try:
                if f.self is not None and not isinstance(f.self, Cls):
                    x = lower(eng, f.self)
                    return fold(eng, getattr(x, m), args, kw)
                if f.self is None and args or isinstance(f.self, Cls):
                    return fold(eng, getattr(REAL[t], m), args, kw)
            except KeyError:
                pass
            except AttributeError:
                pass
    elif name in PURE_BUILTIN:
        try:
            return fold(eng, PURE_BUILTIN[name], args, kw)
        except KeyError:
            pass
    h = FN.get(name)
    if h is None and '.' in name:
        t, m = name.split('.', 1)
        if t == 'bytearray':
            h = FN.get('bytes.' + m)
        if t == 'bool':
            h = FN.get('int.' + m)
        if t == 'frozenset':
            h = FN.get('set.' + m)
    if h is None:
        raise Unsupported('no model of ' + name)
    if f.self is None and '.' in name and name.split('.')[0] in REAL and args and name not in STATIC:
        return h(eng, args[0], args[1:], kw)
    return h(eng, f.self, args, kw)


STATIC = {'int.from_bytes', 'bytes.fromhex', 'bytearray.fromhex', 'dict.fromkeys', 'object.__new__', 'tuple.__new__',
          'str.maketrans', 'object.__setattr__', 'object.__repr__', 'object.__str__'}


def method(eng, v, name):
    """bound built-in method of a value, or None"""
    if isinstance(v, (Ref, NT, Ob, Enm)):
        t = eng.type_of(v)
        for c in t.mro():
            if c.builtin and c.name in REAL and (hasattr(REAL[c.name], name)):
                return Bi('%s.%s' % (c.name, name), v)
            if c.builtin and c.issub(eng.builtins['BaseException']) and name in ('__str__', '__init__', 'with_traceback'):
                return Bi('exc.' + name, v)
        return None
    if isinstance(v, (Fn, BM, Bi, Mod, Partial)):
        return None
    t = eng.type_of(v)
    if t is None:
        raise Unsupported('attribute %s of %r' % (name, v))
    if t.name in REAL and hasattr(REAL[t.name], name):
        if t.name == 'int' and name in ('real', 'numerator'):
            return v
        return Bi('%s.%s' % (t.name, name), v)
    return None


# ----------------------------------------------------------------- formatting
def format_value(eng, v, conv, spec):
    v = eng.force(v)
    if conv == 'r':
        v = to_repr(eng, v)
    elif conv == 's':
        v = to_str(eng, v)
    if isinstance(v, C):
        v = K(eng.branch(v.c))
    if spec == '':
        if isinstance(v, (Ref, NT, Ob)):
            m = eng.user_method(v, '__format__')
            if m is not None:
                return eng.call(m, [v, K('')])
        return to_str(eng, v)
    if isinstance(v, K):
        try:
            return K(format(v.v, spec))
        except (ValueError, TypeError) as e:
            eng.exc(type(e).__name__, str(e))
    if v == NONE or isinstance(v, (Ref, NT, Ob, Tup)):
        eng.exc('TypeError', 'unsupported format string')
    if spec == 'd' and isint(v):
        return to_str(eng, v)
    if spec == 's' and isinstance(v, Sq):
        return v
    t = ('fmt', spec, eng.freeze(v))
    return Sq('str', (('a', t, termlen(t)),))


def percent(eng, f, args):
    if not isinstance(f, K):
        raise Unsupported('format with an unknown template')
    vals = [p for p in args.parts] if isinstance(args, Tup) else None
    if vals is not None:
        if any(p[0] != 'i' for p in vals):
            raise Unsupported('format with unknown arguments')
        vals = [p[1] for p in vals]
    elif isinstance(args, NT):
        vals = list(args.items)
    else:
        vals = [args]
    out = []
    import re
    pos = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?([a-zA-Z%])', f.v):
        out.append(('c', f.v[pos:m.start()]))
        pos = m.end()
        if m.group(5) == '%':
            out.append(('c', '%'))
            continue
        if m.group(1):
            v = dict_lookup(eng, args, K(m.group(1)))
            if v is None:
                eng.exc('KeyError', m.group(1))
            vals = []
        else:
            if not vals:
                eng.exc('TypeError', 'not enough arguments for format string')
            v = vals.pop(0)
        v = eng.force(v)
        k = m.group(5)
        if isinstance(v, K) and not isinstance(v.v, (bytes,)):
            try:
                out.append(('c', ('%' + (m.group(2) or '') + (m.group(3) or '') + ('.' + m.group(4) if m.group(4) else '') + k) % (v.v,)))
            except (TypeError, ValueError) as e:
                eng.exc(type(e).__name__, str(e))
            continue
        plain = not m.group(2) and not m.group(3) and not m.group(4)
        if k == 's' and plain:
            out.extend(parts_of(to_str(eng, v)))
        elif k == 'r' and plain:
            out.extend(parts_of(to_repr(eng, v)))
        elif k in 'di' and plain and isint(v):
            out.extend(parts_of(to_str(eng, v)))
        else:
            if k in 'dxXo' and not (isnum(v) or isinstance(v, (O, C))):
                eng.exc('TypeError', '%%%s format: a number is required' % k)
            t = ('fmt', m.group(0), eng.freeze(v))
            out.append(('a', t, termlen(t)))
    out.append(('c', f.v[pos:]))
    if vals and not (isinstance(args, Ref) and eng.st.cell(args).kind == 'dict'):
        eng.exc('TypeError', 'not all arguments converted during string formatting')
    return mkseq('str', out, eng.st)


@fn('str.format')
def _format(eng, self, args, kw):
    if not isinstance(self, K):
        raise Unsupported('format with an unknown template')
    out = []
    auto = 0
    try:
        fields = list(_string.Formatter().parse(self.v))
    except ValueError as e:
        eng.exc('ValueError', str(e))
    for lit, name, spec, conv in fields:
        out.append(('c', lit))
        if name is None:
            continue
        import _string as _s
        first, rest = _s.formatter_field_name_split(name)
        if first == '':
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                eng.exc('IndexError', 'Replacement index out of range')
            v = args[first]
        else:
            if first not in kw:
                eng.exc('KeyError', first)
            v = kw[first]
        for isattr, x in rest:
            v = eng.getattr(v, x) if isattr else eng.subscript(v, K(x))
        if spec and '{' in spec:
            raise Unsupported('nested format')
        out.extend(parts_of(format_value(eng, v, conv or '', spec or '')))
    return mkseq('str', out, eng.st)


# ---------------------------------------------------------- built-in functions
@fn('len')
def _len(eng, self, args, kw):
    v = args[0]
    if isinstance(v, (Ref, NT, Ob)):
        m = eng.user_method(v, '__len__')
        if m is not None:
            return eng.call(m, [v])
    s = eng.as_seq(v)
    if s is not None:
        return mkint(seqlen(s))
    if isinstance(v, (Tup, NT)):
        return mkint(tuplen(eng.loops.parts(eng, v)))
    if isinstance(v, Ref):
        c = eng.st.cell(v)
        if c.kind == 'list':
            return mkint(tuplen(c.d))
        if c.kind == 'set':
            return set_len(eng, c.d)
        if c.kind == 'dict':
            return K(len(dict_items(eng, v)))
    if isinstance(v, O) and v.cls is None:
        return mkint(patom(('len', v.t)))
    if isinstance(v, Cls) and 'enum' in v.flags:
        return K(len(v.ns[' members']))
    eng.exc('TypeError', 'object has no len()')


@fn('ord')
def _ord(eng, self, args, kw):
    v = args[0]
    s = eng.as_seq(v)
    if s is None:
        eng.exc('TypeError', 'ord() expected string of length 1')
    if not eng.branch(cond_eq0(padd(seqlen(s), pconst(-1)))):
        eng.exc('TypeError', 'ord() expected a character')
    if kind_of(s) == 'bytes':
        return byte_at(eng, s, ())
    return mkint(patom(('nonneg', ('ordof', s))))


@fn('chr')
def _chr(eng, self, args, kw):
    v = args[0]
    if not isint(v):
        eng.exc('TypeError', 'an integer is required')
    if not eng.branch(c_and([cond_ge0(poly(v)), cond_ge0(padd(pconst(0x10ffff), poly(v), -1))])):
        eng.exc('ValueError', 'chr() arg not in range(0x110000)')
    return Sq('str', (('a', ('chrof', v), K(1)),))


@fn('range')
def _range(eng, self, args, kw):
    vs = []
    for a in args:
        if isinstance(a, C):
            a = K(int(eng.branch(a.c)))
        if not isint(a):
            if isinstance(a, O):
                raise Unsupported('range of unknown')
            eng.exc('TypeError', 'range() needs integers')
        vs.append(a)
    a, b, c = (K(0), vs[0], K(1)) if len(vs) == 1 else (vs[0], vs[1], K(1)) if len(vs) == 2 else vs
    if isinstance(a, K) and isinstance(b, K) and isinstance(c, K):
        if c.v == 0:
            eng.exc('ValueError', 'range() arg 3 must not be zero')
        r = range(a.v, b.v, c.v)
        if len(r) <= 3000:
            return Tup(tuple(('i', K(x)) for x in r))
    if c not in (K(1), K(-1)):
        if isinstance(c, K) and c.v > 1:
            d = padd(poly(b), poly(a), -1)
            if not eng.branch(cond_ge0(d)):
                return Tup(())
            n = eng.st.fdiv(padd(d, pconst(c.v - 1)), c.v)
            return index_seq_of(eng, n, lambda i: mkint(padd(poly(a), pscale(i, c.v))))
        raise Unsupported('range step')
    n = padd(poly(b), poly(a), -1) if c == K(1) else padd(poly(a), poly(b), -1)
    if not eng.branch(cond_ge0(n)):
        return Tup(())
    lo, hi = eng.st.rng(n)
    if lo == hi:
        n = pconst(lo)
    return index_seq_of(eng, n, lambda i: mkint(padd(poly(a), i, 1 if c == K(1) else -1)))


def index_seq_of(eng, n, f):
    """tuple of f(i) for i in range(n), n a poly"""
    if pis_const(n) and pcval(n) <= 3000:
        return Tup(tuple(('i', f(pconst(i))) for i in range(pcval(n))))
    nv = mkint(n)
    i = patom(('idx', nv, 0))
    return Tup((('e', nv, ((frozenset(), (('i', f(i)),)),)),))


def mkiter(eng, parts):
    return eng.st.alloc('iter', eng.builtins['generator'], ('parts', tuple(parts)))


@fn('enumerate')
def _enumerate(eng, self, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', K(0))
    ps = eng.loops.parts(eng, args[0])
    pos = poly(start)
    out = []
    for p in ps:
        if p[0] == 'i':
            out.append(('i', Tup((('i', mkint(pos)), p))))
        else:
            q = eng.loops.as_each(eng, p)
            i = padd(pos, patom(('idx', q[1], 0)))
            alts = []
            for tr, xs in q[2]:
                if len(xs) != 1 or xs[0][0] != 'i':
                    raise Unsupported('enumerate over repeated groups')
                alts.append((tr, (('i', Tup((('i', mkint(i)), xs[0]))),)))
            out.append(('e', q[1], tuple(alts)))
        pos = padd(pos, plen(p))
    return mkiter(eng, out)


@fn('zip')
def _zip(eng, self, args, kw):
    ls = [list(eng.loops.parts(eng, a)) for a in args]
    out = []
    while all(ls):
        if all(l[0][0] == 'i' for l in ls):
            out.append(('i', Tup(tuple(l.pop(0) for l in ls))))
            continue
        ns = [plen(l[0]) for l in ls]
        if all(l[0][0] != 'i' for l in ls) and all(eng.st.decide_eq(padd(n, ns[0], -1)) for n in ns):
            qs = [eng.loops.as_each(eng, l.pop(0)) for l in ls]
            nv = qs[0][1]
            if any(q[1] != nv for q in qs) or any(len(q[2]) != 1 or len(q[2][0][1]) != 1 for q in qs):
                raise Unsupported('zip')
            out.append(('e', nv, ((frozenset(), (('i', Tup(tuple(q[2][0][1][0] for q in qs))),)),)))
            continue
        raise Unsupported('zip of sequences of unknown length')
    return mkiter(eng, out)


@fn('map')
def _map(eng, self, args, kw):
    if len(args) != 2:
        raise Unsupported('map')
    out = eng.loops.map_parts(eng, eng.loops.parts(eng, args[1]), lambda x: [('i', eng.call(args[0], [x]))])
    return mkiter(eng, out)


@fn('filter')
def _filter(eng, self, args, kw):
    f = args[0]

    def g(x):
        ok = eng.truth(x if f == NONE else eng.call(f, [x]))
        return [('i', x)] if ok else []
    return mkiter(eng, eng.loops.map_parts(eng, eng.loops.parts(eng, args[1]), g))


@fn('reversed')
def _reversed(eng, self, args, kw):
    return mkiter(eng, rev_parts(tuple(eng.loops.parts(eng, args[0]))))


@fn('sorted')
def _sorted(eng, self, args, kw):
    ps = tuple(eng.loops.parts(eng, args[0]))
    return eng.st.alloc('list', eng.builtins['list'], sort_parts(eng, ps, kw))


def sort_parts(eng, ps, kw):
    if len(ps) <= 1 and all(p[0] == 'i' for p in ps):
        return ps
    rev = kw.get('reverse', FALSE)
    key = kw.get('key', NONE)
    if all(p[0] == 'i' for p in ps):
        try:
            if key == NONE:
                r = sorted((lower(eng, p[1]) for p in ps), reverse=bool(lower(eng, rev)))
                return tuple(('i', lift(eng, x)) for x in r)
            ks = [(lower(eng, eng.call(key, [p[1]])), i) for i, p in enumerate(ps)]
            order = sorted(ks, key=lambda kv: kv[0], reverse=bool(lower(eng, rev)))
            return tuple(ps[i] for k, i in order)
        except KeyError:
            pass
        r = first_keys(eng, [p[1] if key == NONE else eng.call(key, [p[1]]) for p in ps])
        if r is not None and isinstance(rev, K):
            order = sorted(range(len(ps)), key=lambda i: r[i], reverse=bool(rev.v))
            return tuple(ps[i] for i in order)
    t = ('sorted', eng.freeze_parts(ps), eng.freeze(key) if not isinstance(key, Fn) else ('fn', key.qual), eng.freeze(rev))
    return (('s', t, mkint(tuplen(ps))),)


def first_keys(eng, vs):
    """the constant first items of tuples, when they alone decide the order"""
    out = []
    for v in vs:
        if not isinstance(v, Tup) or not v.parts or v.parts[0][0] != 'i' or not isinstance(v.parts[0][1], K):
            return None
        out.append(v.parts[0][1].v)
    if len(set(out)) < len(out) or len(set(map(type, out))) > 1:
        return None
    return out


@fn('any')
def _any(eng, self, args, kw):
    return K(eng.loops.scan(eng, eng.loops.parts_lazy(eng, args[0]), lambda x: eng.truth(x)))


@fn('all')
def _all(eng, self, args, kw):
    return K(not eng.loops.scan(eng, eng.loops.parts_lazy(eng, args[0]), lambda x: not eng.truth(x)))


@fn('sum')
def _sum(eng, self, args, kw):
    acc = args[1] if len(args) > 1 else kw.get('start', K(0))
    out = [acc]

    for p in eng.loops.parts(eng, args[0]):
        if p[0] == 'i':
            out[0] = eng.binop(ast.Add, out[0], p[1])
        else:
            q = eng.loops.as_each(eng, p)
            terms = []
            for tr, xs in q[2]:
                s = ()
                for x in xs:
                    if x[0] != 'i' or not isint(x[1]):
                        raise Unsupported('sum of non-integers')
                    s = padd(s, poly(x[1]))
                terms.append((tr, mkint(s)))
            out[0] = eng.binop(ast.Add, out[0], eng.loops.sum_value(eng, q[1], tuple(terms)))
    return out[0]


@fn('min', 'max')
def _never(eng, self, args, kw):
    raise Unsupported('min/max')


def minmax(name):
    def h(eng, self, args, kw):
        xs = args if len(args) > 1 else [p[1] if p[0] == 'i' else None for p in eng.loops.parts(eng, args[0])]
        if any(x is None for x in xs):
            raise Unsupported(name + ' over unknown collection')
        if not xs:
            if 'default' in kw:
                return kw['default']
            eng.exc('ValueError', name + '() arg is an empty sequence')
        key = kw.get('key', NONE)
        best = xs[0]
        kb = best if key == NONE else eng.call(key, [best])
        for x in xs[1:]:
            k = x if key == NONE else eng.call(key, [x])
            c = eng.order('__gt__' if name == 'max' else '__lt__', k, kb)
            if eng.truth(c):
                best, kb = x, k
        return best
    return h


FN['min'] = minmax('min')
FN['max'] = minmax('max')


@fn('abs')
def _abs(eng, self, args, kw):
    v = eng.force(args[0])
    if isinstance(v, C):
        return K(int(eng.branch(v.c)))
    if isinstance(v, K) and isinstance(v.v, bool):
        return K(int(v.v))
    if isint(v):
        return v if eng.branch(cond_ge0(poly(v))) else mkint(pscale(poly(v), -1))
    if isinstance(v, F):
        return F(('fabs', v))
    raise Unsupported('abs')


def exact_round(eng, v):
    """round(n * c) and round(n / c * c), for whole c, where the floating-point error stays below one half:
    each operation errs by at most one part in 2**53"""
    t = v.t
    if t[0] != 'fmul':
        return None
    for c, x in ((t[1], t[2]), (t[2], t[1])):
        if not (isinstance(c, K) and isinstance(c.v, float) and c.v == int(c.v) and 0 < c.v < 2 ** 30):
            continue
        if isinstance(x, F) and x.t[0] == 'ofint':
            x = x.t[1]
        if isinstance(x, I):
            lo, hi = eng.st.rng(x.p)
            if -2 ** 53 <= lo * c.v and hi * c.v <= 2 ** 53 and -2 ** 53 <= lo and hi <= 2 ** 53:
                return mkint(pscale(x.p, int(c.v)))
        if isinstance(x, F) and x.t[0] == 'fdivide' and x.t[2] == c and isinstance(x.t[1], I):
            lo, hi = eng.st.rng(x.t[1].p)
            if -2 ** 51 <= lo and hi <= 2 ** 51:
                return x.t[1]
    return None


@fn('round')
def _round(eng, self, args, kw):
    v = args[0]
    if isint(v):
        return v
    if isinstance(v, F):
        if len(args) > 1 and args[1] != NONE:
            return F(('fround', v, args[1]))
        n = exact_round(eng, v)
        if n is not None:
            return n
        if eng.branch(('fnan', v)):
            eng.exc('ValueError', 'cannot convert float NaN to integer')
        if eng.branch(('finf', v)):
            eng.exc('OverflowError', 'cannot convert float infinity to integer')
        return mkint(patom(('roundf', v)))
    if isinstance(v, O) and v.cls is None:
        return mkint(patom(('roundf', v)))
    eng.exc('TypeError', 'round')


@fn('pow')
def _pow(eng, self, args, kw):
    if len(args) == 2:
        return eng.binop(ast.Pow, args[0], args[1])
    a, b, m = args
    if all(isint(x) for x in args):
        if isinstance(m, K) and m.v > 0 and isinstance(b, K) and 0 <= b.v <= 8:
            p = pconst(1)
            for _ in range(b.v):
                p = pmul(p, poly(a))
            return mkint(eng.st.mod(p, m.v))
        if isinstance(m, K) and m.v > 0:
            a = mkint(eng.st.mod(poly(a), m.v))
        return mkint(patom(('powmod', a, b, m)))
    raise Unsupported('pow')


@fn('divmod')
def _divmod(eng, self, args, kw):
    a, b = args
    q = eng.binop(ast.FloorDiv, a, b)
    r = eng.binop(ast.Mod, a, b)
    return Tup((('i', q), ('i', r)))


@fn('isinstance')
def _isinstance(eng, self, args, kw):
    return cV(eng.is_instance(args[0], args[1]))


@fn('issubclass')
def _issubclass(eng, self, args, kw):
    if not isinstance(args[0], Cls):
        eng.exc('TypeError', 'issubclass() arg 1 must be a class')
    cs = [p[1] for p in args[1].parts] if isinstance(args[1], Tup) else [args[1]]
    return K(any(args[0].issub(c) for c in cs))


@fn('hasattr')
def _hasattr(eng, self, args, kw):
    v = args[0]
    if isinstance(v, O) and v.cls is None:
        raise Unsupported('hasattr of unknown')
    try:
        eng.getattr(v, args[1].v)
        return TRUE
    except PyExc as e:
        if eng.type_of(e.val).issub(eng.builtins['AttributeError']):
            return FALSE
        raise


@fn('getattr')
def _getattr(eng, self, args, kw):
    v, n = args[0], args[1]
    if not isinstance(n, K):
        raise Unsupported('getattr of unknown name')
    try:
        return eng.getattr(v, n.v)
    except PyExc as e:
        if len(args) > 2 and eng.type_of(e.val).issub(eng.builtins['AttributeError']):
            return args[2]
        raise


@fn('setattr')
def _setattr(eng, self, args, kw):
    if not isinstance(args[1], K):
        raise Unsupported('setattr of unknown name')
    eng.setattr(args[0], args[1].v, args[2])
    return NONE


@fn('repr')
def _repr(eng, self, args, kw):
    return to_repr(eng, args[0])


@fn('format')
def _format_fn(eng, self, args, kw):
    return format_value(eng, args[0], '', args[1].v if len(args) > 1 else '')


@fn('hex', 'bin', 'oct')
def _hexfn(eng, self, args, kw):
    if not isint(args[0]):
        if not isinstance(args[0], O):
            eng.exc('TypeError', 'cannot be interpreted as an integer')
    return str_atom('hexint', eng, args[0])


@fn('iter')
def _iter(eng, self, args, kw):
    if len(args) == 2:
        raise Unsupported('iter with sentinel')
    v = args[0]
    if isinstance(v, Ref) and eng.st.cell(v).kind == 'iter':
        return v
    return mkiter(eng, eng.loops.parts(eng, v))


@fn('next', 'generator.__next__')
def _next(eng, self, args, kw):
    v = args[0] if self is None else self
    if self is not None:
        args = [self] + list(args)
    if not (isinstance(v, Ref) and eng.st.cell(v).kind == 'iter'):
        if isinstance(v, (Ref, Ob)):
            m = eng.user_method(v, '__next__')
            if m is not None:
                return eng.call(m, [v])
        raise Unsupported('next')
    ps = eng.loops.iter_parts(eng, v)
    while ps and ps[0][0] != 'i':
        if eng.branch(cond_ge0(padd(plen(ps[0]), pconst(-1)))):
            x = eng.loops.seg_elem(eng, ps[0], K(0))
            l, r = eng.retry(lambda: split_part(eng.st, ps[0], pconst(1)))
            eng.st.wcell(v).d = ('parts', tuple(r) + tuple(ps[1:]))
            return x
        ps = ps[1:]
    if not ps:
        eng.st.wcell(v).d = ('parts', ())
        if len(args) > 1:
            return args[1]
        eng.exc('StopIteration')
    eng.st.wcell(v).d = ('parts', tuple(ps[1:]))
    return ps[0][1]


@fn('print')
def _print(eng, self, args, kw):
    for a in args:
        to_str(eng, a)
    return NONE


@fn('super')
def _super(eng, self, args, kw):
    return Super(args[0], args[1])


@fn('callable')
def _callable(eng, self, args, kw):
    v = args[0]
    return K(isinstance(v, (Fn, BM, Bi, Partial, Cls)) or (isinstance(v, (Ref, NT, Ob)) and eng.user_method(v, '__call__') is not None))


@fn('id')
def _id(eng, self, args, kw):
    return mkint(patom(('idof', eng.freeze(args[0]))))


@fn('staticmethod')
def _sm(eng, self, args, kw):
    return Wrap('static', args[0])


@fn('classmethod')
def _cm(eng, self, args, kw):
    return Wrap('class', args[0])


@fn('property')
def _prop(eng, self, args, kw):
    w = Wrap('property', args[0])
    if len(args) > 1:
        w.setter = args[1]
    return w


# --------------------------------------------------------- text and byte methods
def content(eng, v):
    s = eng.as_seq(eng.force(v))
    if s is None:
        if isinstance(v, O):
            raise Unsupported('string method on unknown')
        eng.exc('TypeError', 'a string is required')
    return s


def like(eng, self, s):
    """bytes result in the receiver's own type"""
    if isinstance(self, Ref):
        return eng.st.alloc('ba', eng.builtins['bytearray'], parts_of(s))
    return s


@fn('bytes.join', 'str.join')
def _join(eng, self, args, kw):
    sep = content(eng, self)
    k = kind_of(sep)
    ps = eng.loops.parts(eng, args[0])
    out = []
    first = True
    for p in ps:
        if p[0] == 'i':
            if not first:
                out.extend(parts_of(sep))
            s = eng.as_seq(eng.force(p[1]))
            if s is None:
                if isinstance(p[1], O):
                    t = ('contentof', p[1])
                    s = Sq(k, (('a', t, termlen(t)),))
                else:
                    eng.exc('TypeError', 'sequence item: expected %s' % k)
            if kind_of(s) != k:
                eng.exc('TypeError', 'sequence item: expected %s instance' % k)
            out.extend(parts_of(s))
            first = False
            continue
        if sep not in (K(b''), K('')):
            fz = eng.freeze_parts(ps)
            t = ('join', sep, fz)
            return Sq(k, (('a', t, termlen(t)),))
        q = eng.loops.as_each(eng, p)
        alts = []
        for tr, xs in q[2]:
            ys = []
            for x in xs:
                s = eng.as_seq(x[1]) if x[0] == 'i' else None
                if s is None or kind_of(s) != k:
                    raise Unsupported('join of repeated non-strings')
                ys.extend(parts_of(s))
            alts.append((tr, norm(k, ys, eng.st)))
        alts = tuple(alts)
        out.append(('e', q[1], alts, each_len(q[1], alts)))
        first = False
    return like(eng, self, mkseq(k, out, eng.st))


@fn('str.startswith', 'bytes.startswith', 'str.endswith', 'bytes.endswith')
def _never2(eng, self, args, kw):
    raise Unsupported('startswith')


def starts(end):
    def h(eng, self, args, kw):
        s = content(eng, self)
        x = args[0]
        xs = [p[1] for p in x.parts] if isinstance(x, Tup) else [x]
        if len(args) > 1:
            raise Unsupported('startswith range')
        cs = []
        for y in xs:
            y = content(eng, y)
            if kind_of(y) != kind_of(s):
                eng.exc('TypeError', 'startswith arg')
            n = seqlen(y)
            if not eng.branch(cond_ge0(padd(seqlen(s), n, -1))):
                continue
            if end:
                r = eng.retry(lambda: cut(eng.st, parts_of(s), padd(seqlen(s), n, -1))[1])
            else:
                r = eng.retry(lambda: cut(eng.st, parts_of(s), n)[0])
            cs.append(eng.seq_eq(mkseq(kind_of(s), r, eng.st), y))
        return cV(c_or(cs)) if cs else FALSE
    return h


FN['str.startswith'] = FN['bytes.startswith'] = starts(False)
FN['str.endswith'] = FN['bytes.endswith'] = starts(True)


DIGITS = set('0123456789')
ALPHABET = {'dstr': DIGITS, 'hex': set('0123456789abcdef'), 'b58': set('123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz')}


def char_class(name):
    def h(eng, self, args, kw):
        s = content(eng, self)
        ps = parts_of(s)
        if name in ('isdigit', 'isdecimal', 'isnumeric', 'isalnum'):
            ok = True
            for p in ps:
                if p[0] == 'c':
                    if not getattr(p[1], name)():
                        return FALSE
                elif p[0] == 'a' and p[1][0] == 'dstr' and eng.branch(cond_ge0(poly(p[1][1]))):
                    pass
                elif p[0] == 'a' and p[1][0] in ('hex', 'b58') and name == 'isalnum':
                    pass
                else:
                    ok = False
            if ok and ps and eng.branch(cond_ge0(padd(tuplen(ps), pconst(-1)))):
                return TRUE
        return C((name, s))
    return h


for _n in ('isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'isidentifier'):
    FN['str.' + _n] = char_class(_n)


@fn('str.encode')
def _encode(eng, self, args, kw):
    s = content(eng, self)
    enc = args[0] if args else kw.get('encoding', K('utf-8'))
    if not isinstance(enc, K):
        raise Unsupported('encoding')
    e = enc.v.lower().replace('_', '-')
    out = []
    for p in parts_of(s):
        if p[0] == 'c':
            try:
                out.append(('c', p[1].encode(e)))
            except UnicodeEncodeError:
                eng.exc('UnicodeEncodeError', 'codec')
            continue
        if p[0] == 'e':
            q = []
            for tr, xs in p[2]:
                ys = []
                for x in xs:
                    if x[0] == 'c' and x[1].isascii():
                        ys.append(('c', x[1].encode()))
                    elif x[0] == 'a' and x[1][0] == 'hex':
                        ys.append(('a', ('asc', x[1]), x[2]))
                    else:
                        raise Unsupported('encode repeated text')
                q.append((tr, tuple(ys)))
            out.append(('e', p[1], tuple(q), p[3]))
            continue
        t = p[1]
        if t[0] == 'chrof' and eng.st.rng(poly(t[1]))[1] < 128:
            out.append(('b', t[1]))
            continue
        if t[0] == 'dectext':
            out.extend(parts_of(t[1]))
            continue
        if t[0] in ('hex', 'dstr', 'b58', 'hexint') or (t[0] == 'lookup' and all(v.v.isascii() for k, v in t[1])):
            out.append(('a', ('asc', t), p[2]))
            continue
        base = Sq('str', (p,))
        if e in ('ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1'):
            if not eng.branch(('ascii' if 'asc' in e else 'latin1', base)):
                eng.exc('UnicodeEncodeError', 'codec')
            out.append(('a', ('asc', t), p[2]))
        else:
            # surrogates cannot be encoded as utf-8
            if eng.st.facts.get(('ascii', base)):
                out.append(('a', ('asc', t), p[2]))
                continue
            if not eng.branch(('utf8able', base)):
                eng.exc('UnicodeEncodeError', 'codec')
            tt = ('utf8', t)
            out.append(('a', tt, termlen(tt)))
    return mkseq('bytes', out, eng.st)


def ascii_chars(eng, p, enc):
    """the characters of a short byte part, when every byte is 7-bit"""
    if p[0] == 'b':
        vs = [p[1]]
    elif p[0] == 'a' and isinstance(p[2], K) and p[2].v <= 40:
        vs = [mk_at(p[1], K(j)) for j in range(p[2].v)]
    else:
        return None
    out = []
    for v in vs:
        t = psingle(poly(v))
        if t is not None and t[0] == 'byte' and t[1][0] == 'lookup' and all(x.v < 128 for k, x in t[1][1]):
            out.append(('a', ('lookup', tuple((k, K(chr(x.v))) for k, x in t[1][1]), t[1][2]), K(1)))
            continue
        if eng.st.rng(poly(v))[1] > 127:
            return None
        out.append(('c', chr(v.v)) if isinstance(v, K) else ('a', ('chrof', v), K(1)))
    return out


@fn('bytes.decode', 'bytearray.decode')
def _decode(eng, self, args, kw):
    s = content(eng, self)
    if kind_of(s) == 'str':
        eng.exc('AttributeError', 'decode')
    enc = args[0] if args else kw.get('encoding', K('utf-8'))
    out = []
    for p in parts_of(s):
        if p[0] == 'c':
            try:
                out.append(('c', p[1].decode(enc.v)))
            except UnicodeDecodeError:
                eng.exc('UnicodeDecodeError', 'codec')
            continue
        if p[0] == 'a' and p[1][0] == 'asc':
            out.append(('a', p[1][1], p[2]))
            continue
        if p[0] == 'e':
            q = []
            for tr, xs in p[2]:
                ys = []
                for x in xs:
                    if x[0] == 'c':
                        ys.append(('c', x[1].decode('ascii')))
                    elif x[0] == 'a' and x[1][0] == 'asc':
                        ys.append(('a', x[1][1], x[2]))
                    else:
                        raise Unsupported('decode repeated bytes')
                q.append((tr, tuple(ys)))
            out.append(('e', p[1], tuple(q), p[3]))
            continue
        base = Sq('bytes', (p,))
        cs = ascii_chars(eng, p, enc.v.lower())
        if cs is not None:
            out.extend(cs)
            continue
        if enc.v.lower() in ('latin-1', 'latin1', 'iso-8859-1'):
            out.append(('a', ('dectext', base), mkint(plen(p))))
            continue
        if not eng.branch(('decodable', enc.v.lower().replace('utf-8', 'utf8'), base)):
            eng.exc('UnicodeDecodeError', 'codec')
        tt = ('dectext', base)
        out.append(('a', tt, termlen(tt)))
    return mkseq('str', out, eng.st)


def text_fn(name):
    @fn('str.' + name, 'bytes.' + name)
    def h(eng, self, args, kw):
        s = content(eng, self)
        t = ('text', name, s) + tuple(eng.freeze(a) for a in args)
        return Sq(kind_of(s), (('a', t, termlen(t)),))


for _n in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'zfill', 'rjust', 'ljust', 'capitalize', 'translate'):
    text_fn(_n)


@fn('bytes.zfill', 'bytes.rjust', 'bytes.ljust')
def _just(eng, self, args, kw):
    raise Unsupported('justify')


def just(left):
    def h(eng, self, args, kw):
        s = content(eng, self)
        fill = args[1] if len(args) > 1 else (K(b' ') if kind_of(s) == 'bytes' else K(' '))
        w = padd(poly(args[0]), seqlen(s), -1)
        if not eng.branch(cond_ge0(w)):
            return like(eng, self, s)
        pad = repeat(eng, fill, fill, mkint(w))
        ps = parts_of(s) + parts_of(pad) if left else parts_of(pad) + parts_of(s)
        return like(eng, self, mkseq(kind_of(s), ps, eng.st))
    return h


FN['bytes.ljust'] = just(True)
FN['bytes.rjust'] = just(False)


@fn('str.split', 'bytes.split', 'str.rsplit', 'str.splitlines', 'str.partition', 'str.rpartition')
def _split(eng, self, args, kw):
    s = content(eng, self)
    ps = parts_of(s)
    # join with the same separator undone
    if len(ps) == 1 and ps[0][0] == 'a' and ps[0][1][0] == 'join' and len(args) == 1 and eng.freeze(args[0]) == ps[0][1][1]:
        return eng.st.alloc('list', eng.builtins['list'], ps[0][1][2])
    sep = eng.freeze(args[0]) if args else NONE
    if kind_of(s) == 'str' and len(args) <= 1 and not kw and (sep == NONE or sep in (K(' '), K('\n'), K(',')))             and all(p[0] == 'c' or p[0] == 'a' and p[1][0] in ('hex', 'dstr', 'b58') for p in ps):
        toks = [[]]
        for p in ps:
            if p[0] != 'c':
                toks[-1].append(p)
                continue
            words = re.split(r'\s', p[1]) if sep == NONE else p[1].split(sep.v)
            for j, w in enumerate(words):
                if j:
                    toks.append([])
                if w:
                    toks[-1].append(('c', w))
        out = []
        for x in toks:
            v = mkseq('str', tuple(x), eng.st)
            if sep == NONE and not eng.branch(cond_ge0(padd(tuplen(parts_of(v)), pconst(-1)))):
                continue
            out.append(('i', v))
        return eng.st.alloc('list', eng.builtins['list'], tuple(out))
    t = ('split', s) + tuple(eng.freeze(a) for a in args)
    return eng.st.alloc('list', eng.builtins['list'], (('s', t, termlen(t)),))


@fn('str.find', 'bytes.find', 'str.rfind', 'str.index', 'bytes.index', 'str.count', 'bytes.count')
def _find(eng, self, args, kw):
    s = content(eng, self)
    a = tuple(eng.freeze(x) for x in args)
    if isinstance(s, K) and len(a) == 1 and kind_of(s) == 'str' and isinstance(a[0], Sq):
        x = a[0]
        c = ('substr', x, s)
        return mkint(patom(('nonneg', ('findof', s, a)))) if eng.branch(c) else K(-1)
    return mkint(patom(('findof', s, a)))


@fn('bytes.hex')
def _hex(eng, self, args, kw):
    if args:
        raise Unsupported('hex with separator')
    return mkseq('str', hex_parts(eng, parts_of(content(eng, self))), eng.st)


def hex_parts(eng, parts):
    out = []
    for p in parts:
        if p[0] == 'c':
            out.append(('c', p[1].hex()))
        elif p[0] == 'e':
            alts = tuple((tr, tuple(hex_parts(eng, q))) for tr, q in p[2])
            out.append(('e', p[1], alts, each_len(p[1], alts)))
        elif p[0] == 'a' and p[1][0] == 'unhex' and False:
            pass
        else:
            b = Sq('bytes', (p,))
            out.append(('a', ('hex', b), mkint(pscale(plen(p), 2))))
    return out


def unhex(eng, s, exc, test='ishex'):
    """bytes of hexadecimal text; exc: error class for malformed text"""
    out = []
    for p in parts_of(s):
        t = p[1] if p[0] == 'a' else None
        if p[0] == 'a' and t[0] == 'asc':
            t = t[1]
        if p[0] == 'c':
            txt = p[1] if isinstance(p[1], bytes) else p[1].encode('utf-8', 'surrogatepass')
            try:
                import binascii
                out.append(('c', binascii.unhexlify(txt)))
            except ValueError:
                if len(parts_of(s)) == 1 or any(ch not in b'0123456789abcdefABCDEF' for ch in txt):
                    eng.exc(exc, 'non-hexadecimal')
                raise Unsupported('unhex of split digits')
            continue
        if p[0] == 'a' and t[0] == 'hex':
            out.extend(t[1].parts)
            continue
        if len(parts_of(s)) > 1:
            raise Unsupported('unhex of mixed text')
        base = Sq('str', (('a', t, p[2]),)) if kind_of(s) == 'str' or t is not p[1] else s
        if not eng.branch((test, base)):
            eng.exc(exc, 'non-hexadecimal')
        n = seqlen(base)
        h = ('unhex', base)
        if h not in LEN:
            ln = mkint(patom(('len', h)))
            LEN[h] = ln
        p2 = padd(pscale(poly(LEN[h]), 2), n, -1)
        c = mk_eq0(p2)
        if not isinstance(c, bool):
            eng.st.assume(c[0], True)
        return Sq('bytes', (('a', h, LEN[h]),))
    return mkseq('bytes', out, eng.st)


@fn('binascii.hexlify', 'binascii.b2a_hex')
def _hexlify(eng, self, args, kw):
    s = content(eng, args[0])
    if kind_of(s) == 'str':
        eng.exc('TypeError', 'a bytes-like object is required')
    h = mkseq('str', hex_parts(eng, parts_of(s)), eng.st)
    return _encode(eng, h, [K('ascii')], {})


@fn('binascii.unhexlify', 'binascii.a2b_hex')
def _unhexlify(eng, self, args, kw):
    if isinstance(args[0], O):
        raise Unsupported('unhexlify of unknown')
    s = eng.as_seq(args[0])
    if s is None:
        eng.exc('TypeError', 'argument should be bytes, buffer or ASCII string')
    if kind_of(s) == 'str' and not isinstance(s, K) and not all(p[0] == 'a' and p[1][0] == 'hex' or p[0] == 'c' for p in s.parts):
        if not eng.branch(('ascii', s)):
            eng.exc('ValueError', 'string argument should contain only ASCII characters')
    elif isinstance(s, K) and isinstance(s.v, str) and not s.v.isascii():
        eng.exc('ValueError', 'string argument should contain only ASCII characters')
    return unhex(eng, s, 'binascii.Error')


@fn('bytes.fromhex', 'bytearray.fromhex')
def _fromhex(eng, self, args, kw):
    s = content(eng, args[-1])
    return unhex(eng, s, 'ValueError', 'ishexws')


# ------------------------------------------------------------ mutable containers
@fn('bytearray.append')
def _ba_append(eng, self, args, kw):
    c = eng.st.cell(self)
    p = byte_part(eng, args[0])
    eng.st.wcell(self).d = norm('bytes', c.d + (p,), eng.st)
    return NONE


@fn('list.append')
def _append(eng, self, args, kw):
    c = eng.st.cell(self)
    eng.st.wcell(self).d = c.d + (('i', args[0]),)
    return NONE


@fn('bytearray.extend', 'list.extend')
def _extend(eng, self, args, kw):
    extend(eng, self, args[0])
    return NONE


@fn('bytearray.insert', 'list.insert')
def _insert(eng, self, args, kw):
    c = eng.st.cell(self)
    new = (byte_part(eng, args[1]),) if c.kind == 'ba' else (('i', args[1]),)
    n = tuplen(c.d)
    a, b = slice_bounds(eng, Slice(args[0], args[0], NONE), n)
    l, r = eng.retry(lambda: cut(eng.st, c.d, a))
    eng.st.wcell(self).d = norm('bytes' if c.kind == 'ba' else 'tup', l + new + r, eng.st)
    return NONE


@fn('bytearray.reverse', 'list.reverse')
def _reverse(eng, self, args, kw):
    c = eng.st.cell(self)
    eng.st.wcell(self).d = norm('bytes' if c.kind == 'ba' else 'tup', rev_parts(c.d), eng.st)
    return NONE


@fn('bytearray.pop', 'list.pop')
def _pop(eng, self, args, kw):
    c = eng.st.cell(self)
    n = tuplen(c.d)
    i = args[0] if args else K(-1)
    if not eng.branch(cond_ge0(padd(n, pconst(-1)))):
        eng.exc('IndexError', 'pop from empty list')
    p = norm_index(eng, i, n)
    if p is None:
        eng.exc('IndexError', 'pop index out of range')

    def go():
        l, r = cut(eng.st, c.d, p)
        m, r = cut(eng.st, r, pconst(1))
        return l, r
    x = byte_at(eng, Sq('bytes', c.d), p) if c.kind == 'ba' else seq_index(eng, c.d, mkint(p))
    l, r = eng.retry(go)
    eng.st.wcell(self).d = norm('bytes' if c.kind == 'ba' else 'tup', l + r, eng.st)
    return x


@fn('bytearray.clear', 'list.clear')
def _clear(eng, self, args, kw):
    eng.st.wcell(self).d = ()
    return NONE


@fn('bytearray.copy', 'list.copy', 'dict.copy', 'set.copy')
def _copy(eng, self, args, kw):
    c = eng.st.cell(self)
    k = {'ba': 'bytearray'}.get(c.kind, c.kind)
    return eng.st.alloc(c.kind, eng.builtins[k], c.d)


@fn('list.sort')
def _lsort(eng, self, args, kw):
    c = eng.st.cell(self)
    d = sort_parts(eng, c.d, kw)
    eng.st.wcell(self).d = d
    return NONE


@fn('list.index', 'tuple.index')
def _lindex(eng, self, args, kw):
    ps = eng.loops.parts(eng, self)
    for i, p in enumerate(ps):
        if p[0] != 'i':
            raise Unsupported('index in unknown list')
        if eng.branch(eng.eq(p[1], args[0])):
            return K(i)
    eng.exc('ValueError', 'is not in list')


@fn('list.count', 'tuple.count')
def _lcount(eng, self, args, kw):
    n = 0
    for p in eng.loops.parts(eng, self):
        if p[0] != 'i':
            raise Unsupported('count in unknown list')
        n += bool(eng.branch(eng.eq(p[1], args[0])))
    return K(n)


@fn('list.remove')
def _lremove(eng, self, args, kw):
    c = eng.st.cell(self)
    for i, p in enumerate(c.d):
        if p[0] != 'i':
            raise Unsupported('remove from unknown list')
        if eng.branch(eng.eq(p[1], args[0])):
            eng.st.wcell(self).d = c.d[:i] + c.d[i + 1:]
            return NONE
    eng.exc('ValueError', 'not in list')


@fn('list.__getitem__', 'tuple.__getitem__', 'dict.__getitem__', 'bytearray.__getitem__')
def _getitem_m(eng, self, args, kw):
    v = self
    if isinstance(v, NT):
        return seq_get(eng, eng.loops.parts(eng, v), args[0])
    return getitem(eng, v, args[0])


def seq_get(eng, parts, i):
    if isinstance(i, Slice):
        return mkseq('tup', slice_parts(eng, parts, i), eng.st)
    p = norm_index(eng, i, tuplen(parts))
    if p is None:
        eng.exc('IndexError', 'index out of range')
    return seq_index(eng, parts, mkint(p))


@fn('dict.get')
def _dget(eng, self, args, kw):
    v = dict_lookup(eng, self, args[0])
    if v is None:
        return args[1] if len(args) > 1 else kw.get('default', NONE)
    return v


@fn('dict.items')
def _ditems(eng, self, args, kw):
    d = eng.st.cell(self).d
    out = []
    for e in d:
        if len(e) == 3:
            raise Unsupported('items of unknown dict')
        out.append(('i', Tup((('i', e[0]), ('i', e[1])))))
    return Tup(tuple(out))


@fn('dict.keys')
def _dkeys(eng, self, args, kw):
    return Tup(tuple(('i', k) for k, v in dict_items(eng, self)))


@fn('dict.values')
def _dvalues(eng, self, args, kw):
    return Tup(tuple(('i', v) for k, v in dict_items(eng, self)))


@fn('dict.update')
def _dupdate(eng, self, args, kw):
    for a in args:
        if isinstance(a, Ref) and eng.st.cell(a).kind == 'dict':
            src = eng.st.cell(a).d
            if any(len(e) != 2 for e in src):
                if not eng.st.cell(self).d:
                    eng.st.wcell(self).d = src
                    continue
                raise Unsupported('update with an unknown dict')
            for k, v in src:
                dict_set(eng, self, k, v)
        elif isinstance(a, O) and a.t[0] == 'pairs':
            if eng.st.cell(self).d:
                raise Unsupported('update with unknown pairs')
            eng.st.wcell(self).d = (('S', a.t, 'str'),)
        else:
            for p in eng.loops.parts(eng, a):
                if p[0] != 'i':
                    raise Unsupported('dict of unknown size')
                k, v = eng.unpack(p[1], 2)
                dict_set(eng, self, k, v)
    for k, v in kw.items():
        dict_set(eng, self, K(k), v)
    return NONE


@fn('dict.pop')
def _dpop(eng, self, args, kw):
    d = eng.st.cell(self).d
    for j, e in enumerate(d):
        if len(e) == 3:
            raise Unsupported('pop from unknown dict')
        if e[0] == args[0] or eng.branch(eng.eq(e[0], args[0])):
            eng.st.wcell(self).d = d[:j] + d[j + 1:]
            return e[1]
    if len(args) > 1:
        return args[1]
    eng.exc('KeyError', args[0])


@fn('dict.setdefault')
def _dsetdefault(eng, self, args, kw):
    v = dict_lookup(eng, self, args[0])
    if v is None:
        v = args[1] if len(args) > 1 else NONE
        dict_set(eng, self, args[0], v)
    return v


def set_op(eng, op, x, y):
    if not all(p[0] == 'i' for p in x + y) or op not in (ast.BitAnd, ast.Sub, ast.BitXor):
        raise Unsupported('set operator')
    inb = [eng.branch(contains_parts(eng, y, p[1])) for p in x]
    if op is ast.BitAnd:
        out = tuple(p for p, k in zip(x, inb) if k)
    else:
        out = tuple(p for p, k in zip(x, inb) if not k)
        if op is ast.BitXor:
            out += tuple(p for p in y if not eng.branch(contains_parts(eng, x, p[1])))
    return eng.st.alloc('set', eng.builtins['set'], out)


def _as_set(eng, v):
    return v if isinstance(v, Ref) and eng.st.cell(v).kind == 'set' else mkset(eng, eng.loops.parts(eng, v))


def _setm(name, op):
    @fn('set.' + name)
    def f(eng, self, args, kw):
        r = self
        for a in args:
            x, y = eng.st.cell(r).d, eng.st.cell(_as_set(eng, a)).d
            r = mkset(eng, x + y) if op is None else set_op(eng, op, x, y)
        return r
    return f


_setm('intersection', ast.BitAnd)
_setm('difference', ast.Sub)
_setm('symmetric_difference', ast.BitXor)
_setm('union', None)


@fn('set.isdisjoint')
def _isdisjoint(eng, self, args, kw):
    r = set_op(eng, ast.BitAnd, eng.st.cell(self).d, eng.st.cell(_as_set(eng, args[0])).d)
    return K(not eng.st.cell(r).d)


@fn('set.issuperset')
def _issuperset(eng, self, args, kw):
    return cV(set_order(eng, '__le__', _as_set(eng, args[0]), self))


@fn('set.add')
def _sadd(eng, self, args, kw):
    hashable(eng, args[0])
    c = eng.st.cell(self)
    if eng.branch(contains_parts(eng, c.d, args[0])):
        return NONE
    eng.st.wcell(self).d = c.d + (('i', args[0]),)
    return NONE


@fn('set.update')
def _supdate(eng, self, args, kw):
    for a in args:
        for p in eng.loops.parts(eng, a):
            if p[0] == 'i':
                _sadd(eng, self, [p[1]], {})
            else:
                eng.st.wcell(self).d = eng.st.cell(self).d + (p,)
    return NONE


@fn('set.issubset')
def _issubset(eng, self, args, kw):
    o = args[0] if isinstance(args[0], Ref) and eng.st.cell(args[0]).kind == 'set' else mkset(eng, eng.loops.parts(eng, args[0]))
    return cV(set_order(eng, '__le__', self, o))


# -------------------------------------------------------------------- integers
@fn('int.to_bytes')
def _to_bytes(eng, self, args, kw):
    v = self
    if isinstance(v, C):
        v = K(int(eng.branch(v.c)))
    L = args[0] if args else kw.get('length', K(1))
    end = args[1] if len(args) > 1 else kw.get('byteorder', K('big'))
    signed = kw.get('signed', FALSE)
    if signed != FALSE:
        raise Unsupported('signed to_bytes')
    if not isinstance(end, K):
        raise Unsupported('byte order')
    if end.v not in ('big', 'little'):
        eng.exc('ValueError', 'byteorder')
    if not isint(L):
        if isinstance(L, O):
            raise Unsupported('to_bytes length')
        eng.exc('TypeError', 'length')
    if not eng.branch(cond_ge0(poly(L))):
        eng.exc('ValueError', 'length argument must be non-negative')
    if not eng.branch(cond_ge0(poly(v))):
        eng.exc('OverflowError', "can't convert negative int to unsigned")
    if isinstance(L, I):
        lo, hi = eng.st.rng(L.p)
        if lo == hi:
            L = K(lo)
    if isinstance(L, K):
        fits = cond_ge0(padd(pconst(256 ** L.v - 1), poly(v), -1))
    else:
        nd = byte_len(eng, v)
        fits = cond_ge0(padd(poly(L), nd, -1))
    if not eng.branch(fits):
        eng.exc('OverflowError', 'int too big to convert')
    return mkseq('bytes', mk_enc(eng.st, v, L, end.v), eng.st)


def byte_len(eng, v):
    """number of base-256 digits of v >= 0"""
    if isinstance(v, K):
        from .state import ndig
        return pconst(ndig(v.v, 256))
    lo, hi = eng.st.rng(v.p)
    from .state import ndig
    if hi < INF and lo >= 0 and ndig(lo, 256) == ndig(hi, 256):
        return pconst(ndig(lo, 256))
    return patom(('ndig', v, 256))


@fn('int.from_bytes')
def _from_bytes(eng, self, args, kw):
    end = args[1] if len(args) > 1 else kw.get('byteorder', K('big'))
    if kw.get('signed', FALSE) != FALSE:
        raise Unsupported('signed from_bytes')
    v = args[0]
    s = eng.as_seq(v)
    if s is None:
        s = mkseq('bytes', bytes_parts(eng, [v], {}), eng.st)
    if kind_of(s) == 'str':
        eng.exc('TypeError', "cannot convert 'str' object to bytes")
    if not isinstance(end, K):
        raise Unsupported('byte order')
    ps = parts_of(s)
    if end.v == 'little':
        ps = rev_parts(ps)
    return dec_val(eng.st, ps)


@fn('int.bit_length')
def _bit_length(eng, self, args, kw):
    lo, hi = eng.st.rng(poly(self))
    if lo >= 0 and hi < INF and lo.bit_length() == hi.bit_length():
        return K(lo.bit_length())
    return mkint(patom(('bitlen', self)))


@fn('nt.__getitem__')
def _nt_getitem(eng, self, args, kw):
    return seq_get(eng, tuple(('i', x) for x in self.items), args[0])


@fn('nt.__len__')
def _nt_len(eng, self, args, kw):
    return K(len(self.items))


@fn('nt.__iter__')
def _nt_iter(eng, self, args, kw):
    return mkiter(eng, tuple(('i', x) for x in self.items))


# ------------------------------------------------------------------- libraries
def hash_value(eng, alg, s):
    if isinstance(s, K) and alg in ('sha256', 'sha1', 'sha512', 'md5', 'ripemd160'):
        try:
            return K(hashlib.new(alg, s.v).digest())
        except ValueError:
            pass
    t = ('hash', alg, s)
    return Sq('bytes', (('a', t, termlen(t)),))


def hash_new(eng, alg, args):
    s = content(eng, args[0]) if args else K(b'')
    if kind_of(s) == 'str':
        eng.exc('TypeError', 'Strings must be encoded before hashing')
    return eng.st.alloc('inst', ext_class(eng, 'hashlib.hash', 'object'), {'alg': K(alg), 'data': s})


for _a in ('sha256', 'sha1', 'sha512', 'md5', 'ripemd160', 'sha384', 'sha224'):
    def _mk(a):
        @fn('hashlib.' + a)
        def h(eng, self, args, kw):
            return hash_new(eng, a, args)
    if _a != 'ripemd160':
        _mk(_a)


@fn('hashlib.new')
def _hnew(eng, self, args, kw):
    if not isinstance(args[0], K):
        raise Unsupported('hash algorithm')
    return hash_new(eng, args[0].v.lower(), args[1:])


def _is_hash(eng, v):
    return isinstance(v, Ref) and eng.st.cell(v).cls.qual == 'hashlib.hash'


@fn('hashobj.digest')
def _digest(eng, self, args, kw):
    d = eng.st.cell(self).d
    if 'key' in d:
        t = ('hmac', d['alg'].v, d['key'], d['data'])
        return Sq('bytes', (('a', t, termlen(t)),))
    return hash_value(eng, d['alg'].v, d['data'])


@fn('hashobj.hexdigest')
def _hexdigest(eng, self, args, kw):
    return mkseq('str', hex_parts(eng, parts_of(_digest(eng, self, [], {}))), eng.st)


@fn('hashobj.update')
def _hupdate(eng, self, args, kw):
    c = eng.st.wcell(self, 'data')
    s = content(eng, args[0])
    c.d['data'] = mkseq('bytes', parts_of(c.d['data']) + parts_of(s), eng.st)
    return NONE


@fn('hashobj.copy')
def _hcopy(eng, self, args, kw):
    c = eng.st.cell(self)
    return eng.st.alloc('inst', c.cls, dict(c.d))


_method0 = method


def method(eng, v, name):
    if _is_hash(eng, v):
        if name in ('digest', 'hexdigest', 'update', 'copy'):
            return Bi('hashobj.' + name, v)
        if name == 'digest_size':
            return K({'sha256': 32, 'sha1': 20, 'ripemd160': 20, 'sha512': 64, 'md5': 16}[eng.st.cell(v).d['alg'].v])
        return None
    return _method0(eng, v, name)


def alg_of(eng, v):
    if isinstance(v, Bi) and v.name.startswith('hashlib.'):
        return v.name.split('.')[1]
    if isinstance(v, K) and isinstance(v.v, str):
        return v.v.lower()
    raise Unsupported('digest algorithm %r' % (v,))


@fn('hmac.new')
def _hmac(eng, self, args, kw):
    key = content(eng, args[0] if args else kw['key'])
    msg = args[1] if len(args) > 1 else kw.get('msg', K(b''))
    msg = K(b'') if msg == NONE else content(eng, msg)
    dm = args[2] if len(args) > 2 else kw.get('digestmod')
    for x in (key, msg):
        if kind_of(x) == 'str':
            eng.exc('TypeError', 'key: expected bytes')
    if dm is None:
        eng.exc('TypeError', 'missing digestmod')
    return eng.st.alloc('inst', ext_class(eng, 'hashlib.hash', 'object'), {'alg': K(alg_of(eng, dm)), 'data': msg, 'key': key})


@fn('hmac.digest')
def _hmacd(eng, self, args, kw):
    return _digest(eng, _hmac(eng, None, args, kw), [], {})


@fn('hmac.compare_digest')
def _hcmp(eng, self, args, kw):
    return cV(eng.eq(args[0], args[1]))


def rand_id(eng):
    n = getattr(eng.st, 'fresh_n', 0)
    eng.st.events.append('rand')
    return sum(1 for e in eng.st.events if e == 'rand')


@fn('os.urandom', 'secrets.token_bytes')
def _urandom(eng, self, args, kw):
    t = ('rand', rand_id(eng), args[0])
    LEN[t] = args[0]
    return Sq('bytes', (('a', t, args[0]),))


@fn('random.randint', 'random.randrange', 'random.random', 'random.getrandbits', 'random.choice')
def _weak(eng, self, args, kw):
    return mkint(patom(('weakrand', rand_id(eng)) + tuple(eng.freeze(a) for a in args)))


@fn('random.Random')
def _weakrandom(eng, self, args, kw):
    return O(('weakrandom',))


@fn('random.SystemRandom', 'secrets.SystemRandom')
def _sysrand(eng, self, args, kw):
    return O(('sysrandom',))


@fn('secrets.randbelow')
def _randbelow(eng, self, args, kw):
    return randbetween(eng, K(0), mkint(padd(poly(args[0]), pconst(-1))))


def randbetween(eng, a, b):
    top = mkint(padd(poly(b), poly(a), -1))
    i = mkint(patom(('randint', rand_id(eng), K(0), top)))
    eng.st.assume_ge0(i.p)
    eng.st.assume_ge0(padd(poly(top), i.p, -1))
    return mkint(padd(i.p, poly(a)))


def sysrandom(eng, name, args):
    if name == 'randint':
        return randbetween(eng, args[0], args[1])
    if name == 'randrange':
        if len(args) == 1:
            return randbetween(eng, K(0), mkint(padd(poly(args[0]), pconst(-1))))
        return randbetween(eng, args[0], mkint(padd(poly(args[1]), pconst(-1))))
    if name == 'getrandbits' and isinstance(args[0], K):
        return randbetween(eng, K(0), K(2 ** args[0].v - 1))
    raise Unsupported('SystemRandom.' + name)


@fn('functools.total_ordering')
def _total(eng, self, args, kw):
    cls = args[0]
    have = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if n in cls.ns]
    if have == ['__lt__'] or '__lt__' in have:
        mk = {'__gt__': 'tot.gt', '__le__': 'tot.le', '__ge__': 'tot.ge'}
        for n, b in mk.items():
            if n not in cls.ns:
                cls.ns[n] = Bi(b)
        return cls
    raise Unsupported('total_ordering base')


def _lt(eng, a, b):
    m = eng.user_method(a, '__lt__')
    return eng.truth(eng.call(eng.bind(m, None, a, None), [b]))


@fn('tot.gt')
def _tot_gt(eng, self, args, kw):
    return K(not _lt(eng, self, args[0]) and not eng.branch(eng.eq(self, args[0])))


@fn('tot.le')
def _tot_le(eng, self, args, kw):
    return K(_lt(eng, self, args[0]) or eng.branch(eng.eq(self, args[0])))


@fn('tot.ge')
def _tot_ge(eng, self, args, kw):
    return K(not _lt(eng, self, args[0]))


@fn('functools.reduce')
def _reduce(eng, self, args, kw):
    ps = list(eng.loops.parts(eng, args[1]))
    if any(p[0] != 'i' for p in ps):
        raise Unsupported('reduce over unknown')
    if len(args) > 2:
        acc = args[2]
    else:
        acc = ps.pop(0)[1]
    for p in ps:
        acc = eng.call(args[0], [acc, p[1]])
    return acc


@fn('functools.partial')
def _partial(eng, self, args, kw):
    return Partial(args[0], args[1:], kw)


@fn('functools.wraps')
def _wraps(eng, self, args, kw):
    return Bi('identity')


@fn('identity')
def _identity(eng, self, args, kw):
    return args[0]


@fn('collections.namedtuple')
def _namedtuple(eng, self, args, kw):
    name = args[0].v
    f = args[1]
    if isinstance(f, K):
        fields = tuple(f.v.replace(',', ' ').split())
    else:
        fields = tuple(p[1].v for p in eng.loops.parts(eng, f))
    c = Cls(name, name, [eng.builtins['tuple']], fields=fields)
    if 'defaults' in kw:
        c.defaults = tuple(p[1] for p in eng.loops.parts(eng, kw['defaults']))
    return c


@fn('inspect.getmembers')
def _getmembers(eng, self, args, kw):
    v = args[0]
    ns = v.ns
    out = []
    for k in sorted(ns):
        if isinstance(k, str) and not k.startswith(' '):
            out.append(('i', Tup((('i', K(k)), ('i', ns[k])))))
    return eng.st.alloc('list', eng.builtins['list'], tuple(out))


@fn('copy.copy', 'copy.deepcopy')
def _copycopy(eng, self, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        c = eng.st.cell(v)
        if c.kind in ('list', 'ba', 'dict', 'set', 'inst'):
            return eng.st.alloc(c.kind, c.cls, dict(c.d) if isinstance(c.d, dict) else c.d)
    return v


@fn('itertools.chain')
def _chain(eng, self, args, kw):
    out = []
    for a in args:
        out.extend(eng.loops.parts(eng, a))
    return mkiter(eng, out)


@fn('itertools.repeat')
def _irepeat(eng, self, args, kw):
    if len(args) == 2 and isinstance(args[1], K):
        return mkiter(eng, (('i', args[0]),) * args[1].v)
    raise Unsupported('itertools.repeat')


@fn('codecs.encode', 'codecs.decode')
def _codecs(eng, self, args, kw):
    raise Unsupported('codecs')


# struct: fixed-width integers only
SIZES = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}


def struct_fmt(f):
    end = 'big' if f[:1] in '>!' else 'little'
    if f[:1] in '<>!=@':
        f = f[1:]
    elif len(f) > 1:
        raise Unsupported('native struct')
    out = []
    import re
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', f):
        if c == 's':
            out.append(('s', int(n or 1)))
        elif c in SIZES:
            out += [(c, SIZES[c])] * int(n or 1)
        else:
            raise Unsupported('struct format')
    return end, out


@fn('struct.pack')
def _pack(eng, self, args, kw):
    if not isinstance(args[0], K):
        raise Unsupported('struct format')
    end, fs = struct_fmt(args[0].v if isinstance(args[0].v, str) else args[0].v.decode())
    if len(fs) != len(args) - 1:
        eng.exc('struct.error', 'pack expected')
    out = []
    for (c, n), v in zip(fs, args[1:]):
        if c == 's':
            raise Unsupported('struct s')
        if not isint(v):
            eng.exc('struct.error', 'required argument is not an integer')
        if not eng.branch(c_and([cond_ge0(poly(v)), cond_ge0(padd(pconst(256 ** n - 1), poly(v), -1))])):
            eng.exc('struct.error', 'out of range')
        out.extend(mk_enc(eng.st, v, K(n), end))
    return mkseq('bytes', out, eng.st)


@fn('struct.unpack')
def _unpack(eng, self, args, kw):
    end, fs = struct_fmt(args[0].v if isinstance(args[0].v, str) else args[0].v.decode())
    s = content(eng, args[1])
    total = sum(n for c, n in fs)
    if not eng.branch(cond_eq0(padd(seqlen(s), pconst(-total)))):
        eng.exc('struct.error', 'unpack requires a buffer')
    ps = parts_of(s)
    out = []
    for c, n in fs:
        l, ps = eng.retry(lambda: cut(eng.st, ps, pconst(n)))
        if c == 's':
            out.append(('i', mkseq('bytes', l, eng.st)))
        else:
            out.append(('i', dec_val(eng.st, l if end == 'big' else rev_parts(l))))
    return Tup(tuple(out))


# urls: texts made of constants and of pieces whose characters have no meaning in a URL
URLSAFE = ('b58', 'hex', 'dstr', 'quoted')


def url_mask(eng, s):
    """(text with a letter-only placeholder per piece, {placeholder: part}), or None"""
    if isinstance(s, K):
        return s.v, {}
    out, m = '', {}
    for p in s.parts:
        if p[0] == 'c':
            out += p[1]
        elif p[0] == 'a' and p[1][0] in URLSAFE:
            k = 'Zq' + 'abcdefghij'[len(m) // 10] + 'abcdefghij'[len(m) % 10] + 'Z'
            m[k] = p
            out += k
        else:
            return None
    return out, m


def url_unmask(eng, text, m):
    ps = []
    while text:
        k = min((text.index(x), x) for x in m if x in text)[1] if any(x in text for x in m) else None
        if k is None:
            ps.append(('c', text))
            break
        i = text.index(k)
        if i:
            ps.append(('c', text[:i]))
        ps.append(m[k])
        text = text[i + len(k):]
    return mkseq('str', tuple(ps), eng.st)


@fn('urllib.parse.urlparse', 'urllib.parse.urlsplit')
def _urlparse(eng, self, args, kw):
    s = content(eng, args[0])
    if s is None or kind_of(s) != 'str' or kw or len(args) > 1:
        raise Unsupported('urlparse')
    k = url_mask(eng, s)
    if k is None:
        if eng.branch(('badurl', s)):
            eng.exc('ValueError', 'Invalid URL')
        return O(('url', s))
    try:
        u = urllib.parse.urlparse(k[0])
    except ValueError as e:
        eng.exc('ValueError', str(e))
    return O(('urlparts',) + tuple((f, url_unmask(eng, getattr(u, f), k[1])) for f in u._fields))


@fn('urllib.parse.parse_qsl')
def _parse_qsl(eng, self, args, kw):
    s = content(eng, args[0])
    keep = kw.pop('keep_blank_values', K(False)) if kw else K(False)
    if kw or len(args) > 1 or not isinstance(keep, K):
        raise Unsupported('parse_qsl options')
    k = url_mask(eng, s) if s is not None and kind_of(s) == 'str' else None
    if k is None:
        return O(('pairs', s))
    text, m = k
    out = []
    for piece in text.split('&') if text else ():
        if not piece:
            continue
        n, eq, v = piece.partition('=')
        if not eq and not keep.v:
            continue
        n, v = unquoted(eng, n, m), unquoted(eng, v, m)
        if not keep.v and eng.branch(cond_eq0(seqlen(v))):
            continue
        out.append(('i', Tup((('i', n), ('i', v)))))
    return eng.st.alloc('list', eng.builtins['list'], tuple(out))


def unquoted(eng, text, m):
    v = url_unmask(eng, text, m)
    ps = []
    for p in parts_of(v):
        if p[0] == 'c':
            ps.append(('c', urllib.parse.unquote_plus(p[1])))
        elif p[1][0] == 'quoted':
            ps.extend(parts_of(p[1][2]))
        else:
            ps.append(p)
    return mkseq('str', tuple(ps), eng.st)


def quoted(eng, v, plus):
    """URL quoting of a text, + or %20 for blanks"""
    if not isinstance(v, (K, Sq)) or kind_of(v) not in ('str', 'bytes'):
        v = to_str(eng, v)
    if kind_of(v) != 'str':
        raise Unsupported('quote of bytes')
    ps = []
    for p in parts_of(v):
        if p[0] == 'c':
            ps.append(('c', (urllib.parse.quote_plus if plus else urllib.parse.quote)(p[1])))
        elif p[0] == 'a' and p[1][0] in ('b58', 'hex', 'dstr'):
            ps.append(p)
        elif p[0] == 'a':
            t = ('quoted', plus, mkseq('str', (p,), eng.st))
            n = termlen(t)
            if isinstance(n, I):
                eng.assume(cond_ge0(padd(poly(n), poly(p[2]), -1)))
            ps.append(('a', t, n))
        else:
            raise Unsupported('quote')
    return mkseq('str', tuple(ps), eng.st)


@fn('urllib.parse.urlencode')
def _urlencode(eng, self, args, kw):
    if kw or len(args) != 1:
        raise Unsupported('urlencode options')
    a = eng.force(args[0])
    if isinstance(a, Ref) and eng.st.cell(a).kind == 'dict':
        a = eng.call(eng.getattr(a, 'items'), [])
    ps = []
    for q in eng.loops.parts(eng, a):
        if q[0] != 'i':
            raise Unsupported('urlencode of unknown size')
        kv = eng.loops.parts(eng, q[1])
        if len(kv) != 2 or any(x[0] != 'i' for x in kv):
            raise Unsupported('urlencode')
        if ps:
            ps.append(('c', '&'))
        ps += list(parts_of(quoted(eng, content(eng, kv[0][1]) or kv[0][1], True))) + [('c', '=')] + list(parts_of(quoted(eng, content(eng, kv[1][1]) or kv[1][1], True)))
    return mkseq('str', norm('str', tuple(ps), eng.st), eng.st)


@fn('urllib.parse.quote_plus')
def _quote_plus(eng, self, args, kw):
    if kw or len(args) != 1:
        raise Unsupported('quote options')
    return quoted(eng, content(eng, args[0]) or args[0], True)


@fn('urllib.parse.quote')
def _quote(eng, self, args, kw):
    if kw or len(args) != 1:
        raise Unsupported('quote options')
    return quoted(eng, content(eng, args[0]) or args[0], False)


@fn('dict.fromkeys')
def _fromkeys(eng, self, args, kw):
    r = eng.st.alloc('dict', eng.builtins['dict'], ())
    for p in eng.loops.parts(eng, args[0]):
        if p[0] != 'i':
            raise Unsupported('dict of unknown size')
        dict_set(eng, r, p[1], args[1] if len(args) > 1 else NONE)
    return r


for _n in ('randint', 'randrange', 'getrandbits'):
    def _mk2(n):
        @fn('sysrandom.' + n)
        def h(eng, self, args, kw):
            return sysrandom(eng, n, args)
    _mk2(_n)
