"""Contracts: what a callee is taken to return while a caller is analysed.

A contract of a bitforge function is its specification from spec/, and the properties that
use it carry the obligations (LEMMAS) that the function's body meets it.  Curve arithmetic
is an uninterpreted function."""
from absint.oblig import *
from absint.values import *
from absint import witness
from absint.engine import cond_ge0, cond_eq0, PyExc
from absint.models import content
from absint.seqs import kind_of, termlen, seqlen
from checks import base58


def spec_of(eng, mod, name):
    m = eng.mods.get(mod)
    return m.ns.get(name) if m is not None else None


def bound(eng, f, args, kwargs, *names):
    """the arguments by position; None when the signature is no longer the one the contract is about"""
    pos = [x.arg for x in f.node.args.args]
    if len(pos) < len(names):
        return None
    v = eng.bind_args(f, args, kwargs)
    return [v[n] for n in pos[:len(names)]]


def encode_int(eng, f, args, kwargs):
    a = bound(eng, f, args, kwargs, 'integer', 'big_endian', 'length')
    g = spec_of(eng, 'spec_encoding', 'fixed')
    if a is None or g is None or not isinstance(a[1], K) or not isinstance(a[2], K) or a[2].v not in (4, 8, 32):
        return NotImplemented
    return eng.call(g, a)


def encode_varint(eng, f, args, kwargs):
    a = bound(eng, f, args, kwargs, 'integer')
    g = spec_of(eng, 'spec_encoding', 'spec_varint')
    if a is None or g is None:
        return NotImplemented
    return eng.call(g, a)


E = 'spec_encoding'
INTS = {'bitforge.encoding.encode_int': encode_int, 'bitforge.encoding.encode_varint': encode_varint}
INT_LEMMAS = [Obl(E, 'varint', n=Int())] + [Obl(E, 'fixed_le', n=Int(), length=Const(k)) for k in (4, 8)] + [Obl(E, 'fixed_be', n=Int(), length=Const(32))]


# ------------------------------------------------------------- curve arithmetic
EC = 'bitforge.utils.ellipticcurve.'


def coords(eng, p):
    x = eng.call(eng.getattr(p, 'x'), [])
    y = eng.call(eng.getattr(p, 'y'), [])
    return x, y


def is_int(v):
    return isinstance(v, I) or isinstance(v, K) and isinstance(v.v, int)


def result(eng, f, cv, name, args):
    xy = []
    prime = eng.call(eng.getattr(cv, 'p'), [])
    if not isinstance(prime, K):
        return NotImplemented
    for c in 'xy':
        t = patom(('uf', name + c) + tuple(args))
        eng.assume(cond_ge0(t))
        eng.assume(cond_ge0(padd(pconst(prime.v - 1), t, -1)))
        xy.append(mkint(t))
    g = spec_of(eng, 'spec_template', 'on_curve')
    if g is None:
        return NotImplemented
    ok = eng.call(g, xy)
    c = eng.truth_cond(ok)
    if not isinstance(c, bool):
        eng.assume(c)
    return eng.call(eng.mods[EC[:-1]].ns['Point'], [cv] + xy)


def point_mul(eng, f, args, kwargs):
    if kwargs or len(args) != 2:
        return NotImplemented
    p, k = args
    x, y = coords(eng, p)
    if not (is_int(x) and is_int(y) and is_int(k)) or (isinstance(k, K) and isinstance(x, K)):
        return NotImplemented
    n = eng.call(eng.getattr(p, 'order'), [])
    if isinstance(n, K) and isinstance(n.v, int):
        import ast
        k = eng.binop(ast.Mod, k, n)
    if eng.branch(cond_eq0(poly(k))):
        return eng.mods[EC[:-1]].ns['INFINITY']
    return result(eng, f, eng.call(eng.getattr(p, 'curve'), []), 'mul', [x, y, k])


def point_add(eng, f, args, kwargs):
    if kwargs or len(args) != 2:
        return NotImplemented
    a, b = coords(eng, args[0]), coords(eng, args[1])
    if not all(is_int(v) for v in a + b) or all(isinstance(v, K) for v in a + b):
        return NotImplemented
    m, n = multiple(a), multiple(b)
    if m and n and m[0] == n[0] and isinstance(m[0][0], K):
        g = [eng.mods[x].ns[y] for x, y in (('bitforge.utils.secp256k1', 'generator_secp256k1'),) if x in eng.mods]
        if g and tuple(coords(eng, g[0])) == m[0]:
            # a G + b G = (a + b) G
            return point_mul(eng, f, [g[0], mkint(padd(poly(m[1]), poly(n[1])))], {})
    a, b = sorted((a, b), key=show_pair)
    return result(eng, f, eng.call(eng.getattr(args[0], 'curve'), []), 'add', a + b)


def multiple(p):
    """(base, k) when p is k times a point"""
    x, y = (psingle(poly(v)) for v in p)
    if x and y and x[:2] == ('uf', 'mulx') and y[:2] == ('uf', 'muly') and x[2:] == y[2:]:
        return x[2:4], x[4]


def show_pair(p):
    return show(p[0]) + show(p[1])


CURVE = {EC + 'Point.__mul__': point_mul, EC + 'Point.__add__': point_add}


# ------------------------------------------------------------------ square roots
PRIME = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f


def root(eng, f, args, kwargs):
    """root(x, odd): the y of that parity"""
    odd = eng.truth(args[1])
    t = patom(('uf', 'oroot' if odd else 'eroot', args[0]))
    eng.assume(cond_ge0(padd(t, pconst(-1))))
    eng.assume(cond_ge0(padd(pconst(PRIME - 1), t, -1)))
    eng.assume(cond_eq0(padd(eng.st.mod(t, 2), pconst(-int(odd)))))
    y = mkint(t)
    c = eng.truth_cond(eng.call(spec_of(eng, 'spec_template', 'on_curve'), [args[0], y]))
    if not isinstance(c, bool):
        eng.assume(c)
    return y


def has_root(eng, f, args, kwargs):
    t = patom(('uf', 'isroot', args[0]))
    eng.assume(cond_ge0(t))
    eng.assume(cond_ge0(padd(pconst(1), t, -1)))
    return C(cond_eq0(padd(t, pconst(-1))))


def pair_for_x(eng, f, args, kwargs):
    """the point with this x and parity; when there is none, a pair that is not on the curve"""
    a = bound(eng, f, args, kwargs, 'generator', 'x', 'is_even')
    g = spec_of(eng, 'spec_template', 'pair_for_x')
    if a is None or g is None:
        return NotImplemented
    return eng.call(g, a[1:])


def modular_sqrt(eng, f, args, kwargs):
    if kwargs or len(args) != 2 or not isinstance(args[1], K):
        return NotImplemented
    t = patom(('uf', 'sqrt', args[0], args[1]))
    eng.assume(cond_ge0(t))
    eng.assume(cond_ge0(padd(pconst(args[1].v - 1), t, -1)))
    return mkint(t)


ABSTRACT = {'spec_template.root': root, 'spec_template.has_root': has_root}
ROOT = dict(ABSTRACT, **{'bitforge.utils.ecdsa.public_pair_for_x': pair_for_x})
SQRT = {'bitforge.utils.numbertheory.modular_sqrt': modular_sqrt}
ROOT_LEMMAS = [Obl('spec_curve', 'lift_x', x=Int(0, 2 ** 256 - 1), even=Bool(), stubs=SQRT), Obl('spec_curve', 'sqrt', a=Int(0, PRIME - 1))]


# ------------------------------------------------------------------- Base58Check
UE = 'bitforge.utils.encoding.'


def b58_encode(eng, f, args, kwargs):
    """the text of a payload: an injective function of it"""
    if kwargs or len(args) != 1:
        return NotImplemented
    v = content(eng, args[0])
    if v is None or kind_of(v) != 'bytes':
        return NotImplemented
    if isinstance(v, K):
        return K(witness.base58check(v.v))
    t = ('b58', v)
    eng.assume(cond_ge0(padd(poly(termlen(t)), pconst(-1))))
    return Sq('str', (('a', t, termlen(t)),))


def b58_decode(eng, f, args, kwargs):
    """the payload of such a text; texts named bad are those that are not of that form"""
    if kwargs or len(args) != 1:
        return NotImplemented
    v = content(eng, args[0])
    if v is None or kind_of(v) != 'str' or isinstance(v, K) or len(v.parts) != 1 or v.parts[0][0] != 'a':
        return NotImplemented
    t = v.parts[0][1]
    if t[0] == 'b58':
        return t[1]
    if t == ('sym', 'wrong'):
        eng.exc(eng.mods[UE[:-1]].ns['EncodingError'], 'not Base58Check')
    if t == ('sym', 'bad'):
        u = patom(('uf', 'isascii', v))
        eng.assume(cond_ge0(u))
        eng.assume(cond_ge0(padd(pconst(1), u, -1)))
        if eng.branch(cond_eq0(u)):
            eng.exc('UnicodeEncodeError', 'ordinal not in range(128)')
        eng.exc(eng.mods[UE[:-1]].ns['EncodingError'], 'not Base58Check')
    return NotImplemented


B58 = {UE + 'b2a_hashed_base58': b58_encode, UE + 'a2b_hashed_base58': b58_decode}
BAD = Text()
B58_LEMMAS = base58.OBL['C05']


# ---------------------------------------------------------------- script numbers
SIZES = (4, 5)


def sn_decode(eng, f, args, kwargs):
    a = bound(eng, f, args, kwargs, 'bytes', 'f_require_minimal', 'size')
    if a is None or not isinstance(a[2], K) or a[2].v not in SIZES:
        return NotImplemented
    v = content(eng, a[0])
    if v is None or kind_of(v) != 'bytes' or isinstance(v, K):
        return NotImplemented
    ns = eng.mods['bitforge.encoding'].ns
    n = seqlen(v)
    if eng.branch(cond_ge0(padd(n, pconst(-a[2].v - 1)))):
        raise PyExc(eng.call(ns['InvalidScriptNumber'], [a[0]]))
    if eng.branch(cond_eq0(n)):
        return K(0)
    if eng.truth(a[1]):
        t = patom(('uf', 'snlong', v))
        eng.assume(cond_ge0(t))
        eng.assume(cond_ge0(padd(pconst(1), t, -1)))
        if eng.branch(cond_eq0(padd(t, pconst(-1)))):
            raise PyExc(eng.call(ns['InvalidMinimalScriptNumber'], [a[0]]))
    t = patom(('uf', 'snum', v))
    m = 2 ** (8 * a[2].v - 1) - 1
    eng.assume(cond_ge0(padd(pconst(m), t)))
    eng.assume(cond_ge0(padd(pconst(m), t, -1)))
    return mkint(t)


def sn_encode(eng, f, args, kwargs):
    if kwargs or len(args) != 1:
        return NotImplemented
    n = args[0]
    if isinstance(n, C):
        n = K(int(eng.truth(n)))
    if not isinstance(n, I):
        return NotImplemented
    if eng.branch(cond_eq0(poly(n))):
        return K(b'')
    t = ('snenc', n)
    m = poly(termlen(t))
    eng.assume(cond_ge0(padd(m, pconst(-1))))
    eng.assume(cond_ge0(padd(pconst(9), m, -1)))
    return Sq('bytes', (('a', t, termlen(t)),))


def sn_encode_impl(eng, f, args, kwargs):
    v = sn_encode(eng, f, args, kwargs)
    return v if v is NotImplemented else eng.call(eng.builtins['bytearray'], [v])


SN = {'bitforge.encoding.decode_script_number': sn_decode, 'bitforge.encoding.encode_script_number': sn_encode_impl, 'spec_encoding.spec_sn_decode': sn_decode, 'spec_encoding.spec_sn_encode': sn_encode}
SN_LEMMAS = [Obl(E, 'sn_encode', n=Int(-2 ** 71, 2 ** 71))] + [Obl(E, 'sn_decode', data=Bytes(k, k), minimal=Const(m), size=Const(s)) for k in range(7) for m in (False, True) for s in (4, 5)] \
    + [Obl(E, 'sn_decode', data=Bytes(k), minimal=Const(m), size=Const(k - 1)) for k in (5, 6) for m in (False, True)]
OBL = {}
