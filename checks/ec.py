import random

from absint import curve
from absint.oblig import *
from absint.values import *
from absint.engine import cond_ge0
from checks.stubs import CURVE, ROOT, ROOT_LEMMAS, PRIME, EC, coords, result, is_int, multiple
from checks.signing import ORDER
from checks.template import Key

M = 'spec_ec'


class Pt(Build):
    """any point of the curve"""

    def __init__(self, order=False):
        Build.__init__(self, 'ordered' if order else 'raw', x=Int(0, PRIME - 1), odd=Bool())

    def text(self):
        return 'point'

    samplers = Key.samplers

    def make(self, eng, name):
        a = [self.doms[k].make(eng, name + '.' + k) for k in ('x', 'odd')]
        if not eng.truth(eng.call(eng.spec_fn('in_field'), a[:1])):
            raise Infeasible()
        return eng.call(eng.spec_fn(self.fn), a)


def inverse(eng, f, args, kwargs):
    if kwargs or len(args) != 2 or not isinstance(args[1], K) or not is_int(args[0]):
        return NotImplemented
    a = mkint(eng.st.mod(poly(args[0]), args[1].v))
    if isinstance(a, K):
        return K(pow(a.v, -1, args[1].v)) if a.v else NotImplemented
    t = patom(('uf', 'inv', a, args[1]))
    eng.assume(cond_ge0(padd(t, pconst(-1))))
    eng.assume(cond_ge0(padd(pconst(args[1].v - 1), t, -1)))
    return mkint(t)


def generate_k(eng, f, args, kwargs):
    if kwargs or len(args) != 3 or not isinstance(args[0], K):
        return NotImplemented
    t = patom(('uf', 'rfc6979') + tuple(args))
    eng.assume(cond_ge0(padd(t, pconst(-1))))
    eng.assume(cond_ge0(padd(pconst(args[0].v - 1), t, -1)))
    return mkint(t)


# ------------------------------------------- multiples of one point, by exponent
def exponent(eng, p, base=None):
    """(base, k): p is k times base"""
    m = multiple(p)
    if m:
        return m[0], m[1].v
    if base and p[0] == base[0] and padd(poly(p[1]), poly(base[1])) == ():
        return base, -1
    return tuple(p), 1


def times(eng, cv, f, base, k):
    if k == 0:
        return eng.mods[EC[:-1]].ns['INFINITY']
    if k == 1:
        return eng.call(eng.mods[EC[:-1]].ns['Point'], [cv] + list(base))
    return result(eng, f, cv, 'mul', list(base) + [K(k)])


def group_add(eng, f, args, kwargs):
    a, b = coords(eng, args[0]), coords(eng, args[1])
    if not all(is_int(v) for v in a + b) or all(isinstance(v, K) for v in a + b):
        return NotImplemented
    base, k = exponent(eng, a)
    base2, l = exponent(eng, b, base)
    if base2 != base:
        base2, l = exponent(eng, b)
        base, k = exponent(eng, a, base2)
    if base2 != base:
        return NotImplemented
    return times(eng, eng.call(eng.getattr(args[0], 'curve'), []), f, base, k + l)


def group_double(eng, f, args, kwargs):
    a = coords(eng, args[0])
    if not all(is_int(v) for v in a):
        return NotImplemented
    base, k = exponent(eng, a)
    return times(eng, eng.call(eng.getattr(args[0], 'curve'), []), f, base, 2 * k)


def nth(eng, f, args, kwargs):
    x, y, k = args
    if k == K(1):
        return Tup((('i', x), ('i', y)))
    return Tup(tuple(('i', mkint(patom(('uf', 'mul' + c, x, y, k)))) for c in 'xy'))


GROUP = dict(ROOT, **{EC + 'Point.__add__': group_add, EC + 'Point.double': group_double, 'spec_ec.nth': nth})
INV = {'bitforge.utils.numbertheory.inverse_mod': inverse}
NONCE = {'bitforge.utils.ecdsa.deterministic_generate_k': generate_k}
_r = random.Random(7)
SCALARS = list(range(0, 34)) + [2 ** j + d for j in (6, 7, 8, 31, 32, 64, 128, 255) for d in (-1, 0, 1)] + [ORDER + d for d in (-3, -2, -1, 0, 1, 2)] + [_r.getrandbits(256) for _ in range(12)] + [_r.getrandbits(20) for _ in range(12)] + [-1, -2]
U256 = Int(0, 2 ** 256 - 1)
SECRET = Int(1, ORDER - 1)
_a = [1, 2, 3, 4, 7, 16, 65537, 2 ** 128 - 1, 2 ** 128, 2 ** 255, -1, -2, -(2 ** 200)] + [_r.getrandbits(b) + 1 for b in (8, 32, 64, 100, 128, 160, 200, 240) + (255,) * 12]
INVERSES = [(a, m) for m in (PRIME, ORDER) for a in _a + [m - 1, m - 2, m + 1, (m + 1) // 2, 2 * m + 5, m // 3]] + [(a, m) for m in (2, 3, 5, 7, 11, 31) for a in range(-m, 2 * m) if a % m]
INV_LEMMAS = [Obl(M, 'inverse', a=Const(a), m=Const(m)) for a, m in INVERSES]
MUL_LEMMAS = [Obl(M, 'mul', impl=i, note=i[8:], p=Pt(True), k=Const(k), stubs=GROUP) for k in SCALARS for i in ('impl_mul', 'impl_mul_left') if i == 'impl_mul' or k in (0, 1, 5)]
OBL = {
    'C37': [Obl(M, f, p=Pt(), stubs=dict(ROOT, **INV)) for f in ('double', 'neutral', 'opposite')]
    + [Obl(M, 'double', impl='impl_double_add', note='by addition', p=Pt(), assume='not_own_opposite', stubs=dict(ROOT, **INV)), Obl(M, 'add', p=Pt(), q=Pt(), assume='apart', stubs=dict(ROOT, **INV)), Obl(M, 'eq', p=Pt(), q=Pt(), stubs=ROOT)]
    + [Obl(M, f, x=Int(), y=Int()) for f in ('on_curve', 'off_curve')] + MUL_LEMMAS + INV_LEMMAS,
    'C39': [Obl(M, 'nonce', secret=SECRET, val=U256, assume='usual'), Obl(M, 'nonce', secret=SECRET, val=Const(ORDER), assume='usual'), Obl(M, 'sign', secret=SECRET, val=U256, stubs=dict(CURVE, **ROOT, **INV, **NONCE)),
            Obl(M, 'verify', p=Pt(True), val=U256, r=Int(), s=Int(), stubs=dict(CURVE, **ROOT, **INV))]
    + [Obl(M, 'verify', p=Pt(True), val=U256, r=Const(r), s=Const(s), stubs=dict(CURVE, **ROOT)) for r, s in ((5, ORDER), (5, 2 * ORDER), (ORDER, 5), (ORDER + 5, 5), (5, ORDER + 5), (5, 0), (0, 5), (-5, 5), (5, -5))] + INV_LEMMAS,
}


def signatures():
    """(key, value, r, s, valid?): ordinary ones, high s, large values, infinity, an x above the order"""
    n, out = curve.N, []
    mul, add, g = curve.mul, curve.add, curve.G
    for d, k, z in ((1, 2, 5), (7, 3, n - 1), (n - 1, 5, n), (12345, 77, 2 ** 256 - 1), (2 ** 200 + 9, 2 ** 130 + 1, 0), (3, n - 2, 2 ** 255 + 7)):
        q, r = mul(d, g), mul(k, g)[0] % n
        s = pow(k, -1, n) * (z + r * d) % n
        out += [(q, z, r, s, True), (q, z, r, n - s, True), (q, z, r, (s + 1) % n, False), (q, z, r % n + 1, s, False), (q, (z + 1) % 2 ** 256, r, s, False), (mul(d + 3, g), z, r, s, False), (q, z, r + n, s, False), (q, z, r, s + n, False)]
    for d, r, s in ((5, 9, 4), (2, n - 3, 2 ** 100)):  # u1 G + u2 Q is the point at infinity
        out.append((mul(d, g), -r * d % n, r, s, False))
    x = n + 1
    while pow((x ** 3 + 7) % curve.P, (curve.P - 1) // 2, curve.P) != 1:
        x += 1
    big = x, pow(x ** 3 + 7, (curve.P + 1) // 4, curve.P)
    for u1, u2 in ((3, 5), (2 ** 140, 11)):
        q = mul(pow(u2, -1, n), add(big, mul(n - u1, g)))
        r = x % n
        s = r * pow(u2, -1, n) % n
        out += [(q, u1 * s % n, r, s, True), (q, u1 * s % n, x, s, False)]
    return out


ORDERS = [curve.N, 0x4000000000000000000020108A2E0CC0D99F8A5EF, 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551, 2 ** 255 + 95, 2 ** 200 + 235, 131]
OBL['C39'] += [Obl(M, 'nonce_one', q=Const(q), secret=Int(1, q - 1), val=U256, assume='first_fits') for q in ORDERS] + [Obl(M, 'nonce_two', q=Const(q), secret=Int(1, q - 1), val=U256, assume='second_fits') for q in ORDERS] \
    + [Obl(M, 'verify_number', pair=Const(q), val=Const(z), r=Const(r), s=Const(s), good=Const(v), stubs=INV) for q, z, r, s, v in signatures()]
