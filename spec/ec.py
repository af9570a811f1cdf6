"""Points of the curve, and the library's own ECDSA."""
import hashlib
import hmac

from bitforge import utils
from bitforge.utils import numbertheory, ecdsa, ellipticcurve
from bitforge.utils.ellipticcurve import Point, CurveFp, INFINITY
from spec_template import root, has_root, on_curve, in_field, P

N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = utils.generator_secp256k1
C = G.curve()


def inv(a, m):
    return numbertheory.inverse_mod(a % m, m)


def nth(x, y, k):
    """the coordinates of k times the point (x, y); uninterpreted"""
    raise NotImplementedError()


def raw(x, odd):
    return Point(C, x, root(x, odd))


def ordered(x, odd):
    return Point(C, x, root(x, odd), N)


# -------------------------------------------------------------------- group law
def spec_double(p):
    x, y = p.x(), p.y()
    l = 3 * x * x * inv(2 * y, P) % P
    x3 = (l * l - 2 * x) % P
    y3 = (l * (x - x3) - y) % P
    return Point(C, x3, y3).pair()


def impl_double(p):
    return p.double().pair()


def spec_add(p, q):
    l = (q.y() - p.y()) * inv(q.x() - p.x(), P) % P
    x3 = (l * l - p.x() - q.x()) % P
    y3 = (l * (p.x() - x3) - p.y()) % P
    return Point(C, x3, y3).pair()


def apart(p, q):
    return p.x() != q.x()


def not_own_opposite(p):
    """holds for every point of the curve, whose order is odd"""
    return 2 * p.y() % P != 0


def impl_double_add(p):
    r = p + p
    return 'infinity' if r == INFINITY else r.pair()


def impl_add(p, q):
    r = p + q
    return 'infinity' if r == INFINITY else r.pair()


def spec_neutral(p):
    return (True, True, True, True, True, False, True)


def impl_neutral(p):
    return (bool(p + INFINITY == p), bool(INFINITY + p == p), bool(INFINITY.double() == INFINITY), bool(p * 0 == INFINITY), bool(INFINITY + INFINITY == INFINITY),
            bool(p == INFINITY), bool(p == p))


def spec_opposite(p):
    return 'infinity'


def impl_opposite(p):
    r = p + Point(C, p.x(), P - p.y())
    return 'infinity' if r == INFINITY else r.pair()


def spec_eq(p, q):
    return p.x() == q.x() and p.y() == q.y()


def impl_eq(p, q):
    return bool(p == q)


def spec_on_curve(x, y):
    return (y * y - x * x * x - 7) % P == 0


def impl_on_curve(x, y):
    return C.contains_point(x, y)


def spec_off_curve(x, y):
    if (y * y - x * x * x - 7) % P != 0:
        raise ellipticcurve.NoSuchPointError('off')
    return (x, y, None)


def impl_off_curve(x, y):
    try:
        p = Point(C, x, y)
    except ellipticcurve.NoSuchPointError:
        raise ellipticcurve.NoSuchPointError('off')
    return (p.x(), p.y(), p.order())


def spec_mul(p, k):
    k = k % N
    if k == 0:
        return 'infinity'
    return nth(p.x(), p.y(), k)


def impl_mul(p, k):
    r = p * k
    return 'infinity' if r == INFINITY else r.pair()


def impl_mul_left(p, k):
    r = k * p
    return 'infinity' if r == INFINITY else r.pair()


# ------------------------------------------------------------------------ ECDSA
def nonce(secret, val):
    """the first candidate of RFC 6979"""
    def mac(k, d):
        return hmac.new(k, d, hashlib.sha256).digest()
    v = val - N if val >= N else val
    x = secret.to_bytes(32, 'big') + v.to_bytes(32, 'big')
    k = mac(b'\x00' * 32, b'\x01' * 32 + b'\x00' + x)
    v = mac(k, b'\x01' * 32)
    k = mac(k, v + b'\x01' + x)
    v = mac(k, v)
    v = mac(k, v)
    return int.from_bytes(v, 'big')


def usual(secret, val):
    return 1 <= nonce(secret, val) < N


def spec_nonce(secret, val):
    return nonce(secret, val)


def impl_nonce(secret, val):
    return ecdsa.deterministic_generate_k(N, secret, val)


def spec_sign(secret, val):
    k = ecdsa.deterministic_generate_k(N, secret, val)
    r = (G * k).x() % N
    if r == 0:
        return 'unlucky'
    s = inv(k, N) * (val + secret * r) % N
    if s == 0:
        return 'unlucky'
    return (r, s)


def impl_sign(secret, val):
    try:
        return utils.sign(G, secret, val)
    except RuntimeError:
        return 'unlucky'



def spec_verify(p, val, r, s):
    if not 0 < r < N or not 0 < s < N:
        return False
    c = inv(s, N)
    q = G * (val * c % N) + p * (r * c % N)
    return q != INFINITY and q.x() % N == r


def impl_verify(p, val, r, s):
    return utils.verify(G, (p.x(), p.y()), val, (r, s))


def spec_inverse(a, m):
    return pow(a, -1, m)


def impl_inverse(a, m):
    return numbertheory.inverse_mod(a, m)


# ------------------------------------------------ numbers, whole computations
def candidates(q, secret, val):
    """the first two candidates of RFC 6979, section 3.2, with SHA-256; val is the hash as an integer, q has at most 256 bits"""
    qlen = q.bit_length()
    rlen = (qlen + 7) // 8

    def mac(k, d):
        return hmac.new(k, d, hashlib.sha256).digest()
    z = val >> (256 - qlen)
    if z >= q:
        z -= q
    x = secret.to_bytes(rlen, 'big') + z.to_bytes(rlen, 'big')
    k = mac(b'\x00' * 32, b'\x01' * 32 + b'\x00' + x)
    v = mac(k, b'\x01' * 32)
    k = mac(k, v + b'\x01' + x)
    v = mac(k, mac(k, v))
    first = int.from_bytes(v, 'big') >> (256 - qlen)
    k = mac(k, v + b'\x00')
    v = mac(k, mac(k, v))
    return (first, int.from_bytes(v, 'big') >> (256 - qlen))


def first_fits(q, secret, val):
    return 1 <= candidates(q, secret, val)[0] < q


def second_fits(q, secret, val):
    a, b = candidates(q, secret, val)
    return (a < 1 or a >= q) and 1 <= b < q


def spec_nonce_one(q, secret, val):
    return candidates(q, secret, val)[0]


def spec_nonce_two(q, secret, val):
    return candidates(q, secret, val)[1]


def impl_nonce_one(q, secret, val):
    return ecdsa.deterministic_generate_k(q, secret, val)


def impl_nonce_two(q, secret, val):
    return ecdsa.deterministic_generate_k(q, secret, val)


def spec_verify_number(pair, val, r, s, good):
    return good


def impl_verify_number(pair, val, r, s, good):
    return utils.verify(G, pair, val, (r, s))
