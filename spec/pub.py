"""Public keys, signatures, addresses and networks."""
import ecdsa

from bitforge import PrivateKey, PublicKey, Address, networks, utils
from bitforge.encoding import sha256, ripemd160, encode_base58h, InvalidHex
from bitforge.script import Script
from spec_script import plain, wires, bare, direct, ins, is_bare
from spec_template import pubkey, in_field, pk_address, script_address, sec, on_curve, root, has_root
from spec_keys import privkey

N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)
PKH = {'livenet': 0, 'testnet': 111}
SH = {'livenet': 5, 'testnet': 196}


# ---------------------------------------------------------------------- signing
def spec_sign(key, digest):
    k = ecdsa.SigningKey.from_secret_exponent(key.secret, curve=ecdsa.SECP256k1)
    return k.sign_digest(digest, sigencode=ecdsa.util.sigencode_der_canonize)


def impl_sign(key, digest):
    return key.sign(digest)


def spec_verify(key, signature, digest):
    k = ecdsa.SigningKey.from_secret_exponent(key.secret, curve=ecdsa.SECP256k1).get_verifying_key()
    try:
        k.verify_digest(signature, digest, sigdecode=ecdsa.util.sigdecode_der)
        return True
    except (ecdsa.BadSignatureError, ecdsa.der.UnexpectedDER):
        return False


def impl_verify(key, signature, digest):
    return key.verify(signature, digest)


# ------------------------------------------------------------------ public keys
def show(k):
    return (type(k), k.pair, k.network.name, k.compressed)


def valid(x, y):
    return 0 <= x < P and 0 <= y < P and on_curve(x, y)


def spec_make(x, y, net, compressed):
    if not valid(x, y):
        raise PublicKey.InvalidPair((x, y))
    return (PublicKey, (x, y), net, compressed)


def impl_make(x, y, net, compressed):
    return show(PublicKey((x, y), net, compressed))


def impl_make_list(x, y, net, compressed):
    k = PublicKey([x, y], net, compressed)
    hash(k)
    return show(k)


def spec_make_default(x, y):
    if not valid(x, y):
        raise PublicKey.InvalidPair((x, y))
    return (PublicKey, (x, y), 'livenet', True)


def impl_make_default(x, y):
    return show(PublicKey((x, y)))


def spec_unknown_net(key, net):
    raise PublicKey.UnknownNetwork('name', net)


def impl_unknown_net(key, net):
    return PublicKey(key.pair, net)


def spec_of_private(key):
    p = utils.generator_secp256k1 * key.secret
    return (PublicKey, (p.x(), p.y()), key.network.name, key.compressed)


def impl_of_private(key):
    return show(key.to_public_key())


def impl_of_private_static(key):
    return show(PublicKey.from_private_key(key))


def spec_parameters():
    return (G, N, P, 0, 7, (ecdsa.SECP256k1,))


def impl_parameters():
    g = utils.generator_secp256k1
    return (g.pair(), g.order(), g.curve().p(), g.curve().a(), g.curve().b(), (ecdsa.SECP256k1,))


def spec_bytes(key):
    b = sec(key)
    return (b, b.hex())


def impl_bytes(key):
    return (key.to_bytes(), key.to_hex())


def spec_inverts(key, net):
    return ((PublicKey, key.pair, net, key.compressed),) * 2


def impl_inverts(key, net):
    return (show(PublicKey.from_bytes(key.to_bytes(), net)), show(PublicKey.from_hex(key.to_hex(), net)))


def spec_parse(data, net):
    h = data[:1]
    if len(data) == 33 and h in (b'\x02', b'\x03'):
        x = int.from_bytes(data[1:], 'big')
        if not has_root(x) or x >= P:
            return 'refused'
        return (PublicKey, (x, root(x, h == b'\x03')), net, True)
    if len(data) == 65 and h == b'\x04':
        x, y = int.from_bytes(data[1:33], 'big'), int.from_bytes(data[33:], 'big')
        return (PublicKey, (x, y), net, False) if valid(x, y) else 'refused'
    return 'refused'


def impl_parse(data, net):
    try:
        k = PublicKey.from_bytes(data, net)
    except PublicKey.Error:
        return 'refused'
    return show(k)


def impl_parse_hex(data, net):
    try:
        k = PublicKey.from_hex(data.hex(), net)
    except PublicKey.Error:
        return 'refused'
    return show(k)


def spec_bad_hex(text):
    raise PublicKey.InvalidHex(text)


def impl_bad_hex(text):
    return PublicKey.from_hex(text)


# bytes made from a point of the curve, with any prefix and with more or fewer bytes
def sec_with(key, prefix, form):
    x, y = [v.to_bytes(32, 'big') for v in key.pair]
    return bytes([prefix]) + {'xy': x + y, 'x': x, 'yx': y + x, 'xy0': x + y + b'\x00', 'x0': x + b'\x00', 'short': (x + y)[:-1], '0x': b'\x00' + x}[form]


def spec_prefixed(key, prefix, form):
    x, y = key.pair
    if form == 'x' and prefix in (2, 3):
        return (PublicKey, (x, root(x, prefix == 3)), 'livenet', True)
    if form == 'xy' and prefix == 4:
        return (PublicKey, (x, y), 'livenet', False)
    return 'refused'


def impl_prefixed(key, prefix, form):
    return impl_parse(sec_with(key, prefix, form), 'livenet')
