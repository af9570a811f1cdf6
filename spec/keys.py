"""Private keys, public keys, addresses and networks."""
import random

from bitforge import PrivateKey, PublicKey, Address, networks
from bitforge.encoding import sha256, ripemd160, encode_base58h, InvalidHex
from bitforge.script import Script
from spec_script import plain, wires, bare, direct, ins, is_bare
from spec_template import pubkey, in_field, pk_address, script_address, sec, on_curve, root, has_root

N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f
WIF = {'livenet': 128, 'testnet': 239}
PKH = {'livenet': 0, 'testnet': 111}
SH = {'livenet': 5, 'testnet': 196}


def privkey(secret, net, compressed):
    return PrivateKey(secret, net, compressed)


def show(k):
    return (type(k), k.secret, k.network.name, k.compressed)


def made(secret, net, compressed):
    if not 0 < secret < N:
        raise PrivateKey.InvalidSecret(secret)
    return (PrivateKey, secret, net, compressed)


# ----------------------------------------------------------------- private keys
def spec_make(secret, net, compressed):
    return made(secret, net, compressed)


def impl_make(secret, net, compressed):
    return show(PrivateKey(secret, net, compressed))


def spec_make_default(secret):
    return made(secret, 'livenet', True)


def impl_make_default(secret):
    return show(PrivateKey(secret))


def spec_unknown_net(secret, net):
    raise PrivateKey.UnknownNetwork('name', net)


def impl_unknown_net(secret, net):
    return PrivateKey(secret, net)


def spec_random(net, compressed):
    return (PrivateKey, random.SystemRandom().randint(1, N - 1), net, compressed)


def impl_random(net, compressed):
    return show(PrivateKey(network=net, compressed=compressed))


def spec_from_bytes(data, net, compressed):
    if len(data) != 32:
        raise PrivateKey.InvalidBinaryLength(data)
    return made(int.from_bytes(data, 'big'), net, compressed)


def impl_from_bytes(data, net, compressed):
    return show(PrivateKey.from_bytes(data, net, compressed))


def impl_from_bytes_hex(data, net, compressed):
    return show(PrivateKey.from_hex(data.hex(), net, compressed))


def spec_defaults(data):
    return made(int.from_bytes(data, 'big'), 'livenet', True)


def impl_defaults(data):
    return show(PrivateKey.from_bytes(data))


def impl_defaults_hex(data):
    return show(PrivateKey.from_hex(data.hex()))


def spec_bad_hex(text):
    raise PrivateKey.InvalidHex(text)


def impl_bad_hex(text):
    return PrivateKey.from_hex(text)


def spec_bytes(key):
    b = key.secret.to_bytes(32, 'big')
    return (b, b.hex())


def impl_bytes(key):
    return (key.to_bytes(), key.to_hex())


def spec_bytes_inverts(key, net, compressed):
    return ((PrivateKey, key.secret, net, compressed),) * 2


def impl_bytes_inverts(key, net, compressed):
    return (show(PrivateKey.from_bytes(key.to_bytes(), net, compressed)), show(PrivateKey.from_hex(key.to_hex(), net, compressed)))


def spec_wif(key):
    return encode_base58h(bytes([WIF[key.network.name]]) + key.secret.to_bytes(32, 'big') + (b'\x01' if key.compressed else b''))


def impl_wif(key):
    return key.to_wif()


def spec_wif_inverts(key):
    return show(key)


def impl_wif_inverts(key):
    return show(PrivateKey.from_wif(key.to_wif()))


def spec_from_wif(payload):
    text = encode_base58h(payload)
    if len(payload) not in (33, 34):
        raise PrivateKey.InvalidWifLength(payload)
    if len(payload) == 34 and payload[33] != 1:
        raise PrivateKey.InvalidCompressionByte(text)
    for net in ('livenet', 'testnet'):
        if payload[0] == WIF[net]:
            return made(int.from_bytes(payload[1:33], 'big'), net, len(payload) == 34)
    raise PrivateKey.UnknownNetwork('wif_prefix', payload[0])


def impl_from_wif(payload):
    return show(PrivateKey.from_wif(encode_base58h(payload)))


def spec_bad_wif(bad):
    raise PrivateKey.InvalidBase58h(bad)


def impl_bad_wif(bad):
    return PrivateKey.from_wif(bad)


def spec_eq(a, b):
    return (a.secret == b.secret and a.network.name == b.network.name and a.compressed == b.compressed, True)


def impl_eq(a, b):
    return (a == b, (a != b) is not (a == b))
