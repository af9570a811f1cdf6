"""Hierarchical keys (BIP 32)."""
import hashlib
import hmac
import os

from bitforge import PrivateKey, PublicKey, HDPrivateKey, HDPublicKey, networks, utils
from bitforge.encoding import sha256, ripemd160, encode_base58h
from bitforge.utils.encoding import EncodingError
from spec_template import pubkey, in_field, sec, on_curve, root, has_root, P
from spec_keys import privkey

N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
H = 0x80000000
XPRV = {'livenet': 0x0488ade4, 'testnet': 0x04358394}
XPUB = {'livenet': 0x0488b21e, 'testnet': 0x043587cf}


def hdpriv(key, chain, depth, index, parent):
    return HDPrivateKey(key, chain, depth, index, parent, key.network)


def hdpub(key, chain, depth, index, parent):
    return HDPublicKey(key, chain, depth, index, parent, key.network)


def finger(pub):
    return int.from_bytes(ripemd160(sha256(sec(pub)))[:4], 'big')


def show_priv(k):
    return (type(k), type(k.privkey), k.privkey.secret, k.privkey.compressed, k.privkey.network.name, k.chain, k.depth, k.index, k.parent, k.network.name, k.fingerprint)


def show_pub(k):
    return (type(k), type(k.pubkey), k.pubkey.pair, k.pubkey.compressed, k.pubkey.network.name, k.chain, k.depth, k.index, k.parent, k.network.name, k.fingerprint)


def point(secret):
    p = utils.generator_secp256k1 * secret
    return (p.x(), p.y())


def made_priv(secret, chain, depth, index, parent, net):
    if not 0 < secret < N:
        raise PrivateKey.InvalidSecret(secret)
    return (HDPrivateKey, PrivateKey, secret, True, net, chain, depth, index, parent, net, finger(PublicKey(point(secret))))


def made_pub(pair, chain, depth, index, parent, net):
    return (HDPublicKey, PublicKey, pair, True, net, chain, depth, index, parent, net, finger(PublicKey(pair)))


# ------------------------------------------------------------------- derivation
def spec_seed(seed):
    if len(seed) < 32:
        raise ValueError()
    i = hmac.new(b'Bitcoin seed', seed, hashlib.sha512).digest()
    return made_priv(int.from_bytes(i[:32], 'big'), i[32:], 0, 0, 0, 'livenet')


def impl_seed(seed):
    return show_priv(HDPrivateKey.from_seed(seed))


def spec_random_seed():
    return spec_seed(os.urandom(32))


def impl_random_seed():
    return show_priv(HDPrivateKey.from_seed())


def spec_derive(k, index, hardened):
    if not 0 <= index < 2 * H:
        return 'refused'
    if hardened and index < H:
        index += H
    data = b'\x00' + k.privkey.secret.to_bytes(32, 'big') if index >= H else sec(k.privkey.to_public_key())
    i = hmac.new(k.chain, data + index.to_bytes(4, 'big'), hashlib.sha512).digest()
    s = (int.from_bytes(i[:32], 'big') + k.privkey.secret) % N
    if s == 0:
        return 'refused'
    return made_priv(s, i[32:], k.depth + 1, index, k.fingerprint, k.network.name)


def impl_derive(k, index, hardened):
    try:
        c = k.derive(index, hardened)
    except (ValueError, OverflowError, PrivateKey.Error):
        return 'refused'
    return show_priv(c)


def spec_derive_default(k, index):
    return spec_derive(k, index, False)


def impl_derive_default(k, index):
    try:
        c = k.derive(index)
    except (ValueError, OverflowError, PrivateKey.Error):
        return 'refused'
    return show_priv(c)


def spec_derive_pub(k, index, hardened):
    if hardened or not 0 <= index < H:
        return 'refused'
    i = hmac.new(k.chain, sec(k.pubkey) + index.to_bytes(4, 'big'), hashlib.sha512).digest()
    g = utils.generator_secp256k1
    p = g * int.from_bytes(i[:32], 'big') + utils.Point(g.curve(), k.pubkey.pair[0], k.pubkey.pair[1])
    return made_pub((p.x(), p.y()), i[32:], k.depth + 1, index, k.fingerprint, k.network.name)


def impl_derive_pub(k, index, hardened):
    try:
        c = k.derive(index, hardened)
    except (ValueError, OverflowError):
        return 'refused'
    return show_pub(c)


def tweakable(k, index):
    """the child is a valid key, and the tweak is not zero (either fails with probability 2**-256)"""
    i = hmac.new(k.chain, sec(k.privkey.to_public_key()) + index.to_bytes(4, 'big'), hashlib.sha512).digest()
    t = int.from_bytes(i[:32], 'big')
    return t % N != 0 and (t + k.privkey.secret) % N != 0


def spec_commutes(k, index):
    return show_pub(k.derive(index).to_hd_public_key())


def impl_commutes(k, index):
    return show_pub(k.to_hd_public_key().derive(index))


def spec_to_public(k):
    return made_pub(point(k.privkey.secret), k.chain, k.depth, k.index, k.parent, k.network.name)


def impl_to_public(k):
    return show_pub(k.to_hd_public_key())


def impl_to_public_static(k):
    return show_pub(HDPublicKey.from_hd_private_key(k))


def spec_make_priv(key, chain, depth, index, parent):
    return made_priv(key.secret, chain, depth, index, parent, key.network.name)


def impl_make_priv(key, chain, depth, index, parent):
    k = hdpriv(key, chain, depth, index, parent)
    if k.to_private_key() != key or k.to_public_key() != key.to_public_key():
        return 'other key'
    return show_priv(k)


def spec_make_pub(key, chain, depth, index, parent):
    return made_pub(key.pair, chain, depth, index, parent, key.network.name)


def impl_make_pub(key, chain, depth, index, parent):
    k = hdpub(key, chain, depth, index, parent)
    if k.to_public_key() != key:
        return 'other key'
    return show_pub(k)


# ---------------------------------------------------------------- serialisation
def head(version, k):
    return version.to_bytes(4, 'big') + k.depth.to_bytes(1, 'big') + k.parent.to_bytes(4, 'big') + k.index.to_bytes(4, 'big') + k.chain


def spec_text_priv(k):
    return encode_base58h(head(XPRV[k.network.name], k) + b'\x00' + k.privkey.secret.to_bytes(32, 'big'))


def impl_text_priv(k):
    return k.to_string()


def spec_text_pub(k):
    return encode_base58h(head(XPUB[k.network.name], k) + sec(k.pubkey))


def impl_text_pub(k):
    return k.to_string()


def spec_inverts_priv(k):
    return show_priv(k)


def impl_inverts_priv(k):
    return show_priv(HDPrivateKey.from_string(k.to_string()))


def spec_inverts_pub(k):
    return show_pub(k)


def impl_inverts_pub(k):
    return show_pub(HDPublicKey.from_string(k.to_string()))


def fields(b):
    n = int.from_bytes
    return (b[13:45], n(b[4:5], 'big'), n(b[9:13], 'big'), n(b[5:9], 'big'))


def zero_pad(payload):
    return len(payload) != 78 or payload[45] == 0


def spec_parse_priv(payload):
    if len(payload) != 78:
        return 'refused'
    for net in ('livenet', 'testnet'):
        if payload[:4] == XPRV[net].to_bytes(4, 'big'):
            s = int.from_bytes(payload[46:], 'big')
            if not 0 < s < N:
                return 'refused'
            return made_priv(s, *(fields(payload) + (net,)))
    return 'refused'


def impl_parse_priv(payload):
    try:
        k = HDPrivateKey.from_string(encode_base58h(payload))
    except (ValueError, PrivateKey.Error, networks.UnknownNetwork):
        return 'refused'
    return show_priv(k)


def spec_parse_pub(payload):
    if len(payload) != 78:
        return 'refused'
    for net in ('livenet', 'testnet'):
        if payload[:4] == XPUB[net].to_bytes(4, 'big'):
            x = int.from_bytes(payload[46:], 'big')
            if payload[45] not in (2, 3) or not has_root(x) or x >= P:
                return 'refused'
            return made_pub((x, root(x, payload[45] == 3)), *(fields(payload) + (net,)))
    return 'refused'


def impl_parse_pub(payload):
    try:
        k = HDPublicKey.from_string(encode_base58h(payload))
    except (ValueError, PublicKey.Error, networks.UnknownNetwork):
        return 'refused'
    return show_pub(k)


def spec_bad(bad):
    return ('refused', 'refused')


def impl_bad(bad):
    out = []
    for c in (HDPrivateKey, HDPublicKey):
        try:
            c.from_string(bad)
            out.append('taken')
        except (ValueError, EncodingError):
            out.append('refused')
    return tuple(out)
