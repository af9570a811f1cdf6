"""Standard script templates: recognition by shape, construction, and what can be read back."""
from bitforge import Address, PublicKey
from bitforge.script import *
from bitforge.encoding import ripemd160, sha256
from spec_script import plain, wires, bare, direct, ins, is_bare

P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f


def root(x, odd):
    """the y of that parity with (x, y) on the curve; uninterpreted"""
    raise NotImplementedError()


def has_root(x):
    """is there a point with this x?  uninterpreted"""
    raise NotImplementedError()


def pubkey(x, odd, compressed, net='livenet'):
    return PublicKey((x, root(x, odd)), net, compressed)


def pair_for_x(x, even):
    if not has_root(x):
        return (x, P)
    return (x, root(x, not even))


def in_field(x):
    return 0 <= x < P and has_root(x)


def on_curve(x, y):
    return (y * y - (x * x * x + 7)) % P == 0


def pk_address(h, net):
    return Address(h, net)


def script_address(h, net):
    return Address(h, net, Address.Type.Script)


def sec(key):
    x, y = key.pair
    if key.compressed:
        return (b'\x03' if y % 2 else b'\x02') + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def push(data):
    n = len(data)
    if n <= 75:
        return (n, data)
    return (76 if n <= 255 else 77 if n <= 65535 else 78, data)


def shape(items):
    return [-1 if i.data is not None else i.opcode.number for i in items]


def small(n):
    return n == 0 or 81 <= n <= 96


def kind(items):
    s = shape(items)
    if s == [-1, -1]:
        return PayToPubkeyIn
    if s == [118, 169, -1, 136, 172]:
        return PayToPubkeyOut
    if len(s) > 2 and s[0] == 0 and all(x == -1 for x in s[1:]):
        return PayToScriptIn
    if s == [169, -1, 135]:
        return PayToScriptOut
    if s == [106, -1]:
        return OpReturnOut
    if len(s) >= 4 and small(s[0]) and s[-1] == 174 and small(s[-2]) and all(x == -1 for x in s[1:-2]):
        return RedeemMultisig
    return Script


def spec_classify(items):
    return (kind(items), tuple((i.opcode.number, i.data) for i in items))


def impl_classify(items):
    s = Script.create(items)
    return (type(s), plain(s))


def spec_p2pk_out(address):
    if address.type is Address.Type.Script:
        raise PayToPubkeyOut.WrongAddressType(address)
    return (PayToPubkeyOut, ((118, None), (169, None), (20, address.phash), (136, None), (172, None)), address.phash, True)


def impl_p2pk_out(address):
    s = PayToPubkeyOut.create(address)
    return (type(s), plain(s), s.get_address_hash(), type(Script.create(s.instructions)) is PayToPubkeyOut)


def spec_p2pk_in(key, signature):
    return (PayToPubkeyIn, (push(signature), push(sec(key))), signature)


def impl_p2pk_in(key, signature):
    s = PayToPubkeyIn.create(key, signature)
    return (type(s), plain(s), s.get_signature())


def spec_p2sh_out(items):
    h = ripemd160(sha256(wires(items)))
    return (PayToScriptOut, ((169, None), (20, h), (135, None)), h, True)


def impl_p2sh_out(items):
    s = PayToScriptOut.create(Script(items))
    return (type(s), plain(s), s.get_script_hash(), type(Script.create(s.instructions)) is PayToScriptOut)


def spec_p2sh_in(items, signatures):
    return (PayToScriptIn, ((0, None),) + tuple(push(x) for x in signatures) + (push(wires(items)),), list(signatures))


def impl_p2sh_in(items, signatures):
    s = PayToScriptIn.create(Script(items), signatures)
    return (type(s), plain(s), s.get_signatures())


def spec_p2sh_in_script(items, signature):
    return (kind(items), tuple((i.opcode.number, i.data) for i in items))


def impl_p2sh_in_script(items, signature):
    r = PayToScriptIn.create(Script(items), [signature]).get_script()
    return (type(r), plain(r))


def spec_op_return(data):
    return (OpReturnOut, ((106, None), push(data)), data, True)


def impl_op_return(data):
    s = OpReturnOut.create(data)
    return (type(s), plain(s), s.get_data(), type(Script.create(s.instructions)) is OpReturnOut)


def spec_multisig(keys, m):
    if not 0 <= m <= 16:
        raise ValueError()
    n = 0 if m == 0 else 80 + m
    return (RedeemMultisig, ((n, None),) + tuple(push(sec(k)) for k in keys) + ((80 + len(keys), None), (174, None)), m)


def impl_multisig(keys, m):
    s = RedeemMultisig.create(keys, m)
    return (type(s), plain(s), s.get_min_signatures())


def spec_p2pk_in_key(key, signature):
    return (key.pair, key.compressed)


def impl_p2pk_in_key(key, signature):
    k = PayToPubkeyIn.create(key, signature).get_public_key()
    return (k.pair, k.compressed)


def spec_multisig_keys(keys, m):
    return [(k.pair, k.compressed) for k in keys]


def impl_multisig_keys(keys, m):
    return [(k.pair, k.compressed) for k in RedeemMultisig.create(keys, m).get_public_keys()]
