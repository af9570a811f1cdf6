"""Addresses and networks."""
from bitforge import Address, networks
from bitforge.encoding import sha256, ripemd160, encode_base58h
from bitforge.script import Script
from spec_script import plain, wires, bare, direct, ins, is_bare
from spec_template import pubkey, in_field, pk_address, script_address, sec
from spec_keys import privkey

PKH = {'livenet': 0, 'testnet': 111}
SH = {'livenet': 5, 'testnet': 196}


def show(a):
    return (type(a), a.phash, a.network.name, a.type)


def version(a):
    return SH[a.network.name] if a.type is Address.Type.Script else PKH[a.network.name]


def spec_make(phash, net, script):
    if len(phash) != 20:
        raise Address.InvalidHashLength(phash)
    return (Address, phash, net, Address.Type.Script if script else Address.Type.PublicKey)


def impl_make(phash, net, script):
    return show(Address(phash, net, Address.Type.Script if script else Address.Type.PublicKey))


def spec_make_default(phash):
    return (Address, phash, 'livenet', Address.Type.PublicKey)


def impl_make_default(phash):
    return show(Address(phash))


def spec_bad_net(phash, net):
    raise Address.UnknownNetwork('name', net)


def impl_bad_net(phash, net):
    return Address(phash, net)


def spec_bad_type(phash, kind):
    raise Address.InvalidType(kind)


def impl_bad_type(phash, kind):
    return Address(phash, 'livenet', kind)


def spec_forms(a):
    b = bytes([version(a)]) + a.phash
    return (b, b.hex(), encode_base58h(b))


def impl_forms(a):
    return (a.to_bytes(), a.to_hex(), a.to_string())


def spec_inverts(a):
    return (show(a),) * 3


def impl_inverts(a):
    return (show(Address.from_bytes(a.to_bytes())), show(Address.from_hex(a.to_hex())), show(Address.from_string(a.to_string())))


def spec_parse(data):
    if len(data) != 21:
        raise Address.InvalidBinaryLength(data)
    for net in ('livenet', 'testnet'):
        if data[0] == PKH[net]:
            return (Address, data[1:], net, Address.Type.PublicKey)
        if data[0] == SH[net]:
            return (Address, data[1:], net, Address.Type.Script)
    raise Address.InvalidVersion(data[0])


def impl_parse(data):
    return show(Address.from_bytes(data))


def impl_parse_hex(data):
    return show(Address.from_hex(data.hex()))


def impl_parse_text(data):
    return show(Address.from_string(encode_base58h(data)))


def spec_bad_text(bad):
    raise Address.InvalidBase58h(bad)


def impl_bad_text(bad):
    return Address.from_string(bad)


def spec_bad_hex(text):
    raise Address.InvalidHex(text)


def impl_bad_hex(text):
    return Address.from_hex(text)


def spec_of_pubkey(key):
    return (Address, ripemd160(sha256(sec(key))), key.network.name, Address.Type.PublicKey)


def impl_of_pubkey(key):
    return show(key.to_address())


def impl_of_pubkey_static(key):
    return show(Address.from_public_key(key))


def spec_of_private(key):
    k = key.to_public_key()
    return (Address, ripemd160(sha256(sec(k))), key.network.name, Address.Type.PublicKey)


def impl_of_private(key):
    return show(key.to_address())


def spec_of_script(items, net):
    return (Address, ripemd160(sha256(wires(items))), net, Address.Type.Script)


def impl_of_script(items, net):
    return show(Address.from_script(Script(items), net))


def spec_of_script_default(items):
    return spec_of_script(items, 'livenet')


def impl_of_script_default(items):
    return show(Address.from_script(Script(items)))


def spec_eq(a, b):
    return (a.phash == b.phash and version(a) == version(b), True)


def impl_eq(a, b):
    return (a == b, (a != b) is not (a == b))


def spec_distinct(a, b):
    return a.phash == b.phash and version(a) == version(b)


def impl_distinct(a, b):
    return a.to_bytes() == b.to_bytes()


# --------------------------------------------------------------------- networks
TABLE = {
    'livenet': (0, 128, 5, 0x0488b21e, 0x0488ade4, 0xf9beb4d9, 8333),
    'testnet': (111, 239, 196, 0x043587cf, 0x04358394, 0x0b110907, 18333),
}
FIELDS = ('pubkeyhash', 'wif_prefix', 'scripthash', 'hd_public_key', 'hd_private_key', 'magic', 'port')


def spec_table(name):
    return (name,) + TABLE[name] + (True, True)


def impl_table(name):
    n = networks.find(name)
    return (n.name, n.pubkeyhash, n.wif_prefix, n.scripthash, n.hd_public_key, n.hd_private_key, n.magic, n.port, n is getattr(networks, name), networks.find(n) is n)


def spec_find(value, field):
    for name in ('livenet', 'testnet'):
        if TABLE[name][field] == value:
            return name
    raise networks.UnknownNetwork(FIELDS[field], value)


def impl_find(value, field):
    return networks.find(value, FIELDS[field]).name


def spec_find_quiet(value, field):
    for name in ('livenet', 'testnet'):
        if TABLE[name][field] == value:
            return name
    return None


def impl_find_quiet(value, field):
    n = networks.find(value, FIELDS[field], raises=False)
    return None if n is None else n.name


def spec_unknown(name):
    raise networks.UnknownNetwork('name', name)


def impl_unknown(name):
    return networks.find(name)


def spec_no_field(value, attr):
    raise networks.UnknownNetwork(attr, value)


def impl_no_field(value, attr):
    return networks.find(value, attr)


def spec_default():
    return ('livenet', None)


def impl_default():
    return (networks.default.name, networks.find('nonesuch', raises=False))


def spec_find_text(value, field):
    return ('refused', None)


def impl_find_text(value, field):
    try:
        return networks.find(value, FIELDS[field])
    except networks.UnknownNetwork:
        return ('refused', networks.find(value, FIELDS[field], raises=False))


def custom(a, b, c):
    return networks.Network(name='regtest', pubkeyhash=a, wif_prefix=b, scripthash=c, hd_public_key=0x043587cf, hd_private_key=0x04358394, magic=0xfabfb5da, port=18444, seeds=())


def spec_custom(a, b, c):
    return (True, True, True, True)


def impl_custom(a, b, c):
    n = custom(a, b, c)
    return (networks.find(n) is n, networks.find(n, 'magic') is n, networks.find(n, raises=False) is n, networks.find('regtest', raises=False) is None)
