"""Values: immutable, equal by content, and without a memory of earlier calls."""
from bitforge import Address, HDPrivateKey, HDPublicKey, PrivateKey, PublicKey, URI, Unit, networks
from bitforge.encoding import *
from bitforge.errors import BitforgeError
from bitforge.script import *
from bitforge.script.instruction import Instruction
from bitforge.script.opcode import Opcode
from bitforge.script.interpreter import Interpreter
from bitforge.tools import Buffer
from bitforge.transaction import *
from spec_address import show as show_address
from spec_hd import hdpriv, hdpub
from spec_keys import privkey
from spec_script import plain, bare, direct, ins, is_bare
from spec_signing import address_input, script_input
from spec_template import pubkey, in_field, pk_address, script_address
from spec_tx import inp, out


def net(name):
    return networks.find(name)


def script(items):
    return Script(items)


def scripted(items):
    return Script.create(items)


def tx(inputs, outputs, lock, version):
    return Transaction(inputs, outputs, lock, version)


# ------------------------------------------------------------------ immutability
def fields_of(x, names):
    return tuple([getattr(x, n) for n in names])


def spec_frozen(x, names):
    return (tuple(['refused' for n in names]), fields_of(x, names))


def impl_frozen(x, names):
    got = []
    for n in names:
        try:
            setattr(x, n, None)
        except AttributeError:
            got.append('refused')
        else:
            got.append('set')
    return (tuple(got), fields_of(x, names))


# --------------------------------------------------------------------- snapshots
def spec_script_copies(items, more):
    return (tuple(items), tuple(items))


def impl_script_copies(items, more):
    given, again = list(items), list(items)
    s, t = Script(given), Script.create(again)
    given.append(more)
    again.insert(0, more)
    return (s.instructions, t.instructions)


def spec_tx_copies(inputs, outputs, lock):
    return (tuple(inputs), tuple(outputs), tuple(inputs[::-1]), tuple(outputs))


def impl_tx_copies(inputs, outputs, lock):
    i, o, r = list(inputs), list(outputs), list(inputs[::-1])
    t = Transaction(i, o, lock)
    u = t.replace_inputs(r)
    i.append(inputs[0])
    o.pop()
    r.insert(0, inputs[0])
    return (t.inputs, t.outputs, u.inputs, u.outputs)


def spec_multisig_copies(keys, more):
    return (RedeemMultisig.create(tuple(keys), 1).to_bytes(), MultisigOutput.create(5, tuple(keys), 1).script.to_bytes())


def impl_multisig_copies(keys, more):
    given, again = list(keys), list(keys)
    r, o = RedeemMultisig.create(given, 1), MultisigOutput.create(5, again, 1)
    given.append(more)
    again.pop()
    return (r.to_bytes(), o.script.to_bytes())


# ---------------------------------------------------------------- equal and alike
def spec_alike(x, y, names):
    same = fields_of(x, names) == fields_of(y, names)
    return (same, not same, same)


def impl_alike(x, y, names):
    h = (hash(x), hash(y))
    return (x == y, x != y, h[0] == h[1] if x == y else False)


# ---------------------------------------------------------------- no memory of calls
def flat(u):
    return (show_address(u.address), None if u.amount is None else u.amount.satoshis, u.extras, u.to_uri())


OPS = {
    'wif': lambda k: (k.to_wif(), k.to_hex()),
    'public': lambda k: k.to_public_key(),
    'address': lambda k: k.to_address(),
    'sec': lambda k: (k.to_bytes(), k.to_hex()),
    'text': lambda x: x.to_string(),
    'bytes': lambda x: x.to_bytes(),
    'hex': lambda x: x.to_hex(),
    'id': lambda t: (t.get_id(), t.get_id_bytes()),
    'repr': lambda x: repr(x),
    'varint': lambda n: encode_varint(n),
    'int': lambda n: (encode_int(n), encode_int(n, big_endian = False)),
    'int4': lambda n: (encode_int(n, length = 4), encode_int(n, length = 4, big_endian = False)),
    'number': lambda n: encode_script_number(n),
    'base58': lambda b: encode_base58h(b),
    'unbase58': lambda t: decode_base58h(t),
    'unnumber': lambda b: decode_script_number(b, 5),
    'hashes': lambda b: (sha256(b), ripemd160(b), hash160(b), sha1(b)),
    'opcode': lambda n: (Opcode(n).name, Opcode(n).is_push(), Opcode(n).is_number(), Opcode(n).bytes),
    'named': lambda s: Opcode.from_name(s).number,
    'push': lambda b: (Instruction.push_for(b), Opcode.push_for(len(b))),
    'read': lambda b: Script.from_bytes(b),
    'compile': lambda s: Script.create(s.instructions),
    'network': lambda n: networks.find(n),
    'unread': lambda b: Address.from_bytes(b),
    'unpub': lambda b: PublicKey.from_bytes(b),
    'unpriv': lambda b: PrivateKey.from_bytes(b),
    'p2pk': lambda a: (PayToPubkeyOut.create(a), AddressOutput.create(7, a).script) if a.type == Address.Type.PublicKey else None,
    'p2sh': lambda s: (PayToScriptOut.create(s), Address.from_script(s)),
    'redeem': lambda ks: RedeemMultisig.create(ks, len(ks)),
    'child': lambda k: k.derive(0),
    'unsigned': lambda i: (i.remove_script(), i.to_bytes()),
    'uri': lambda a: flat(URI({'address': a.to_string(), 'label': 'l'})),
    'units': lambda n: (Unit(satoshis = n).btc, Unit(satoshis = n).mbtc),
    'verify': lambda s: Interpreter().verify(Script(), s),
}


def quiet(op, x):
    try:
        op(x)
    except (BitforgeError, ValueError):
        pass


def spec_after(op, x, y):
    return OPS[op](y)


def impl_after(op, x, y):
    quiet(OPS[op], x)
    return OPS[op](y)


def spec_again(op, x):
    r = OPS[op](x)
    return (r, r)


def impl_again(op, x):
    r = OPS[op](x)
    return (r, OPS[op](x))


def spec_mixed(first, op, x):
    return OPS[op](x)


def impl_mixed(first, op, x):
    quiet(OPS[first], x)
    return OPS[op](x)


def spec_sign_after(t, u, k, l, i, j):
    return u.sign([l], j).to_bytes()


def impl_sign_after(t, u, k, l, i, j):
    try:
        t.sign([k], i)
    except BitforgeError:
        pass
    return u.sign([l], j).to_bytes()


def spec_parsed_after(t, u):
    return u.to_bytes()


def impl_parsed_after(t, u):
    a, b = t.to_bytes(), u.to_bytes()
    Transaction.from_bytes(a)
    return Transaction.from_bytes(b).to_bytes()
