"""Signing a transaction input, and which keys can."""
from bitforge import PrivateKey, Address
from bitforge.encoding import sha256, ripemd160
from bitforge.script import *
from bitforge.transaction import *
from spec_script import plain, wires, bare, direct, ins, is_bare
from spec_template import pubkey, in_field, pk_address, script_address, sec, push
from spec_tx import inp, out, varint, fits, in_bytes, out_bytes, in_plain, tx_bytes


# ------------------------------------------------------------------- builders
def privkey(secret, net, compressed):
    return PrivateKey(secret, net, compressed)


def address_input(prev, index, address, seq):
    return AddressInput.create(prev[::-1].hex(), index, address, seq)


def script_input(prev, index, items, seq):
    return ScriptInput.create(prev[::-1].hex(), index, Script(items), seq)


def multisig_input(prev, index, keys, m, seq):
    return MultisigInput.create(prev[::-1].hex(), index, keys, m, seq)


# -------------------------------------------------------------------- signing
def digest(inputs, outputs, lock, version, index, hashtype):
    b = fits(version, 4) + varint(len(inputs))
    for j in range(len(inputs)):
        i = inputs[j]
        s = wires(i.script.instructions) if j == index else b''
        b += bytes.fromhex(i.tx_id)[::-1] + fits(i.txo_index, 4) + varint(len(s)) + s + fits(i.seq_number, 4)
    b += varint(len(outputs))
    for o in outputs:
        b += out_bytes(o)
    return sha256(sha256(b + fits(lock, 4) + fits(hashtype, 4)))


def signed_items(i, keys, d):
    if type(i) is AddressInput:
        if len(keys) != 1:
            raise Input.InvalidSignatureCount(1, len(keys))
        return (push(keys[0].sign(d) + b'\x01'), push(sec(keys[0].to_public_key())))
    if isinstance(i, ScriptInput):
        return ((0, None),) + tuple(push(k.sign(d) + b'\x01') for k in keys) + (push(wires(i.script.instructions)),)
    raise Input.UnknownSignatureMethod()


def spec_sign(inputs, outputs, lock, version, keys, index):
    if not 0 <= index < len(inputs):
        raise Transaction.InvalidInputIndex(index)
    d = digest(inputs, outputs, lock, version, index, 1)
    new = []
    for j in range(len(inputs)):
        i = inputs[j]
        new.append((i.tx_id, i.txo_index, signed_items(i, keys, d) if j == index else plain(i.script), i.seq_number))
    return (tuple(new), tuple((o.amount, plain(o.script)) for o in outputs), lock, version)


def impl_sign(inputs, outputs, lock, version, keys, index):
    t = Transaction(inputs, outputs, lock, version).sign(keys, index)
    return (tuple(in_plain(i) for i in t.inputs), tuple((o.amount, plain(o.script)) for o in t.outputs), t.lock_time, t.version)


def spec_keeps_others(inputs, outputs, keys, index):
    return tuple(inputs[j] for j in range(len(inputs)) if j != index) + tuple(outputs)


def impl_keeps_others(inputs, outputs, keys, index):
    t = Transaction(inputs, outputs)
    s = t.sign(keys, index)
    return tuple(s.inputs[j] for j in range(len(s.inputs)) if j != index) + s.outputs


def spec_keeps_types(inputs, outputs, keys, index):
    return (tuple(type(inputs[j]) for j in range(len(inputs)) if j != index), tuple(inputs))


def impl_keeps_types(inputs, outputs, keys, index):
    t = Transaction(inputs, outputs)
    s = t.sign(keys, index)
    return (tuple(type(s.inputs[j]) for j in range(len(s.inputs)) if j != index), t.inputs)


def spec_sign_in_turn(a, b, outputs, k, l):
    i, j = a, b
    d = digest((a, b), outputs, 0, 1, 0, 1)
    e = digest((a, b), outputs, 0, 1, 1, 1)
    return ((i.tx_id, i.txo_index, signed_items(i, [k], d), i.seq_number), (j.tx_id, j.txo_index, signed_items(j, [l], e), j.seq_number))


def impl_sign_in_turn(a, b, outputs, k, l):
    t = Transaction([a, b], outputs).sign([k], 0).sign([l], 1)
    return tuple(in_plain(i) for i in t.inputs)


# ----------------------------------------------------------------------- inputs
def spec_address_input(prev, index, address, seq):
    if address.type is Address.Type.Script:
        raise PayToPubkeyOut.WrongAddressType(address)
    return (AddressInput, prev[::-1].hex(), index, ((118, None), (169, None), (20, address.phash), (136, None), (172, None)), seq)


def impl_address_input(prev, index, address, seq):
    i = AddressInput.create(prev[::-1].hex(), index, address, seq)
    return (type(i),) + in_plain(i)


def spec_script_input(prev, index, items, seq):
    return (ScriptInput, prev[::-1].hex(), index, tuple((i.opcode.number, i.data) for i in items), seq)


def impl_script_input(prev, index, items, seq):
    i = ScriptInput.create(prev[::-1].hex(), index, Script(items), seq)
    return (type(i),) + in_plain(i)


def spec_multisig_input(prev, index, keys, m, seq):
    n = 0 if m == 0 else 80 + m
    return (MultisigInput, prev[::-1].hex(), index, ((n, None),) + tuple(push(sec(k)) for k in keys) + ((80 + len(keys), None), (174, None)), seq)


def impl_multisig_input(prev, index, keys, m, seq):
    i = MultisigInput.create(prev[::-1].hex(), index, keys, m, seq)
    return (type(i),) + in_plain(i)


def spec_input_kind(prev, index, items, seq):
    s = Script.create(items)
    k = AddressInput if type(s) is PayToPubkeyIn else ScriptInput if type(s) is PayToScriptIn else Input
    return (k, prev[::-1].hex(), index, plain(s), seq, type(s))


def impl_input_kind(prev, index, items, seq):
    i = Input.create(prev[::-1].hex(), index, Script(items), seq)
    return (type(i),) + in_plain(i) + (type(i.script),)


def spec_replace_script(i, items):
    return ((i.tx_id, i.txo_index, tuple((x.opcode.number, x.data) for x in items), i.seq_number), (i.tx_id, i.txo_index, (), i.seq_number), in_plain(i))


def impl_replace_script(i, items):
    a, b = i.replace_script(Script(items)), i.remove_script()
    return (in_plain(a), in_plain(b), in_plain(i))


def spec_can_sign(i, keys):
    if len(keys) != 1:
        return False
    return ripemd160(sha256(sec(keys[0].to_public_key()))) == i.script.instructions[2].data


def impl_can_sign(i, keys):
    return i.can_sign(keys)


def own_address(key, net):
    return Address(ripemd160(sha256(sec(key.to_public_key()))), net)


def spec_can_sign_own(key, net):
    return True


def impl_can_sign_own(key, net):
    return AddressInput.create('00' * 32, 0, own_address(key, net)).can_sign([key])


def spec_multisig_can_sign(i, keys, m, privs):
    if len(privs) != m:
        return False
    want = [sec(k) for k in keys]
    have = [sec(k.to_public_key()) for k in privs]
    for a in range(len(have)):
        if not any(have[a] == w for w in want):
            return False
        if any(have[a] == have[b] for b in range(a)):
            return False
    return True


def impl_multisig_can_sign(i, keys, m, privs):
    return MultisigInput.create('00' * 32, i, keys, m).can_sign(privs)


def spec_signed_id(inputs, outputs, keys, index):
    t = Transaction(inputs, outputs).sign(keys, index)
    ids = [sha256(sha256(tx_bytes(x.inputs, outputs, 0, 1)))[::-1].hex() for x in (Transaction(inputs, outputs), t)]
    return ids + [ids[0]]


def impl_signed_id(inputs, outputs, keys, index):
    t = Transaction(inputs, outputs)
    a = t.get_id()
    s = t.sign(keys, index)
    return [a, s.get_id(), t.get_id()]
