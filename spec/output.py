"""Transaction outputs for addresses, scripts, public keys and data."""
from bitforge import Address
from bitforge.encoding import ripemd160, sha256
from bitforge.script import *
from bitforge.transaction import *
from bitforge.transaction.output import DataOutput
from spec_script import plain, wires, bare, direct, ins, is_bare
from spec_template import kind, pubkey, in_field, pk_address, script_address, sec, push
from spec_tx import fits, varint


def show(o):
    return (type(o), o.amount, type(o.script), plain(o.script))


def spec_address_output(amount, address):
    if address.type is Address.Type.Script:
        raise PayToPubkeyOut.WrongAddressType(address)
    return (AddressOutput, amount, PayToPubkeyOut, ((118, None), (169, None), (20, address.phash), (136, None), (172, None)))


def impl_address_output(amount, address):
    return show(AddressOutput.create(amount, address))


def spec_script_output(amount, items):
    return (ScriptOutput, amount, PayToScriptOut, ((169, None), (20, ripemd160(sha256(wires(items)))), (135, None)))


def impl_script_output(amount, items):
    return show(ScriptOutput.create(amount, Script(items)))


def redeem(keys, m):
    b = bytes([0 if m == 0 else 80 + m])
    for k in keys:
        s = sec(k)
        b += bytes([len(s)]) + s
    return b + bytes([80 + len(keys), 174])


def spec_multisig_output(amount, keys, m):
    return (MultisigOutput, amount, PayToScriptOut, ((169, None), (20, ripemd160(sha256(redeem(keys, m)))), (135, None)))


def impl_multisig_output(amount, keys, m):
    return show(MultisigOutput.create(amount, keys, m))


def spec_data_output(data):
    if len(data) > 80:
        raise DataOutput.TooMuchData(len(data))
    return (DataOutput, 0, OpReturnOut, ((106, None), push(data)))


def impl_data_output(data):
    return show(DataOutput.create(data))


def spec_data_output_bytes(data):
    n = len(data)
    s = b'\x6a' + (bytes([n]) if n <= 75 else bytes([76, n])) + data
    return bytes(8) + varint(len(s)) + s


def impl_data_output_bytes(data):
    return DataOutput.create(data).to_bytes()


def spec_output_kind(amount, items):
    k = kind(items)
    return ({PayToPubkeyOut: AddressOutput, PayToScriptOut: ScriptOutput, OpReturnOut: DataOutput}.get(k, Output), amount, k, tuple((i.opcode.number, i.data) for i in items))


def impl_output_kind(amount, items):
    return show(Output.create(amount, Script(items)))


def spec_spends(amount, items):
    h = ripemd160(sha256(wires(items)))
    return (h, amount)


def impl_spends(amount, items):
    o = ScriptOutput.create(amount, Script(items))
    return (Output.from_bytes(o.to_bytes()).script.get_script_hash(), Output.from_bytes(o.to_bytes()).amount)


def spec_pays(amount, address):
    return (address.phash, amount)


def impl_pays(amount, address):
    o = Output.from_bytes(AddressOutput.create(amount, address).to_bytes())
    return (o.script.get_address_hash(), o.amount)
