"""Transactions: wire layout, parsing, identifier."""
from bitforge.encoding import sha256, encode_varint, InvalidInteger
from bitforge.errors import BitforgeError
from bitforge.script import *
from bitforge.tools import Buffer
from bitforge.transaction import *
from spec_script import plain, wires, bare, direct, ins, is_bare
from spec_template import kind, pubkey, in_field, pk_address, script_address, sec, push


def varint(n):
    if n < 253:
        return n.to_bytes(1, 'little')
    if n < 2 ** 16:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n < 2 ** 32:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


# ------------------------------------------------------------------- builders
def inp(prev, index, items, seq):
    return Input(prev[::-1].hex(), index, Script(items), seq)


def out(amount, items):
    return Output(amount, Script(items))


# ------------------------------------------------------------- specified bytes
def fits(n, k):
    if not 0 <= n < 256 ** k:
        raise InvalidInteger(n)
    return n.to_bytes(k, 'little')


def in_bytes(i):
    s = wires(i.script.instructions)
    return bytes.fromhex(i.tx_id)[::-1] + fits(i.txo_index, 4) + varint(len(s)) + s + fits(i.seq_number, 4)


def out_bytes(o):
    s = wires(o.script.instructions)
    return fits(o.amount, 8) + varint(len(s)) + s


def tx_bytes(inputs, outputs, lock, version):
    b = fits(version, 4) + varint(len(inputs))
    for i in inputs:
        b += in_bytes(i)
    b += varint(len(outputs))
    for o in outputs:
        b += out_bytes(o)
    return b + fits(lock, 4)


def spec_input_bytes(i):
    b = in_bytes(i)
    return (b, b.hex())


def impl_input_bytes(i):
    return (i.to_bytes(), i.to_hex())


def spec_output_bytes(o):
    b = out_bytes(o)
    return (b, b.hex())


def impl_output_bytes(o):
    return (o.to_bytes(), o.to_hex())


def lock_ok(lock):
    if not 0 <= lock <= 0xffffffff:
        raise Transaction.InvalidLockTime(lock)


def spec_tx_bytes(inputs, outputs, lock, version):
    lock_ok(lock)
    b = tx_bytes(inputs, outputs, lock, version)
    return (b, b.hex())


def impl_tx_bytes(inputs, outputs, lock, version):
    t = Transaction(inputs, outputs, lock, version)
    return (t.to_bytes(), t.to_hex())


def spec_tx_id(inputs, outputs, lock, version):
    lock_ok(lock)
    h = sha256(sha256(tx_bytes(inputs, outputs, lock, version)))
    return (h, h[::-1].hex())


def impl_tx_id(inputs, outputs, lock, version):
    t = Transaction(inputs, outputs, lock, version)
    return (t.get_id_bytes(), t.get_id())


def spec_tx_id_repeat(inputs, outputs, lock, version):
    return sha256(sha256(tx_bytes(list(inputs) * 2, outputs, lock, version)))[::-1].hex()


def impl_tx_id_repeat(inputs, outputs, lock, version):
    t = Transaction(inputs, outputs, lock, version)
    t.get_id()
    return t.replace_inputs(list(inputs) * 2).get_id()


def spec_make(inputs, outputs, lock, version):
    if len(inputs) == 0:
        raise Transaction.NoInputs()
    if len(outputs) == 0:
        raise Transaction.NoOutputs()
    lock_ok(lock)
    return (tuple(inputs), tuple(outputs), lock, version)


def impl_make(inputs, outputs, lock, version):
    t = Transaction(inputs, outputs, lock, version)
    return (t.inputs, t.outputs, t.lock_time, t.version)


def spec_not_input(x, i, o):
    raise Transaction.NotAnInput(x)


def impl_not_input(x, i, o):
    return Transaction([i, x], [o])


def spec_not_output(x, i, o):
    raise Transaction.NotAnOutput(x)


def impl_not_output(x, i, o):
    return Transaction([i], [o, x])


def spec_defaults(i, o):
    return (0, 1, 0xffffffff)


def impl_defaults(i, o):
    t = Transaction([i], [o])
    return (t.lock_time, t.version, Input(i.tx_id, i.txo_index, i.script).seq_number)


# --------------------------------------------------------------------- parsing
def in_plain(i):
    return (i.tx_id, i.txo_index, plain(i.script), i.seq_number)


def out_plain(o):
    return (type(o), o.amount, type(o.script), plain(o.script))


def out_kind(items):
    k = kind(items)
    if k is PayToPubkeyOut:
        return AddressOutput
    if k is PayToScriptOut:
        return ScriptOutput
    if k is OpReturnOut:
        return DataOutput
    return Output


def out_spec(o):
    s = o.script.instructions
    return (out_kind(s), o.amount, kind(s), plain(o.script))


def spec_input_inverts(i, rest):
    return (in_plain(i), kind(i.script.instructions), rest)


def impl_input_inverts(i, rest):
    b = Buffer(in_bytes(i) + rest)
    j = Input.from_buffer(b)
    return (in_plain(j), type(j.script), bytes(b))


def spec_output_inverts(o, rest):
    return (out_spec(o), rest)


def impl_output_inverts(o, rest):
    b = Buffer(out_bytes(o) + rest)
    p = Output.from_buffer(b)
    return (out_plain(p), bytes(b))


def spec_io_texts(i, o):
    return (in_plain(i), in_plain(i), out_spec(o), out_spec(o))


def impl_io_texts(i, o):
    return (in_plain(Input.from_bytes(in_bytes(i))), in_plain(Input.from_hex(in_bytes(i).hex())),
            out_plain(Output.from_bytes(out_bytes(o))), out_plain(Output.from_hex(out_bytes(o).hex())))


def spec_tx_inverts(inputs, outputs, lock, version):
    return (tuple(in_plain(i) for i in inputs), tuple(out_spec(o) for o in outputs), lock, version)


def impl_tx_inverts(inputs, outputs, lock, version):
    t = Transaction.from_bytes(tx_bytes(inputs, outputs, lock, version))
    return (tuple(in_plain(i) for i in t.inputs), tuple(out_plain(o) for o in t.outputs), t.lock_time, t.version)


def impl_tx_inverts_hex(inputs, outputs, lock, version):
    t = Transaction.from_hex(tx_bytes(inputs, outputs, lock, version).hex())
    return (tuple(in_plain(i) for i in t.inputs), tuple(out_plain(o) for o in t.outputs), t.lock_time, t.version)


def spec_tx_cut(inputs, outputs, lock, version, k):
    return 'refused'


def impl_tx_cut(inputs, outputs, lock, version, k):
    b = tx_bytes(inputs, outputs, lock, version)
    try:
        return Transaction.from_bytes(b[:len(b) - k])
    except BitforgeError:
        return 'refused'


def cuts(inputs, outputs, lock, version, k):
    return k <= len(tx_bytes(inputs, outputs, lock, version))


def spec_in_cut(i, k):
    return 'refused'


def impl_in_cut(i, k):
    b = in_bytes(i)
    try:
        return Input.from_bytes(b[:len(b) - k])
    except BitforgeError:
        return 'refused'


def in_cuts(i, k):
    return k <= len(in_bytes(i))


def spec_out_cut(o, k):
    return 'refused'


def impl_out_cut(o, k):
    b = out_bytes(o)
    try:
        return Output.from_bytes(b[:len(b) - k])
    except BitforgeError:
        return 'refused'


def out_cuts(o, k):
    return k <= len(out_bytes(o))


def spec_empty_lists(version, lock):
    return 'refused'


def impl_empty_lists(version, lock):
    try:
        return Transaction.from_bytes(version.to_bytes(4, 'little') + b'\0\0' + lock.to_bytes(4, 'little'))
    except BitforgeError:
        return 'refused'


def spec_many_bytes(i, o, n, m):
    return tx_bytes([i] * n, [o] * m, 0, 1)


def impl_many_bytes(i, o, n, m):
    return Transaction([i] * n, [o] * m).to_bytes()


def spec_many_inverts(i, o, n, m):
    return (n, m, in_plain(i), out_spec(o), 7)


def impl_many_inverts(i, o, n, m):
    t = Transaction.from_bytes(tx_bytes([i] * n, [o] * m, 7, 1))
    return (len(t.inputs), len(t.outputs), in_plain(t.inputs[-1]), out_plain(t.outputs[-1]), t.lock_time)


# ids of transactions that were read, or whose script was replaced
def impl_tx_id_parsed(inputs, outputs, lock, version):
    t = Transaction.from_bytes(Transaction(inputs, outputs, lock, version).to_bytes())
    return (t.get_id_bytes(), t.get_id())


def impl_tx_id_hex(inputs, outputs, lock, version):
    t = Transaction.from_hex(Transaction(inputs, outputs, lock, version).to_hex())
    return (t.get_id_bytes(), t.get_id())


def spec_tx_id_replaced(inputs, outputs, lock, version):
    new = [Input(i.tx_id, i.txo_index, Script(), i.seq_number) for i in inputs]
    return [sha256(sha256(tx_bytes(x, outputs, lock, version)))[::-1].hex() for x in (inputs, new, inputs)]


def impl_tx_id_replaced(inputs, outputs, lock, version):
    t = Transaction(inputs, outputs, lock, version)
    a = t.get_id()
    b = t.replace_inputs([i.remove_script() for i in inputs]).get_id()
    return [a, b, t.get_id()]
