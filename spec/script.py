"""Instructions and scripts: construction, bytes, text, standard forms."""
from bitforge.encoding import InvalidHex
from bitforge.tools import Buffer
from bitforge.script.opcode import Opcode
from bitforge.script.instruction import Instruction
from bitforge.script import Script
from spec_opcode import NAMES, TABLE, spec_push, spec_name


def op(n):
    return Opcode(n)


def ins(n, data):
    return Instruction(Opcode(n), data)


def direct(data):
    return Instruction(Opcode(len(data)), data)


def bare(n):
    return Instruction(Opcode(n))


def is_bare(n):
    return not 1 <= n <= 78


def maxlen(n):
    return 255 if n == 76 else 65535 if n == 77 else 4294967295


def plain(script):
    """observable content of a script"""
    return [(i.opcode.number, i.data) for i in script.instructions]


def pairs(items):
    return [(i.opcode.number, i.data) for i in items]


# ---- building instructions
def spec_make(n, data):
    if 1 <= n <= 75:
        if len(data) != n:
            raise Instruction.InvalidDataLength(Opcode(n), len(data), n)
    elif 76 <= n <= 78:
        if len(data) > maxlen(n):
            raise Instruction.InvalidDataLength(Opcode(n), len(data), maxlen(n))
    else:
        raise Instruction.UnexpectedData(Opcode(n))
    return n, data


def impl_make(n, data):
    i = Instruction(Opcode(n), data)
    return i.opcode.number, i.data


def spec_make_bare(n):
    return n, None


def impl_make_bare(n):
    i = Instruction(Opcode(n))
    return i.opcode.number, i.data


def spec_not_opcode(n):
    raise Instruction.TypeError(n)


def impl_not_opcode(n):
    return Instruction(n)


def spec_push_for(data):
    return spec_push(len(data)), data


def impl_push_for(data):
    i = Instruction.push_for(data)
    return i.opcode.number, i.data


def spec_compile(data, n, m):
    return [(spec_push(len(data)), data), (n, None), (m, None)]


def impl_compile(data, n, m):
    return plain(Script.compile([data, n, Opcode(m)]))


def spec_compile_pair(data):
    n = spec_push(len(data))
    return [(n, data), (n, data)]


def impl_compile_pair(data):
    n = Opcode.push_for(len(data))
    return plain(Script.compile([(n, data), (n.number, data)]))


def two_bare(data, n, m):
    return is_bare(n) and is_bare(m)


def spec_ins_eq(a, b):
    same = a.opcode.number == b.opcode.number and a.data == b.data
    return same, not same, False


def impl_ins_eq(a, b):
    return a == b, a != b, a == 5


def spec_ins_hash(a):
    return True, True


def impl_ins_hash(a):
    b = Instruction(a.opcode, a.data)
    return hash(a) == hash(b), b in {a: 1}


def spec_minimal(i):
    n = i.opcode.number
    d = i.data
    if d is None:
        return True
    if len(d) == 0:
        return False
    if len(d) == 1 and (1 <= d[0] <= 16 or d[0] == 0x81):
        return False
    if len(d) <= 75:
        return n == len(d)
    if len(d) <= 255:
        return n == 76
    if len(d) <= 65535:
        return n == 77
    return True


def impl_minimal(i):
    return i.is_minimal_push()


# ---- bytes
def wire(n, data):
    first = n.to_bytes(1, 'little')
    if 1 <= n <= 75:
        return first + data
    if n == 76:
        return first + len(data).to_bytes(1, 'little') + data
    if n == 77:
        return first + len(data).to_bytes(2, 'little') + data
    if n == 78:
        return first + len(data).to_bytes(4, 'little') + data
    return first


def wires(items):
    out = b''
    for i in items:
        out = out + wire(i.opcode.number, i.data)
    return out


def spec_ins_bytes(i):
    return wire(i.opcode.number, i.data), wire(i.opcode.number, i.data).hex()


def impl_ins_bytes(i):
    return i.to_bytes(), i.to_hex()


def spec_bytes(items):
    return wires(items), wires(items).hex()


def impl_bytes(items):
    return Script(items).to_bytes(), Script(items).to_hex()


def spec_hash(items):
    import hashlib
    return hashlib.new('ripemd160', hashlib.sha256(wires(items)).digest()).digest()


def impl_hash(items):
    return Script(items).to_hash()


def spec_bytes_inverts(items):
    return pairs(items)


def impl_bytes_inverts(items):
    return plain(Script.from_bytes(Script(items).to_bytes()))


def spec_parse(data):
    out = []
    i = 0
    while i < len(data):
        n = data[i]
        i = i + 1
        if 1 <= n <= 75:
            size = n
        elif 76 <= n <= 78:
            k = 1 if n == 76 else 2 if n == 77 else 4
            if len(data) - i < k:
                raise Buffer.InsufficientData(len(data) - i, k)
            size = int.from_bytes(data[i:i + k], 'little')
            i = i + k
        else:
            out.append((n, None))
            continue
        if len(data) - i < size:
            raise Buffer.InsufficientData(len(data) - i, size)
        out.append((n, data[i:i + size]))
        i = i + size
    return out


def impl_parse(data):
    return plain(Script.from_bytes(data))


def spec_parse_bytes(data):
    spec_parse(data)
    return data


def impl_parse_bytes(data):
    return Script.from_bytes(data).to_bytes()


def spec_truncated(i, k):
    raise Buffer.InsufficientData(0, 0)


def impl_truncated(i, k):
    w = i.to_bytes()
    return Script.from_bytes(w[:len(w) - k])


def cuts(i, k):
    return k < len(wire(i.opcode.number, i.data))


# ---- text
def text(n, data):
    if 1 <= n <= 75:
        return '%d 0x%s' % (n, data.hex())
    if 76 <= n <= 78:
        return '%s %d 0x%s' % (NAMES[n], len(data), data.hex())
    return spec_name(n)


def spec_text(items):
    return ' '.join([text(i.opcode.number, i.data) for i in items])


def impl_text(items):
    return Script(items).to_string()


def spec_ins_text(i):
    return text(i.opcode.number, i.data)


def impl_ins_text(i):
    return i.to_string()


def spec_text_inverts(items):
    return pairs(items)


def impl_text_inverts(items):
    return plain(Script.from_string(Script(items).to_string()))


def spec_text_names():
    return [[(n, None)] for n in NAMES if not 76 <= n <= 78]


def impl_text_names():
    return [plain(Script.from_string(Script([Instruction(Opcode(n))]).to_string())) for n in NAMES if not 76 <= n <= 78]


def spec_read_name(name):
    return [(TABLE[name], None)]


def impl_read_name(name):
    return plain(Script.from_string(name))


def spec_read_direct(n, data):
    if not 1 <= n <= 75:
        raise Opcode.InvalidConstPushLength(n)
    if len(data) != n:
        raise Instruction.InvalidDataLength(Opcode(n), len(data), n)
    return [(n, data)]


def impl_read_direct(n, data):
    return plain(Script.from_string('%d 0x%s' % (n, data.hex())))


def spec_read_var(op, size, data):
    n = TABLE[op]
    if size != len(data):
        raise Script.InvalidPushDataLength(len(data))
    if len(data) > maxlen(n):
        raise Instruction.InvalidDataLength(Opcode(n), len(data), maxlen(n))
    return [(n, data)]


def impl_read_var(op, size, data):
    return plain(Script.from_string('%s %d 0x%s' % (op, size, data.hex())))


def spec_read_noprefix(n, data):
    raise Script.InvalidPushData(data.hex())


def impl_read_noprefix(n, data):
    return Script.from_string('%d %s' % (n, data.hex()))


def spec_read_var_noprefix(op, size, data):
    raise Script.InvalidPushData(data.hex())


def impl_read_var_noprefix(op, size, data):
    return Script.from_string('%s %d %s' % (op, size, data.hex()))


def spec_read_bad(string, error):
    if error == 'missing':
        raise Script.MissingPushArguments(string)
    if error == 'size':
        raise Script.InvalidPushSize(string)
    if error == 'data':
        raise Script.InvalidPushData(string)
    if error == 'hex':
        raise InvalidHex(string)
    raise Script.UnknownOpcodeName(string)


def impl_read_bad(string, error):
    return Script.from_string(string)


def flat(s):
    return tuple((i.opcode.number, i.data) for i in s.instructions)


def spec_append(items, data):
    return (tuple((i.opcode.number, i.data) for i in items) + ((spec_push(len(data)), data),), tuple((i.opcode.number, i.data) for i in items))


def impl_append(items, data):
    s = Script(items)
    t = s.push_data(data)
    return (flat(t), flat(s))


def spec_remove(items, data):
    p = (spec_push(len(data)), data)
    all = tuple((i.opcode.number, i.data) for i in items)
    return (tuple(x for x in all if x != p), all)


def impl_remove(items, data):
    s = Script(items)
    t = s.remove_opcode_by_data(data)
    return (flat(t), flat(s))


def spec_remove_own(items, k):
    d = items[k].data
    return tuple((i.opcode.number, i.data) for i in items if not (i.data == d and i.opcode.number == spec_push(len(d))))


def impl_remove_own(items, k):
    return flat(Script(items).remove_opcode_by_data(items[k].data))


def spec_push_only(items):
    for i in items:
        if i.opcode.number > 96:
            return False
    return True


def impl_push_only(items):
    return Script(items).is_push_only()


def spec_structure(items):
    return tuple('PUSH' if i.data is not None else i.opcode.number for i in items)


def impl_structure(items):
    return tuple(x if x == 'PUSH' else x.number for x in Script(items).get_structure())
