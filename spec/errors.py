"""The library's errors."""
import bitforge
from bitforge import address, encoding, errors, networks, privkey, pubkey, tools
from bitforge.errors import BitforgeError
from bitforge.script import instruction, opcode, script
from bitforge.transaction import input as txin, output as txout, transaction

ROOTS = {'address': address, 'encoding': encoding, 'errors': errors, 'networks': networks, 'privkey': privkey, 'pubkey': pubkey, 'tools': tools,
         'instruction': instruction, 'opcode': opcode, 'script': script, 'input': txin, 'output': txout, 'transaction': transaction}


def named(path):
    steps = path.split('.')
    o = ROOTS[steps[0]]
    for s in steps[1:]:
        o = getattr(o, s)
    return o


def general(e, kinds):
    return (str(e) == e.message, e.args == (e.message,), e.cause, isinstance(e, BitforgeError), tuple([isinstance(e, named(k)) for k in kinds]))


def fine(kinds):
    return (True, True, None, True, tuple([True for k in kinds]))


def spec_string(path, kinds, x):
    return (fine(kinds), True, len(x))


def impl_string(path, kinds, x):
    e = named(path)(x)
    return (general(e, kinds), repr(x) in str(e), e.length)


def spec_value(path, kinds, x):
    return (fine(kinds), True)


def impl_value(path, kinds, x):
    e = named(path)(x)
    return (general(e, kinds), str(x) in str(e))


def spec_opcode(path, kinds, n):
    return fine(kinds)


def impl_opcode(path, kinds, n):
    return general(named(path)(opcode.Opcode(n)), kinds)


def spec_pair(path, kinds, k, x):
    return (fine(kinds), True, True)


def impl_pair(path, kinds, k, x):
    e = named(path)(k, x)
    return (general(e, kinds), str(k) in str(e), str(x) in str(e))


def spec_three(path, kinds, n, k, x):
    return (fine(kinds), True, True)


def impl_three(path, kinds, n, k, x):
    e = named(path)(opcode.Opcode(n), k, x)
    return (general(e, kinds), str(k) in str(e), str(x) in str(e))


def spec_plain(path, kinds):
    return (fine(kinds), True)


def impl_plain(path, kinds):
    e = named(path)()
    return (general(e, kinds), len(str(e)) > 0)


def spec_cause(path, x, why):
    return (why, True)


def impl_cause(path, x, why):
    e = named(path)(x, cause=why)
    return (e.cause, str(e) == str(named(path)(x)))
