"""Executing scripts: what each opcode does, when a script fails, and what is accepted."""
import hashlib

from bitforge import *
from bitforge.script import *
from bitforge.script.opcode import *
from bitforge.script.interpreter import Interpreter
from bitforge.transaction import Transaction, Input, Output
from bitforge import encoding, script
from spec_encoding import spec_sn_encode, spec_sn_decode
from bitforge.errors import BitforgeError
from bitforge.script.instruction import Instruction
from bitforge.script.opcode import Opcode

STACK = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
UNKNOWN = 'SCRIPT_ERR_UNKNOWN_ERROR'


# ------------------------------------------------------------- the analysed code
def reason(text):
    return UNKNOWN if text.startswith(UNKNOWN) else text


def outcome(i, ok):
    if ok:
        return (True, i.errstr, [bytes(x) for x in i.stack], [bytes(x) for x in i.altstack])
    return (False, reason(i.errstr))


def evaluate(items, stack, alt, flags):
    i = Interpreter()
    i.script = Script(items)
    i.stack = list(stack)
    i.altstack = list(alt)
    i.flags = flags
    i.tx = None
    i.nin = 0
    return outcome(i, i.evaluate())


def bare(n):
    return Instruction(Opcode(n))


def ins(n, data):
    return Instruction(Opcode(n), data)


def good(stack, alt=()):
    return (True, '', [bytes(x) for x in stack], [bytes(x) for x in alt])


# ------------------------------------------------------------- moving stack items
def shape(n, s):
    """the stack after the opcode, given enough items"""
    if n == 109:
        return s[:-2]
    if n == 110:
        return s + s[-2:]
    if n == 111:
        return s + s[-3:]
    if n == 112:
        return s + s[-4:-2]
    if n == 113:
        return s[:-6] + s[-4:] + s[-6:-4]
    if n == 114:
        return s[:-4] + s[-2:] + s[-4:-2]
    if n == 116:
        return s + [spec_sn_encode(len(s))]
    if n == 117:
        return s[:-1]
    if n == 118:
        return s + s[-1:]
    if n == 119:
        return s[:-2] + s[-1:]
    if n == 120:
        return s + s[-2:-1]
    if n == 123:
        return s[:-3] + s[-2:] + s[-3:-2]
    if n == 124:
        return s[:-2] + s[-1:] + s[-2:-1]
    if n == 125:
        return s[:-2] + s[-1:] + s[-2:]
    if n == 130:
        return s + [spec_sn_encode(len(s[-1]))]


NEEDS = {109: 2, 110: 2, 111: 3, 112: 4, 113: 6, 114: 4, 116: 0, 117: 1, 118: 1, 119: 2, 120: 2, 123: 3, 124: 2, 125: 2, 130: 1}


def spec_move(n, stack):
    if len(stack) < NEEDS[n]:
        return (False, STACK)
    return good(shape(n, list(stack)))


def impl_move(n, stack):
    return evaluate([bare(n)], stack, [], 0)


def spec_alt(n, stack, alt):
    if n == 107:
        if len(stack) < 1:
            return (False, STACK)
        return good(stack[:-1], list(alt) + [stack[-1]])
    if len(alt) < 1:
        return (False, 'SCRIPT_ERR_INVALID_ALTSTACK_OPERATION')
    return good(list(stack) + [alt[-1]], alt[:-1])


def impl_alt(n, stack, alt):
    return evaluate([bare(n)], stack, alt, 0)


def spec_pick(n, stack, flags):
    if len(stack) < 2:
        return (False, STACK)
    rest = list(stack[:-1])
    try:
        k = spec_sn_decode(stack[-1], flags & 64 != 0, 4)
    except BitforgeError:
        return (False, UNKNOWN)
    if k < 0 or k >= len(rest):
        return (False, STACK)
    x = rest[len(rest) - 1 - k]
    if n == 122:
        rest = rest[:len(rest) - 1 - k] + rest[len(rest) - k:]
    return good(rest + [x])


def impl_pick(n, stack, flags):
    return evaluate([bare(n)], stack, [], flags)


# ------------------------------------------------------------------- arithmetic
def unary(n, a):
    if n == 139:
        return a + 1
    if n == 140:
        return a - 1
    if n == 143:
        return -a
    if n == 144:
        return a if a >= 0 else -a
    if n == 145:
        return 1 if a == 0 else 0
    if n == 146:
        return 0 if a == 0 else 1


def spec_unary(n, stack, flags):
    if len(stack) < 1:
        return (False, STACK)
    try:
        a = spec_sn_decode(stack[-1], flags & 64 != 0, 4)
    except BitforgeError:
        return (False, UNKNOWN)
    return good(list(stack[:-1]) + [spec_sn_encode(unary(n, a))])


def impl_unary(n, stack, flags):
    return evaluate([bare(n)], stack, [], flags)


def binary(n, a, b):
    if n == 147:
        return a + b
    if n == 148:
        return a - b
    if n == 154:
        return 1 if a != 0 and b != 0 else 0
    if n == 155:
        return 1 if a != 0 or b != 0 else 0
    if n == 156 or n == 157:
        return 1 if a == b else 0
    if n == 158:
        return 1 if a != b else 0
    if n == 159:
        return 1 if a < b else 0
    if n == 160:
        return 1 if a > b else 0
    if n == 161:
        return 1 if a <= b else 0
    if n == 162:
        return 1 if a >= b else 0
    if n == 163:
        return a if a < b else b
    if n == 164:
        return a if a > b else b


def spec_binary(n, stack, flags):
    if len(stack) < 2:
        return (False, STACK)
    try:
        a = spec_sn_decode(stack[-2], flags & 64 != 0, 4)
        b = spec_sn_decode(stack[-1], flags & 64 != 0, 4)
    except BitforgeError:
        return (False, UNKNOWN)
    r = binary(n, a, b)
    if n == 157:
        return good(stack[:-2]) if r == 1 else (False, 'SCRIPT_ERR_NUMEQUALVERIFY')
    return good(list(stack[:-2]) + [spec_sn_encode(r)])


def impl_binary(n, stack, flags):
    return evaluate([bare(n)], stack, [], flags)


def spec_within(stack, flags):
    if len(stack) < 3:
        return (False, STACK)
    try:
        x, lo, hi = [spec_sn_decode(v, flags & 64 != 0, 4) for v in stack[-3:]]
    except BitforgeError:
        return (False, UNKNOWN)
    return good(list(stack[:-3]) + [b'\x01' if lo <= x and x < hi else b''])


def impl_within(stack, flags):
    return evaluate([bare(165)], stack, [], flags)


def spec_equal(n, stack):
    if len(stack) < 2:
        return (False, STACK)
    same = stack[-1] == stack[-2]
    if n == 136:
        return good(stack[:-2]) if same else (False, 'SCRIPT_ERR_EQUALVERIFY')
    return good(list(stack[:-2]) + [b'\x01' if same else b''])


def impl_equal(n, stack):
    return evaluate([bare(n)], stack, [], 0)


def digest(n, x):
    if n == 166:
        return hashlib.new('ripemd160', x).digest()
    if n == 167:
        return hashlib.sha1(x).digest()
    if n == 168:
        return hashlib.sha256(x).digest()
    if n == 169:
        return hashlib.new('ripemd160', hashlib.sha256(x).digest()).digest()
    if n == 170:
        return hashlib.sha256(hashlib.sha256(x).digest()).digest()


def spec_digest(n, stack):
    if len(stack) < 1:
        return (False, STACK)
    return good(list(stack[:-1]) + [digest(n, stack[-1])])


def impl_digest(n, stack):
    return evaluate([bare(n)], stack, [], 0)


# -------------------------------------------------------------- truth of an item
def truth(x):
    if len(x) == 0:
        return False
    if x[0] != 0:
        return not (len(x) == 1 and x[0] == 128)
    for i in range(len(x) - 1):
        if x[i] != 0:
            return True
    return x[-1] != 0 and x[-1] != 128


def plain_truth(x):
    """not one of the values cast_to_bool is known to get wrong"""
    return len(x) == 0 or x[0] != 0 or not truth(x)


def leading_zero(x):
    return not plain_truth(x)


def spec_cast(x):
    return truth(x)


def impl_cast(x):
    return Interpreter.cast_to_bool(x)


def starts(x):
    return x[0] != 0


# ---------------------------------------------------- a reference script machine
DISABLED = (126, 127, 128, 129, 131, 132, 133, 134, 141, 142, 149, 150, 151, 152, 153)
RESERVED = (80, 98, 137, 138)
UNBALANCED = 'SCRIPT_ERR_UNBALANCED_CONDITIONAL'
BAD = 'SCRIPT_ERR_BAD_OPCODE'


def minimal(n, d):
    if len(d) == 0:
        return False
    if len(d) == 1 and (1 <= d[0] <= 16 or d[0] == 129):
        return False
    if len(d) <= 75:
        return n == len(d)
    if len(d) <= 255:
        return n == 76
    return n == 77


def size(ops):
    t = 0
    for n, d in ops:
        t += 1
        if d is not None:
            t += len(d) + (0 if n <= 75 else 1 if n == 76 else 2 if n == 77 else 4)
    return t


def machine(ops, stack, flags):
    """(True, stack) or (False, reason); ops are (number, data) pairs"""
    if size(ops) > 10000:
        return (False, 'SCRIPT_ERR_SCRIPT_SIZE')
    s = list(stack)
    alt = []
    cond = []
    count = 0
    for n, data in ops:
        live = False not in cond
        if data is not None and len(data) > 520:
            return (False, 'SCRIPT_ERR_PUSH_SIZE')
        if n > 96:
            count += 1
            if count > 201:
                return (False, 'SCRIPT_ERR_OP_COUNT')
        if n in DISABLED:
            return (False, 'SCRIPT_ERR_DISABLED_OPCODE')
        if n == 101 or n == 102:
            return (False, BAD)
        if n == 99 or n == 100:
            v = False
            if live:
                if len(s) < 1:
                    return (False, UNBALANCED)
                v = truth(s.pop())
                if n == 100:
                    v = not v
            cond.append(v)
        elif n == 103:
            if len(cond) == 0:
                return (False, UNBALANCED)
            cond[-1] = not cond[-1]
        elif n == 104:
            if len(cond) == 0:
                return (False, UNBALANCED)
            cond.pop()
        elif live:
            if n <= 78:
                if flags & 64 and n > 0 and not minimal(n, data):
                    return (False, 'SCRIPT_ERR_MINIMALDATA')
                s.append(b'' if n == 0 else data)
            elif n == 79:
                s.append(b'\x81')
            elif 81 <= n <= 96:
                s.append(bytes([n - 80]))
            elif n == 97 or n == 171:
                pass
            elif 176 <= n <= 185:
                if flags & 128:
                    return (False, 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS')
            elif n == 105:
                if len(s) < 1:
                    return (False, STACK)
                if not truth(s[-1]):
                    return (False, 'SCRIPT_ERR_VERIFY')
                s.pop()
            elif n == 106:
                return (False, 'SCRIPT_ERR_OP_RETURN')
            elif n == 115:
                if len(s) < 1:
                    return (False, STACK)
                if truth(s[-1]):
                    s.append(s[-1])
            elif n in NEEDS:
                if len(s) < NEEDS[n]:
                    return (False, STACK)
                s = shape(n, s)
            elif n == 107:
                if len(s) < 1:
                    return (False, STACK)
                alt.append(s.pop())
            elif n == 108:
                if len(alt) < 1:
                    return (False, 'SCRIPT_ERR_INVALID_ALTSTACK_OPERATION')
                s.append(alt.pop())
            elif n == 135 or n == 136:
                if len(s) < 2:
                    return (False, STACK)
                same = s[-1] == s[-2]
                s = s[:-2]
                if n == 135:
                    s.append(b'\x01' if same else b'')
                elif not same:
                    return (False, 'SCRIPT_ERR_EQUALVERIFY')
            elif 166 <= n <= 170:
                if len(s) < 1:
                    return (False, STACK)
                s.append(digest(n, s.pop()))
            else:
                return (False, BAD)
        if len(s) + len(alt) > 1000:
            return (False, 'SCRIPT_ERR_STACK_SIZE')
    if len(cond) > 0:
        return (False, UNBALANCED)
    return (True, s, alt)


def build(ops):
    return [bare(n) if d is None else ins(n, d) for n, d in ops]


def spec_run(ops, stack, flags):
    r = machine(ops, stack, flags)
    return good(r[1], r[2]) if r[0] else r


def impl_run(ops, stack, flags):
    return evaluate(build(ops), stack, [], flags)


def plain_top(ops, stack, flags):
    return len(stack) == 0 or plain_truth(stack[-1])


def spec_op(n, stack, flags):
    return spec_run([(n, None)], stack, flags)


def impl_op(n, stack, flags):
    return evaluate([bare(n)], stack, [], flags)


def plain_one(n, stack, flags):
    return len(stack) == 0 or plain_truth(stack[-1])


def spec_skipped(n, stack):
    return spec_run([(0, None), (99, None), (n, None), (104, None)], stack, 0)


def impl_skipped(n, stack):
    return evaluate([bare(0), bare(99), bare(n), bare(104)], stack, [], 0)


def spec_push(n, data, stack, flags):
    return spec_run([(n, data)], stack, flags)


def impl_push(n, data, stack, flags):
    return evaluate([ins(n, data)], stack, [], flags)


def fits_op(n, data, stack, flags):
    return 1 <= n <= 75 and len(data) == n


def spec_push_skipped(n, data, flags):
    return spec_run([(0, None), (99, None), (n, data), (104, None)], [], flags)


def impl_push_skipped(n, data, flags):
    return evaluate([bare(0), bare(99), ins(n, data), bare(104)], [], [], flags)


# ------------------------------------------------------------------------ limits
def many(n, k, m):
    """k times the opcode n, then m times OP_NOP"""
    return [(n, None)] * k + [(97, None)] * m


def spec_count(n, k, m):
    return spec_run(many(n, k, m), [], 0)


def impl_count(n, k, m):
    return evaluate(build(many(n, k, m)), [], [], 0)


def unexecuted(k):
    return [(0, None), (99, None)] + [(97, None)] * k + [(104, None)]


def spec_count_skipped(k):
    return spec_run(unexecuted(k), [], 0)


def impl_count_skipped(k):
    return evaluate(build(unexecuted(k)), [], [], 0)


def big(k, n):
    """k pushes of 520 bytes and one of n"""
    return [(77, bytes(520))] * k + [(n, bytes(n))]


def spec_bytes_limit(k, n):
    return spec_run(big(k, n), [], 0)[:2]


def impl_bytes_limit(k, n):
    return evaluate(build(big(k, n)), [], [], 0)[:2]


def spec_full(n, k, j):
    return (k + 1 + j <= 1000, '' if k + 1 + j <= 1000 else 'SCRIPT_ERR_STACK_SIZE')


def impl_full(n, k, j):
    return evaluate([bare(n)], [b'x'] * k, [b'y'] * j, 0)[:2]


# --------------------------------------------------------------------- lock time
def spec_cltv(stack, flags, lock, seq):
    if not flags & 512:
        if flags & 128:
            return (False, 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS')
        return good(stack)
    if len(stack) < 1:
        return (False, STACK)
    try:
        n = spec_sn_decode(stack[-1], flags & 64 != 0, 5)
    except BitforgeError:
        return (False, UNKNOWN)
    if n < 0:
        return (False, 'SCRIPT_ERR_NEGATIVE_LOCKTIME')
    if (n < 500000000) != (lock < 500000000) or n > lock or seq == 0xffffffff:
        return (False, 'SCRIPT_ERR_UNSATISFIED_LOCKTIME')
    return good(stack)


def impl_cltv(stack, flags, lock, seq):
    i = Interpreter()
    i.script = Script([bare(177)])
    i.stack = list(stack)
    i.flags = flags
    i.tx = Transaction([Input('00' * 32, 0, Script(), 5), Input('00' * 32, 1, Script(), seq)], [Output(0, Script())], lock)
    i.nin = 1
    return outcome(i, i.evaluate())


# ------------------------------------------------------- spending: both scripts
def pushes(ops):
    return all([n <= 96 for n, d in ops])


def top_error(s, empty, false):
    if len(s) == 0:
        return (False, empty)
    return (True, '') if truth(s[-1]) else (False, false)


def is_p2sh(ops):
    return len(ops) == 3 and ops[0][0] == 169 and ops[1][0] == 20 and ops[2][0] == 135


def accept(sig, pub, flags, redeem):
    if flags & 32 and not pushes(sig):
        return (False, 'SCRIPT_ERR_SIG_PUSHONLY')
    a = machine(sig, [], flags)
    if not a[0]:
        return a
    b = machine(pub, a[1], flags)
    if not b[0]:
        return b
    r = top_error(b[1], 'SCRIPT_ERR_EVAL_FALSE_NO_RESULT', 'SCRIPT_ERR_EVAL_FALSE_IN_STACK')
    if not r[0] or not flags & 1 or not is_p2sh(pub):
        return r
    if not pushes(sig):
        return (False, 'SCRIPT_ERR_SIG_PUSHONLY')
    if redeem is None:
        return (False, BAD)
    c = machine(redeem, a[1][:-1], flags)
    if not c[0]:
        return c
    return top_error(c[1], 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK', 'SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK')


def spec_verify(sig, pub, flags):
    return accept(sig, pub, flags, None)


def impl_verify(sig, pub, flags):
    i = Interpreter()
    r = i.verify(Script(build(sig)), Script(build(pub)), None, 0, flags)
    return (r, reason(i.errstr))


def impl_verify_again(sig, pub, flags):
    """the same interpreter, after other scripts left things behind"""
    i = Interpreter()
    i.verify(Script([bare(81), bare(99), bare(81), bare(81), bare(107)]), Script([bare(106)]), None, 0, 511)
    r = i.verify(Script(build(sig)), Script(build(pub)), None, 0, flags)
    return (r, reason(i.errstr))


def p2sh(h):
    return [(169, None), (20, h), (135, None)]


def read(b):
    """the instructions of a script given as bytes, None when they end inside a push"""
    out = []
    i = 0
    while i < len(b):
        n = b[i]
        i += 1
        if 1 <= n <= 78:
            k = n
            if n > 75:
                w = 1 if n == 76 else 2 if n == 77 else 4
                if i + w > len(b):
                    return None
                k = int.from_bytes(b[i:i + w], 'little')
                i += w
            if i + k > len(b):
                return None
            out.append((n, b[i:i + k]))
            i += k
        else:
            out.append((n, None))
    return out


def push_of(b):
    return (0, None) if len(b) == 0 else (len(b), b)


def spec_p2sh(sig, redeem, h, flags):
    return accept(list(sig) + [push_of(redeem)], p2sh(h), flags, read(redeem))


def impl_p2sh(sig, redeem, h, flags):
    return impl_verify(list(sig) + [push_of(redeem)], p2sh(h), flags)


def spec_p2sh_own(sig, redeem, flags):
    return accept(list(sig) + [push_of(redeem)], p2sh(digest(169, redeem)), flags, read(redeem))


def impl_p2sh_own(sig, redeem, flags):
    return impl_verify(list(sig) + [push_of(redeem)], p2sh(digest(169, redeem)), flags)


def spec_p2sh_raw(sig, h, flags):
    """the last item is not a push of the redeem script but computed"""
    return accept(sig, p2sh(h), flags, None)


def impl_p2sh_raw(sig, h, flags):
    return impl_verify(sig, p2sh(h), flags)


def spec_spend(a, b, pub, flags):
    return accept([push_of(a), push_of(b)], pub, flags, None)


def impl_spend(a, b, pub, flags):
    return impl_verify([push_of(a), push_of(b)], pub, flags)


def plain_ab(a, b, pub, flags):
    return plain_truth(a) and plain_truth(b)


def spec_hash_lock(x, h, flags):
    return accept([push_of(x)], [(168, None), (32, h), (135, None)], flags, None)


def impl_hash_lock(x, h, flags):
    return impl_verify([push_of(x)], [(168, None), (32, h), (135, None)], flags)


def spec_defaults(x):
    r = accept([push_of(x)], [(97, None)], 0, None)
    return (r, r)


def impl_defaults(x):
    i = Interpreter()
    a = i.verify(Script(build([push_of(x)])), Script([bare(97)]))
    b = i.errstr
    return ((a, b), impl_verify([push_of(x)], [(97, None)], 0))


def plain_x(x):
    return plain_truth(x)


def spec_flag_values():
    return (0, 1, 2, 4, 8, 16, 32, 64, 128, 512, 520, 500000000)


def impl_flag_values():
    I = Interpreter
    return (I.SCRIPT_VERIFY_NONE, I.SCRIPT_VERIFY_P2SH, I.SCRIPT_VERIFY_STRICTENC, I.SCRIPT_VERIFY_DERSIG, I.SCRIPT_VERIFY_LOW_S, I.SCRIPT_VERIFY_NULLDUMMY, I.SCRIPT_VERIFY_SIGPUSHONLY,
            I.SCRIPT_VERIFY_MINIMALDATA, I.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS, I.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY, I.MAX_SCRIPT_ELEMENT_SIZE, I.LOCKTIME_THRESHOLD)


# ------------------------------------------------------------------- signatures
def spec_multisig(n, stack, flags):
    """for no signatures; with signatures only what fails before looking at them"""
    s = list(stack)
    if len(s) < 1:
        return (False, STACK)
    try:
        k = spec_sn_decode(s[-1], flags & 64 != 0, 4)
        if k < 0 or k > 20:
            return (False, 'SCRIPT_ERR_PUBKEY_COUNT')
        if len(s) < k + 2:
            return (False, STACK)
        m = spec_sn_decode(s[len(s) - k - 2], flags & 64 != 0, 4)
    except BitforgeError:
        return (False, UNKNOWN)
    if m < 0 or m > k:
        return (False, 'SCRIPT_ERR_SIG_COUNT')
    if len(s) < m + k + 3:
        return (False, STACK)
    if m > 0:
        return 'looks at the signatures'
    if flags & 16 and len(s[len(s) - k - 3]) != 0:
        return (False, 'SCRIPT_ERR_SIG_NULLDUMMY')
    s = s[:len(s) - k - 3]
    return good(s if n == 175 else s + [b'\x01'])


def impl_multisig(n, stack, flags):
    r = evaluate([bare(n)], stack, [], flags)
    return r


def no_signatures(n, stack, flags):
    return spec_multisig(n, stack, flags) != 'looks at the signatures'


def spec_checksig_short(n, stack):
    return (False, STACK)


def impl_checksig_short(n, stack):
    return evaluate([bare(n)], stack, [], 0)


def spec_refusal_explained(n, stack):
    return (False, True)


def impl_refusal_explained(n, stack):
    r = evaluate([bare(n)], stack, [], 0)
    return (r[0], r[1] != '')


def multi_count(k, extra):
    """NOPs, then CHECKMULTISIG of no signatures with k keys"""
    keys = (1, bytes([k])) if k > 16 else (80 + k if k else 0, None)
    return [(97, None)] * extra + [(0, None), (0, None)] + [(81, None)] * k + [keys, (174, None)]


def spec_multi_count(k, extra):
    return (True, '') if extra + 1 + k <= 201 else (False, 'SCRIPT_ERR_OP_COUNT')


def impl_multi_count(k, extra):
    return evaluate(build(multi_count(k, extra)), [], [], 0)[:2]


# ------------------------------------- lock time: the input named, in each script
def phases(phase, n):
    lock = [(n, None), (177, None)]
    if phase == 'sig':
        return lock, [(81, None)]
    if phase == 'pub':
        return [(81, None)], lock
    redeem = bytes([n, 177])
    return [(2, redeem)], p2sh(digest(169, redeem))


def spec_lock_phase(phase, nin, lock, seqs):
    if lock < 5 or lock >= 500000000 or seqs[nin] == 0xffffffff:
        return (False, 'SCRIPT_ERR_UNSATISFIED_LOCKTIME')
    return (True, '')


def impl_lock_phase(phase, nin, lock, seqs):
    sig, pub = phases(phase, 85)
    tx = Transaction([Input('00' * 32, k, Script(), s) for k, s in enumerate(seqs)], [Output(0, Script())], lock)
    i = Interpreter()
    r = i.verify(Script(build(sig)), Script(build(pub)), tx, nin, 513)
    return (r, reason(i.errstr))


def spec_lock_none(phase):
    return (False, 'SCRIPT_ERR_UNSATISFIED_LOCKTIME')


def impl_lock_none(phase):
    sig, pub = phases(phase, 85)
    i = Interpreter()
    r = i.verify(Script(build(sig)), Script(build(pub)), flags = 513)
    return (r, reason(i.errstr))


# ------------------------------- limits hold for each script, not for all of them
def each(n, k):
    return [(97, None)] * k + [(n, None)]


def spec_count_each(a, b, again):
    return [(True, '') if max(a, b) <= 201 else (False, 'SCRIPT_ERR_OP_COUNT')] * again


def impl_count_each(a, b, again):
    i = Interpreter()
    out = []
    for _ in range(again):
        r = i.verify(Script(build(each(81, a))), Script(build(each(82, b))), None, 0, 0)
        out.append((r, reason(i.errstr)))
    return out


def long_script(n):
    """a script of n bytes that leaves one item"""
    return [(77, b'a' * 517), (117, None)] * (n // 521) + [(97, None)] * (n % 521 - 1) + [(81, None)]


def spec_size_each(a, b):
    return (True, '') if max(a, b) <= 10000 else (False, 'SCRIPT_ERR_SCRIPT_SIZE')


def impl_size_each(a, b):
    i = Interpreter()
    r = i.verify(Script(build(long_script(a))), Script(build(long_script(b))), None, 0, 0)
    return (r, reason(i.errstr))


def spec_lock_missing(phase, nin, lock):
    return False


def impl_lock_missing(phase, nin, lock):
    """an input that is not there"""
    sig, pub = phases(phase, 85)
    tx = Transaction([Input('00' * 32, 0, Script(), 0)], [Output(0, Script())], lock)
    return Interpreter().verify(Script(build(sig)), Script(build(pub)), tx, nin, 513)


def plain_start(n, stack, flags):
    return starts(stack[-1])


def start_top(ops, stack, flags):
    return starts(stack[-1])
