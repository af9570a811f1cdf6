from absint.oblig import *

from checks.opcode import NAMES

M = 'spec_script'
BYTE = Int(0, 255)


class Bare(Build):
    """an instruction without data, any opcode number"""

    def __init__(self):
        Build.__init__(self, 'bare', n=Int(0, 255))

    def text(self):
        return 'bare'

    def make(self, eng, name):
        from absint.values import patom, padd, pconst, poly
        n = self.doms['n'].make(eng, name + '.n')
        if not eng.truth(eng.call(eng.spec_fn('is_bare'), [n])):
            raise Infeasible()
        return eng.call(eng.spec_fn('bare'), [n])


class Named(Build):
    def __init__(self, label, fn, **doms):
        Build.__init__(self, fn, **doms)
        self.label = label

    def text(self):
        return self.label


DIRECT = Named('direct', 'direct', data=Bytes(1, 75))
VARS = [Named('pushdata%d' % k, 'ins', n=Const(n), data=Bytes(0, 256 ** k - 1)) for n, k in ((76, 1), (77, 2), (78, 4))]
PUSH = [DIRECT] + VARS
ANY = [Bare()] + PUSH


def lists(k, ANY=ANY):
    if k == 0:
        return [[]]
    return [[a] + r for a in ANY for r in lists(k - 1, ANY)]


def S(items):
    return Seq(items)


NAMED = [Named('OP_0', 'bare', n=Const(0)), Named('OP_DUP', 'bare', n=Const(118))] + PUSH
BAD = [('missing', '5'), ('missing', 'OP_DUP 3'), ('missing', 'OP_PUSHDATA1'), ('missing', 'OP_PUSHDATA2 4'), ('missing', 'OP_DUP OP_PUSHDATA4'),
       ('size', 'OP_PUSHDATA1 x 0x00'), ('size', 'OP_PUSHDATA1 -1 0x00'), ('size', 'OP_PUSHDATA2 0x01 0x00'),
       ('data', '1 OP_DUP'), ('data', '1 00'), ('data', '1 1x00'), ('hex', '1 0xzz'), ('hex', '1 0x0'), ('hex', 'OP_PUSHDATA1 1 0x0g'),
       ('name', 'DUP'), ('name', 'OP_FOO'), ('name', 'OP_DUP OP_'), ('name', '-1'), ('name', '0x05'), ('name', 'op_dup'), ('name', '_UNKNOWN_200')]
SMALL = [x for k in (0, 1, 2) for x in lists(k)]
BIG = lists(3)
OBL = {
    'C15': [Obl(M, 'make', n=BYTE, data=Bytes()), Obl(M, 'make_bare', n=BYTE, assume='is_bare'), Obl(M, 'not_opcode', n=Int()),
            Obl(M, 'push_for', data=Bytes()), Obl(M, 'compile', data=Bytes(1, 2 ** 32 - 1), n=BYTE, m=BYTE, assume='two_bare'),
            Obl(M, 'compile_pair', data=Bytes(1, 2 ** 32 - 1)),
            
            
            ] + [Obl(M, 'minimal', i=d) for d in ANY] + [Obl(M, 'ins_hash', a=d) for d in ANY]
    + [Obl(M, 'ins_eq', a=d, b=e) for d in ANY for e in ANY],
    'C42': [Obl(M, f, items=S(x), data=Bytes(1, 2 ** 32 - 1)) for f in ('append', 'remove') for x in SMALL]
    + [Obl(M, 'remove_own', items=S(x), k=Const(k)) for x in ([DIRECT], [DIRECT, Bare()], [Bare(), DIRECT], [DIRECT, DIRECT], [DIRECT, VARS[0]], [VARS[0], DIRECT], [DIRECT, Bare(), DIRECT]) for k in range(len(x)) if x[k] is DIRECT]
    + [Obl(M, f, items=S(x)) for f in ('push_only', 'structure') for x in SMALL + [y for y in lists(3, [Bare(), DIRECT])]],
    'C16': [Obl(M, 'ins_bytes', i=d) for d in ANY] + [Obl(M, 'bytes', items=S(x)) for x in SMALL] + [Obl(M, 'hash', items=S(x)) for x in SMALL]
    + [Obl(M, 'bytes_inverts', items=S(x)) for x in SMALL]
    + [Obl(M, 'parse', data=Bytes(k, k)) for k in (0, 1, 2, 3)] + [Obl(M, 'parse_bytes', data=Bytes(k, k)) for k in (0, 1, 2, 3)]
    + [Obl(M, 'truncated', i=d, k=Int(1), assume='cuts') for d in PUSH],
    'C17': [Obl(M, 'ins_text', i=d) for d in ANY] + [Obl(M, 'text', items=S(x)) for x in SMALL]
    + [Obl(M, 'text_inverts', items=S(x)) for k in (0, 1, 2) for x in lists(k, NAMED)] + [Obl(M, 'text_names')]
    + [Obl(M, 'read_name', name=Const(n)) for n in NAMES if not n.startswith('OP_PUSHDATA')]
    + [Obl(M, 'read_direct', n=Int(0), data=Bytes(1, None))]
    + [Obl(M, 'read_var', op=Const('OP_PUSHDATA%d' % k), size=Int(0), data=Bytes()) for k in (1, 2, 4)]
    + [Obl(M, 'read_noprefix', n=Int(1, 75), data=Bytes(1)), Obl(M, 'read_var_noprefix', op=Const('OP_PUSHDATA1'), size=Int(0), data=Bytes(1))]
    + [Obl(M, 'read_bad', string=Const(t), error=Const(e)) for e, t in BAD],
}
DEEP = {
    'C16': [Obl(M, 'bytes_inverts', items=S(x), seconds=200) for x in BIG] + [Obl(M, 'bytes', items=S(x)) for x in BIG]
    + [Obl(M, 'parse', data=Bytes(k, k), seconds=200) for k in (4, 5)] + [Obl(M, 'parse_bytes', data=Bytes(k, k), seconds=200) for k in (4, 5)]
}
