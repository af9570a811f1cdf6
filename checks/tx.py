from absint.oblig import *

from checks.script import Named, Bare, DIRECT, VARS, PUSH, ANY, lists
from checks.stubs import INTS, INT_LEMMAS
from checks.template import Key, addr, NETS, SIG

M = 'spec_tx'
U32 = Int(0, 2 ** 32 - 1)
U64 = Int(0, 2 ** 64 - 1)


def script_text(x):
    return '[%s]' % ', '.join(d.text() for d in x)


def inp(items, index=U32, seq=U32):
    return Named('in' + script_text(items), 'inp', prev=Bytes(32, 32), index=index, items=Seq(items), seq=seq)


def out(items, amount=U64):
    return Named('out' + script_text(items), 'out', amount=amount, items=Seq(items))


B, D = Bare(), DIRECT
OPS = {n: Named(n, 'bare', n=Const(v)) for n, v in (('DUP', 118), ('HASH160', 169), ('EQUALVERIFY', 136), ('CHECKSIG', 172), ('EQUAL', 135), ('RETURN', 106))}
P2PKH = [OPS['DUP'], OPS['HASH160'], D, OPS['EQUALVERIFY'], OPS['CHECKSIG']]
P2SH = [OPS['HASH160'], D, OPS['EQUAL']]
DATA = [OPS['RETURN'], D]
SCRIPTS = [[], [B], [D], [VARS[0]], [VARS[1]], [VARS[2]], [B, D], [D, B], [D, D], [B, VARS[1]], P2PKH, P2SH, DATA]
FEW = [[], [D], [B]]


def txs(ins, outs, lock=U32, version=U32):
    return dict(inputs=Seq([inp(x) for x in ins]), outputs=Seq([out(x) for x in outs]), lock=lock, version=version)


SHAPES = [([[]], [[]]), ([[D]], [P2PKH]), ([[D], [B]], [[D]]), ([[]], [[D], P2SH]), ([[D, D], []], [[B], DATA]), ([[B], [], [D]], [[], [], []])]
OBL = {
    'C06': [Obl(M, 'input_bytes', i=inp(s)) for s in SCRIPTS] + [Obl(M, 'input_bytes', i=inp([D], index=Int(), seq=Int()), note='any numbers')]
    + [Obl(M, 'output_bytes', o=out(s)) for s in SCRIPTS] + [Obl(M, 'output_bytes', o=out([D], amount=Int()), note='any amount')]
    + [Obl(M, 'tx_bytes', **txs(a, b)) for a, b in SHAPES] + [Obl(M, 'tx_bytes', note='any numbers', **txs([[D]], [[D]], Int(), Int()))]
    + [Obl(M, 'many_bytes', i=inp([]), o=out([B]), n=Const(n), m=Const(m)) for n, m in ((252, 1), (253, 1), (1, 252), (1, 253))]
    + [Obl(M, 'make', **txs(a, b, Int(), Int())) for a, b in SHAPES + [([], [[]]), ([[]], []), ([], [])]]
    + [Obl(M, f, x=x, i=inp([]), o=out([])) for f in ('not_input', 'not_output') for x in (Const(None), Int(), Bytes())]
    + [Obl(M, 'not_input', x=out([]), i=inp([]), o=out([])), Obl(M, 'not_output', x=inp([]), i=inp([]), o=out([])), Obl(M, 'defaults', i=inp([]), o=out([]))],
    'C07': [Obl(M, 'input_inverts', i=inp(s), rest=Bytes()) for s in SCRIPTS] + [Obl(M, 'output_inverts', o=out(s), rest=Bytes()) for s in SCRIPTS]
    + [Obl(M, 'io_texts', i=inp(s), o=out(s)) for s in FEW]
    + [Obl(M, 'tx_inverts', **txs(a, b)) for a, b in SHAPES]
    + [Obl(M, 'tx_inverts', impl='impl_tx_inverts_hex', note='hex', **txs(a, b)) for a, b in SHAPES[:3]]
    + [Obl(M, 'many_inverts', i=inp([]), o=out([]), n=Const(n), m=Const(m)) for n, m in ((252, 1), (253, 1), (1, 252), (1, 253))]
    + [Obl(M, 'tx_cut', **txs(a, b), k=Int(1), assume='cuts') for a, b in SHAPES[:2]]
    + [Obl(M, 'in_cut', i=inp(s), k=Int(1), assume='in_cuts') for s in FEW] + [Obl(M, 'out_cut', o=out(s), k=Int(1), assume='out_cuts') for s in FEW]
    + [Obl(M, 'empty_lists', version=U32, lock=U32)],
    'C10': [Obl(M, 'tx_id', **txs(a, b)) for a, b in SHAPES] + [Obl(M, 'tx_id', note='any numbers', **txs([[D]], [[D]], Int(), Int()))]
    + [Obl(M, 'tx_id', impl='impl_tx_id_' + i, note=i, **txs(a, b)) for a, b in SHAPES for i in ('parsed', 'hex')] + [Obl(M, 'tx_id_replaced', **txs(a, b)) for a, b in SHAPES]
    + [Obl(M, 'tx_id_repeat', **txs([[D]], [P2PKH]))],
}
for _p in OBL:
    for _o in OBL[_p]:
        _o.stubs = INTS
    OBL[_p] = INT_LEMMAS + OBL[_p]
