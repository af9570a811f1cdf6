from absint.oblig import *
from checks.script import Named, Bare, DIRECT, VARS, PUSH, ANY, lists
from checks.stubs import INTS, INT_LEMMAS, ROOT, ROOT_LEMMAS
from checks.template import Key, addr, NETS
from checks.tx import U64, SCRIPTS, P2PKH, P2SH, DATA

M = 'spec_output'
TWO = [Bare(), DIRECT]
OBL = {
    'C12': [Obl(M, 'address_output', amount=Int(), address=addr(n, s)) for n in NETS for s in (False, True)]
    + [Obl(M, 'script_output', amount=Int(), items=Seq(x)) for x in SCRIPTS]
    + [Obl(M, 'multisig_output', amount=Int(), keys=Seq(ks), m=Int(0, 16)) for ks in ([Key(True)], [Key(False)], [Key(False), Key(True)], [Key(True)] * 3)]
    + [Obl(M, 'data_output', data=Bytes(1)), Obl(M, 'data_output_bytes', data=Bytes(1, 80))]
    + [Obl(M, 'output_kind', amount=Int(), items=Seq(x)) for k in (0, 1, 2, 3) for x in lists(k, TWO)]
    + [Obl(M, 'output_kind', amount=Int(), items=Seq(x)) for x in (P2PKH, P2SH, DATA, P2PKH + P2SH, P2PKH[:4])]
    + [Obl(M, 'spends', amount=U64, items=Seq(x)) for x in ([], [DIRECT], [Bare()], [Bare(), DIRECT])]
    + [Obl(M, 'pays', amount=U64, address=addr(n)) for n in NETS],
}
for _o in OBL['C12']:
    _o.stubs = dict(INTS, **ROOT)
OBL['C12'] += INT_LEMMAS + ROOT_LEMMAS
