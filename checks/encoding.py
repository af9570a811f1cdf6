from absint.oblig import *

M = 'spec_encoding'
BIG = 2 ** 264
OBL = {
    'C02': [Obl(M, 'varint', n=Int())],
    'C03': [Obl(M, 'fixed_be', n=Int(), length=Const(k)) for k in (0, 1, 2, 3, 4, 8, 20, 32, 33)]
    + [Obl(M, 'fixed_le', n=Int(), length=Const(k)) for k in (0, 1, 2, 3, 4, 8, 20, 32, 33)]
    + [Obl(M, 'decode_be', data=Bytes(k, k)) for k in (0, 1, 2, 3, 4, 8, 20, 32, 33)]
    + [Obl(M, 'decode_le', data=Bytes(k, k)) for k in (0, 1, 2, 3, 4, 8, 20, 32, 33)]
    + [Obl(M, 'shortest_be', n=Int(None, BIG)), Obl(M, 'shortest_le', n=Int(None, BIG))],
    'C04': [Obl(M, 'sn_encode', n=Int(-2 ** 71, 2 ** 71)), Obl(M, 'sn_roundtrip', n=Int(-2 ** 71, 2 ** 71))]
    + [Obl(M, 'sn_decode', data=Bytes(k, k), minimal=Const(m), size=Const(s)) for k in range(7) for m in (False, True) for s in (4, 5)]
    + [Obl(M, 'sn_decode', data=Bytes(k), minimal=Const(m), size=Const(k - 1)) for k in (5, 6) for m in (False, True)]
    + [Obl(M, 'sn_default', data=Bytes(k, k)) for k in range(6)],
    'C05': [Obl(M, 'hex', data=Bytes()), Obl(M, 'hex_text', data=Bytes()), Obl(M, 'unhex', string=Text()), Obl(M, 'hashes', data=Bytes())],
}
