from absint.oblig import *

M = 'spec_der'
OBL = {
    'C34': [Obl(M, 'valid_r', s=Bytes(), r=Const(r), assume='of_r') for r in range(72)] + [Obl(M, 'valid', s=Bytes(0, 8)), Obl(M, 'valid', s=Bytes(4), assume='long_r'), Obl(M, 'flags')],
}
