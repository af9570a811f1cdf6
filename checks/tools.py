from absint.oblig import *
from checks.stubs import INTS, INT_LEMMAS

M = 'spec_tools'
OBL = {
    'C38': [Obl(M, 'read', data=Bytes(), n=Int(0)), Obl(M, 'read_two', data=Bytes(), n=Int(0), m=Int(0), assume='enough'),
            Obl(M, 'read_short', data=Bytes(), n=Int(0), assume='short'), Obl(M, 'read_varint', data=Bytes()),
            Obl(M, 'varint_inverts', n=Int(0, 2 ** 64 - 1), rest=Bytes(), stubs=INTS), Obl(M, 'write', a=Bytes(), b=Bytes(), c=Bytes()),
            Obl(M, 'write_read', a=Bytes(), b=Bytes())] + INT_LEMMAS,
}
