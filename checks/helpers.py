from absint.oblig import *
from checks.stubs import B58, B58_LEMMAS, BAD

M = 'spec_helpers'
COORD = Int(0, 2 ** 256 - 1)
BYTE1 = [Const(b) for b in (b'\x80', b'\xef', b'\x00')]
WIFS = [Bytes(0, 32), Bytes(33, 33), Bytes(34, 34), Bytes(35)]
ADDRS = [Bytes(0, 20), Bytes(21, 21), Bytes(22)]
NETS = [Const(b'\x00'), Const(b'\x6f')]

OBL = {
    'C41': [Obl(M, 'wif', secret=COORD, compressed=Const(c), prefix=p) for c in (True, False) for p in BYTE1] + [Obl(M, 'wif_default', secret=COORD)]
    + [Obl(M, f, data=d) for f in ('wif_parse', 'wif_live', 'text_valid') for d in WIFS]
    + [Obl(M, f, data=d, prefix=p) for f in ('wif_read', 'wif_valid') for d in WIFS for p in BYTE1]
    + [Obl(M, 'bad', wrong=BAD)] + [Obl(M, 'bad_read', impl=i, note=i[9:], wrong=BAD) for i in ('impl_bad_wif', 'impl_bad_address')]
    + [Obl(M, 'pair', x=COORD, y=COORD, compressed=Const(c), prefix=p) for c in (True, False) for p in NETS] + [Obl(M, 'pair_default', x=COORD, y=COORD)]
    + [Obl(M, f, data=d) for f in ('address', 'address_live', 'address_valid_live') for d in ADDRS]
    + [Obl(M, f, data=d, prefix=p) for f in ('address_net', 'address_valid') for d in ADDRS for p in NETS],
}
for _o in OBL['C41']:
    _o.stubs = B58
OBL['C41'] += B58_LEMMAS
