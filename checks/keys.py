from absint.oblig import *
from checks.script import Named, Bare, DIRECT
from checks.stubs import INTS, INT_LEMMAS, CURVE, ROOT, ROOT_LEMMAS, B58, B58_LEMMAS, BAD
from checks.template import Key, addr, NETS
from checks.signing import priv, ORDER

M = 'spec_keys'
CASES = [(n, c) for n in NETS for c in (True, False)]
SPLIT = [Bytes(0, 31), Bytes(32, 32), Bytes(33)]
KEYS = [priv(n, c) for n, c in CASES]


def netc(n, c):
    return dict(net=Const(n), compressed=Const(c))


OBL = {
    'C24': [Obl(M, 'make', secret=Int(), **netc(n, c)) for n, c in CASES]
    + [Obl(M, 'make_default', secret=Int()), Obl(M, 'unknown_net', secret=Int(), net=Const('mainnet')), Obl(M, 'unknown_net', secret=Int(), net=Const(None))]
    + [Obl(M, 'random', **netc(n, c)) for n, c in CASES]
    + [Obl(M, 'from_bytes', data=b, **netc(n, c)) for n, c in CASES for b in SPLIT]
    + [Obl(M, 'from_bytes', impl='impl_from_bytes_hex', data=b, note='hex', **netc(n, c)) for n, c in CASES for b in SPLIT]
    + [Obl(M, 'defaults', data=Bytes(32, 32)), Obl(M, 'defaults', impl='impl_defaults_hex', data=Bytes(32, 32), note='hex')]
    + [Obl(M, 'bad_hex', text=Const(t)) for t in ('0', 'zz', '0x00', 'é', '11 1')],
    'C25': [Obl(M, f, key=k) for k in KEYS for f in ('bytes', 'wif', 'wif_inverts')]
    + [Obl(M, 'bytes_inverts', key=KEYS[0], **netc(n, c)) for n, c in CASES]
    + [Obl(M, 'from_wif', payload=Bytes()), Obl(M, 'bad_wif', bad=BAD)]
    + [Obl(M, 'eq', a=a, b=b) for a in KEYS for b in KEYS],
}
for _p in OBL:
    for _o in OBL[_p]:
        _o.stubs = dict(INTS, **CURVE, **ROOT, **B58)
OBL['C24'] += INT_LEMMAS
OBL['C25'] += INT_LEMMAS + B58_LEMMAS
