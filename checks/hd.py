from absint.oblig import *
from checks.keys import KEYS, CASES
from checks.script import Named
from checks.signing import priv
from checks.stubs import INTS, INT_LEMMAS, CURVE, ROOT, ROOT_LEMMAS, B58, B58_LEMMAS, BAD
from checks.template import Key, NETS
from checks.tx import U32

M = 'spec_hd'
REST = dict(chain=Bytes(32, 32), depth=Int(0, 254), index=U32, parent=U32)


def hdpriv(net):
    return Named('%s xprv' % net, 'hdpriv', key=priv(net), **REST)


def hdpub(net):
    return Named('%s xpub' % net, 'hdpub', key=Key(True, net), **REST)


PRIVS, PUBS = [hdpriv(n) for n in NETS], [hdpub(n) for n in NETS]
LENS = [Bytes(0, 77), Bytes(78, 78), Bytes(79)]
OBL = {
    'C31': [Obl(M, 'seed', seed=b) for b in (Bytes(0, 31), Bytes(32, 32), Bytes(33, 63), Bytes(64, 64), Bytes(65))] + [Obl(M, 'random_seed')]
    + [Obl(M, 'derive', k=k, index=Int(), hardened=Const(h)) for k in PRIVS for h in (True, False)] + [Obl(M, 'derive_default', k=k, index=Int()) for k in PRIVS]
    + [Obl(M, 'derive_pub', k=k, index=Int(), hardened=Const(h)) for k in PUBS for h in (True, False)]
    + [Obl(M, 'commutes', k=k, index=Int(0, 2 ** 31 - 1), assume='tweakable') for k in PRIVS]
    + [Obl(M, 'to_public', impl=i, note=i[14:], k=k) for k in PRIVS for i in ('impl_to_public', 'impl_to_public_static')]
    + [Obl(M, 'make_priv', key=priv(n), **REST) for n in NETS] + [Obl(M, 'make_pub', key=Key(True, n), **REST) for n in NETS],
    'C32': [Obl(M, f + '_priv', k=k) for k in PRIVS for f in ('text', 'inverts')] + [Obl(M, f + '_pub', k=k) for k in PUBS for f in ('text', 'inverts')]
    + [Obl(M, 'parse_priv', payload=b, assume='zero_pad') for b in LENS] + [Obl(M, 'parse_pub', payload=b) for b in LENS] + [Obl(M, 'bad', bad=BAD)],
}
for _p in OBL:
    for _o in OBL[_p]:
        _o.stubs = dict(INTS, **CURVE, **ROOT, **B58)
OBL['C31'] += INT_LEMMAS
OBL['C32'] += INT_LEMMAS + ROOT_LEMMAS + B58_LEMMAS
