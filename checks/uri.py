from absint.oblig import *
from checks.address import ADDRS
from checks.stubs import INTS, CURVE, ROOT, B58, B58_LEMMAS, BAD

M = 'spec_uri'
KEYS = [(), ('label',), ('message',), ('r',), ('x',), ('label', 'message'), ('r', 'label', 'req-y'), ('b', 'a', 'message')]


def params(ks):
    return dict(ks=Const(list(ks)), vs=Seq([Text() for k in ks]))


AMOUNTS = [('1', 10 ** 8), ('0', 0), ('0.1', 10 ** 7), ('0.00000001', 1), ('0.29', 29 * 10 ** 6), ('123.22', 12322 * 10 ** 6), ('20999999.9769', 2099999997690000), ('21000000', 21 * 10 ** 14), ('1.5', 15 * 10 ** 7), ('.5', 5 * 10 ** 7),
           ('20.3', 2030000000), ('0.00000007', 7), ('1e-8', 1), ('50.00000000', 5 * 10 ** 9), ('0.57', 57000000), ('1.1', 110000000)]
WRITE = [None, 1, 7, 10, 100, 12345, 29 * 10 ** 6, 10 ** 7, 10 ** 8, 15 * 10 ** 7, 10 ** 9, 10 ** 10, 12322 * 10 ** 6, 123456789, 2099999997690000, 21 * 10 ** 14]
A0 = ADDRS[0]
OBL = {'C36': [Obl(M, 'read', a=a, lead=Const(l), **params(k)) for k in KEYS for a in (ADDRS if not k else ADDRS[:1]) for l in ('bitcoin:', 'bitcoin://')]
       + [Obl(M, 'amount', impl=i, note=i[11:], a=A0, text=Const(t), satoshis=Const(n), label=Text()) for t, n in AMOUNTS for i in ('impl_amount', 'impl_amount_last')]
       + [Obl(M, 'bad_amount', a=A0, text=Const(t)) for t in ('bad', 'nan', 'inf', '-inf', '1,5', '1.2.3', '0x10', '1 BTC', '1e400')]
       + [Obl(M, f, a=a, **params(k)) for k in KEYS for a in ADDRS for f in ('is_valid', 'params')] + [Obl(M, 'bad_address', bad=BAD)]
       + [Obl(M, 'bad_uri', text=Const(t)) for t in ('', 'bitcoin:', 'bitcoin:badUri', 'bitcoin:1DP69gMMvSuYhbnxsi4EJEFufUAbDrEQfk', 'bitcoin:?label=x', 'bitcoin:1DP69gMMvSuYhbnxsi4EJEFufUAbDrEQf0', 'bitcoin:[', 'bitcoin://[', 'bitcoin:é')]
       + [Obl(M, f, a=a, satoshis=Const(n), **params(k)) for f in ('from_dict', 'write', 'round', 'write_twice') for a, k, n in [(A0, k, None) for k in KEYS] + [(a, (), None) for a in ADDRS] + [(A0, ('label', 'z'), n) for n in WRITE]]
       + [Obl(M, 'write', impl='impl_write_repr', note='repr', a=A0, satoshis=Const(n), **params(('label',))) for n in (None, 12345)]
       + [Obl(M, 'missing', **params(k)) for k in KEYS] + [Obl(M, 'not_a_uri', x=Const(x)) for x in (None, 5, b'bitcoin:x', [], ('a',))]}
for _o in OBL['C36']:
    _o.stubs = dict(INTS, **CURVE, **ROOT, **B58)
OBL['C36'] += B58_LEMMAS
