from absint.oblig import *
from absint import curve
from checks.keys import KEYS, CASES, netc
from checks.script import Named, Bare, DIRECT, VARS, lists
from checks.signing import priv
from checks.stubs import INTS, INT_LEMMAS, CURVE, ROOT, ROOT_LEMMAS, B58, B58_LEMMAS, BAD
from checks.template import Key, addr, NETS

class Coord(Int):
    """any integer; members are sought among the coordinates of curve points"""

    def __init__(self, i):
        Int.__init__(self)
        self.i = i

    def samplers(self, name):
        def s(env, a):
            r = env.rnd.random()
            if r < .4:
                return env.pick_int(a)
            p = curve.table()[5 if r < .9 else env.rnd.randrange(len(curve.table()))][self.i]
            return p + curve.P * env.rnd.choice((0, 0, 1, -1, 2))
        return {('sym', name): s}


X, Y = Coord(0), Coord(1)
M, A = 'spec_pub', 'spec_address'
PUBS = [Key(c, n) for n, c in CASES]
ADDRS = [addr(n, s) for n in NETS for s in (False, True)]
TEXTS = [Const(t) for t in ('0', 'zz', '0x00', 'é', '11 1')]
LENS = [Bytes(0, 32), Bytes(33, 33), Bytes(34, 64), Bytes(65, 65), Bytes(66)]
SCRIPTS = [x for k in (0, 1, 2) for x in lists(k, [Bare(), DIRECT, VARS[0]])]

OBL = {
    'C26': [Obl(M, 'sign', key=k, digest=Bytes(32, 32)) for k in KEYS] + [Obl(M, 'verify', key=k, signature=Bytes(), digest=Bytes(32, 32)) for k in KEYS],
    'C27': [Obl(M, 'make', impl=i, note=i[10:], x=X, y=Y, **netc(n, c)) for n, c in CASES for i in ('impl_make', 'impl_make_list')]
    + [Obl(M, 'make_default', x=X, y=Y)] + [Obl(M, 'unknown_net', key=PUBS[0], net=Const(x)) for x in ('mainnet', None, '')]
    + [Obl(M, 'of_private', impl=i, note=i[16:], key=k) for k in KEYS for i in ('impl_of_private', 'impl_of_private_static')] + [Obl(M, 'parameters')],
    'C28': [Obl(M, 'bytes', key=k) for k in PUBS] + [Obl(M, 'inverts', key=k, net=Const(n)) for k in PUBS for n in NETS]
    + [Obl(M, 'parse', impl=i, note=i[10:], data=b, net=Const(n)) for n in NETS for b in LENS for i in ('impl_parse', 'impl_parse_hex')]
    + [Obl(M, 'bad_hex', text=t) for t in TEXTS]
    + [Obl(M, 'prefixed', key=PUBS[1], prefix=Const(p), form=Const(f)) for f in ('xy', 'x') for p in (0, 1, 2, 3, 4, 5, 6, 7, 8, 128, 130, 255)]
    + [Obl(M, 'prefixed', key=PUBS[1], prefix=Const(p), form=Const(f)) for f in ('xy0', 'x0', 'short', '0x') for p in (2, 3, 4)],
    'C29': [Obl(A, 'make', phash=b, net=Const(n), script=Const(s)) for n in NETS for s in (True, False) for b in (Bytes(0, 19), Bytes(20, 20), Bytes(21))]
    + [Obl(A, 'make_default', phash=Bytes(20, 20))] + [Obl(A, 'bad_net', phash=Bytes(20, 20), net=Const(x)) for x in ('mainnet', None, '')]
    + [Obl(A, 'bad_type', phash=Bytes(20, 20), kind=Const(x)) for x in ('pubkeyhash', None, 0)]
    + [Obl(A, f, a=a) for a in ADDRS for f in ('forms', 'inverts')]
    + [Obl(A, 'parse', impl=i, note=i[10:], data=b) for b in (Bytes(0, 20), Bytes(21, 21), Bytes(22)) for i in ('impl_parse', 'impl_parse_hex', 'impl_parse_text')]
    + [Obl(A, 'bad_text', bad=BAD)] + [Obl(A, 'bad_hex', text=t) for t in TEXTS]
    + [Obl(A, 'of_pubkey', impl=i, note=i[14:], key=k) for k in PUBS for i in ('impl_of_pubkey', 'impl_of_pubkey_static')] + [Obl(A, 'of_private', key=k) for k in KEYS]
    + [Obl(A, 'of_script', items=Seq(x), net=Const(n)) for x in SCRIPTS for n in NETS] + [Obl(A, 'of_script_default', items=Seq(x)) for x in SCRIPTS[:4]]
    + [Obl(A, f, a=a, b=b) for a in ADDRS for b in ADDRS for f in ('eq', 'distinct')],
    'C30': [Obl(A, 'table', name=Const(n)) for n in NETS] + [Obl(A, f, value=Int(), field=Const(i)) for i in range(7) for f in ('find', 'find_quiet')]
    + [Obl(A, 'unknown', name=Const(x)) for x in ('mainnet', 'LIVENET', '', None, 0)] + [Obl(A, 'no_field', value=Int(), attr=Const('nonesuch')), Obl(A, 'default')]
    + [Obl(A, 'find_text', value=Const(v), field=Const(i)) for i in range(7) for v in ('0', '111', '5', '196', '128', '239', 'livenet', '8333', '18333', '76067358', None, b'\x00', b'o', 'testnet', (), 'seeds')]
    + [Obl(A, 'custom', a=Int(0, 255), b=Int(0, 255), c=Int(0, 255)), Obl(A, 'custom', a=Const(111), b=Const(239), c=Const(196)), Obl(A, 'custom', a=Const(0), b=Const(128), c=Const(5))],
}
for _p in OBL:
    for _o in OBL[_p]:
        _o.stubs = dict(INTS, **CURVE, **ROOT, **B58)
OBL['C28'] += ROOT_LEMMAS
OBL['C29'] += B58_LEMMAS
