from absint.oblig import *
from checks.script import Named, Bare, DIRECT, VARS, PUSH, lists
from checks.stubs import INTS, INT_LEMMAS, CURVE, ROOT, ROOT_LEMMAS
from checks.template import Key, addr, NETS, SIG
from checks.tx import inp, out, U32, U64, P2PKH, P2SH, DATA

M = 'spec_signing'
ORDER = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
B, D = Bare(), DIRECT


def priv(net='livenet', compressed=True):
    return Named('%s %skey' % (net, '' if compressed else 'u'), 'privkey', secret=Int(1, ORDER - 1), net=Const(net), compressed=Const(compressed))


def ainp(net='livenet', script=False):
    return Named('%s addrin' % net, 'address_input', prev=Bytes(32, 32), index=U32, address=addr(net, script), seq=U32)


def sinp(items):
    return Named('scriptin[%s]' % ', '.join(d.text() for d in items), 'script_input', prev=Bytes(32, 32), index=U32, items=Seq(items), seq=U32)


A = ainp()
K1 = priv()
SETS = [([A], [out(P2PKH)]), ([A, inp([D])], [out([D])]), ([inp([D, D]), A], [out(P2PKH), out(P2SH)]), ([sinp([D, B])], [out(P2PKH)]), ([A, sinp([B])], [out([])]),
        ([A, inp([D]), A], [out([D])])]


def sets(i, o):
    return dict(inputs=Seq(i), outputs=Seq(o))


NL = dict(lock=U32, version=U32)
def minp(keys, m):
    return Named('%d-of-%d' % (m, len(keys)), 'multisig_input', prev=Bytes(32, 32), index=U32, keys=Seq(keys), m=Const(m), seq=U32)


UK = Key(False)
OBL = {
    'C08': [Obl(M, 'sign', **sets(i, o), **NL, keys=Seq([K1]), index=Const(j)) for i, o in SETS for j in range(len(i)) if i[j].fn != 'inp']
    + [Obl(M, 'sign', **sets([sinp(s)], [out(P2PKH)]), **NL, keys=Seq([K1] * k), index=Const(0)) for s in ([B], [D, B]) for k in (0, 1, 2)]
    + [Obl(M, 'sign', **sets([A], [out(P2PKH)]), **NL, keys=Seq([priv(n, c)]), index=Const(0)) for n in NETS for c in (True, False)]
    + [Obl(M, 'sign', **sets([minp(ks, m)] + rest, [out(P2SH)]), **NL, keys=Seq([K1] * k), index=Const(0)) for ks, m, k in (([UK], 1, 1), ([UK] * 2, 1, 1), ([UK] * 2, 2, 2), ([UK, Key(True)], 2, 2), ([UK] * 3, 2, 2)) for rest in ([], [A])]
    + [Obl(M, 'sign_in_turn', a=A, b=x, outputs=Seq([out(P2PKH)]), k=K1, l=K1) for x in (A, sinp([D, B]))],
    'C09': [Obl(M, 'sign', **sets([minp(ks, m), A], [out(P2SH)]), **NL, keys=Seq([K1] * k), index=Const(1)) for ks, m, k in (([UK], 1, 1), ([UK] * 2, 2, 2))]
    + [Obl(M, 'sign', **sets(i, o), **NL, keys=Seq([K1]), index=Int()) for i, o in SETS]
    + [Obl(M, 'keeps_others', **sets(i, o), keys=Seq([K1]), index=Const(j)) for i, o in SETS for j in range(len(i)) if i[j].fn != 'inp']
    + [Obl(M, 'keeps_types', **sets(i, o), keys=Seq([K1]), index=Const(j)) for i, o in SETS for j in range(len(i)) if i[j].fn != 'inp']
    + [Obl(M, 'sign', **sets([A], [out([])]), **NL, keys=Seq([K1] * k), index=Const(0)) for k in (0, 2)],
    'C10': [Obl(M, 'signed_id', **sets(i, o), keys=Seq([K1]), index=Const(j)) for i, o in SETS[:5] for j in range(len(i)) if i[j].fn != 'inp'],
    'C11': [Obl(M, 'address_input', prev=Bytes(32, 32), index=U32, address=addr(n, s), seq=U32) for n in NETS for s in (False, True)]
    + [Obl(M, 'script_input', prev=Bytes(32, 32), index=U32, items=Seq(x), seq=U32) for k in (0, 1, 2) for x in lists(k, [B, D])]
    + [Obl(M, 'multisig_input', prev=Bytes(32, 32), index=U32, keys=Seq(ks), m=Int(0, 16), seq=U32) for ks in ([Key(True)], [Key(False), Key(True)])]
    + [Obl(M, 'input_kind', prev=Bytes(32, 32), index=U32, items=Seq(x), seq=U32) for k in (0, 1, 2, 3) for x in lists(k, [B, D])]
    + [Obl(M, 'replace_script', i=i, items=Seq(x)) for i in (A, sinp([D]), inp([B])) for x in ([], [D], [B, D])]
    + [Obl(M, 'can_sign', i=ainp(n), keys=Seq(ks)) for n in NETS for ks in ([], [K1], [priv('testnet')], [priv('livenet', False)], [K1, K1])]
    + [Obl(M, 'multisig_can_sign', i=U32, keys=Seq([Key(c)] * n), m=Const(m), privs=Seq([priv(compressed=c)] * k)) for c, n, m, k in [(False, n, m, k) for n, m, k in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 0, 0), (2, 2, 2))] + [(True, 1, 1, 1), (True, 1, 0, 0)]] + [Obl(M, 'multisig_can_sign', i=U32, keys=Seq([Key(False)] * 2), m=Const(1), privs=Seq([priv()]))]
    + [Obl(M, 'can_sign_own', key=priv(n, c), net=Const(m)) for n in NETS for m in NETS for c in (True, False)],
}
for _p in OBL:
    for _o in OBL[_p]:
        _o.stubs = dict(INTS, **CURVE, **ROOT)
    OBL[_p] = INT_LEMMAS + (ROOT_LEMMAS if _p == 'C11' else []) + OBL[_p]
