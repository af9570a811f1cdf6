from absint.oblig import *
from checks.address import ADDRS, PUBS
from checks.hd import PRIVS as XPRIVS, PUBS as XPUBS
from checks.keys import KEYS
from checks.script import Named, Bare, DIRECT, VARS, lists
from checks.signing import ainp, sinp, priv
from checks.stubs import INTS, INT_LEMMAS, CURVE, ROOT, ROOT_LEMMAS, B58, B58_LEMMAS
from checks.template import Key, addr, NETS
from checks.tx import OPS, inp, out, U32, U64, P2PKH, P2SH, DATA

M = 'spec_values'
B, D, V = Bare(), DIRECT, VARS[0]
ALL = dict(INTS, **CURVE, **ROOT, **B58)


def script(items, create=True):
    return Named('script[%s]' % ', '.join(d.text() for d in items), 'scripted' if create else 'script', items=Seq(items))


def tx(i, o):
    return Named('tx', 'tx', inputs=Seq(i), outputs=Seq(o), lock=U32, version=U32)


def network(n):
    return Named(n, 'net', name=Const(n))


PRIV, PUB, ADDR = ('secret', 'network', 'compressed'), ('pair', 'network', 'compressed'), ('phash', 'network', 'type')
XPRV, XPUB = ('privkey', 'chain', 'depth', 'index', 'parent', 'network'), ('pubkey', 'chain', 'depth', 'index', 'parent', 'network')
IN, OUT, TX = ('tx_id', 'txo_index', 'script', 'seq_number'), ('amount', 'script'), ('inputs', 'outputs', 'lock_time', 'version')
NET = ('name', 'pubkeyhash', 'wif_prefix', 'scripthash', 'hd_public_key', 'hd_private_key', 'magic', 'port', 'seeds')
INS = ('opcode', 'data')
T1 = tx([inp([D])], [out(P2PKH)])
T2 = tx([ainp(), sinp([D])], [out(P2SH), out(DATA)])
FROZEN = [(k, PRIV) for k in KEYS] + [(k, PUB) for k in PUBS] + [(a, ADDR) for a in ADDRS] + [(k, XPRV + ('fingerprint',)) for k in XPRIVS] + [(k, XPUB + ('fingerprint',)) for k in XPUBS] + [(network(n), NET) for n in NETS] \
    + [(x, INS) for x in (B, D, V)] + [(script(x), ('instructions',)) for x in ([], [D], [B, D], P2PKH, P2SH, DATA)] + [(i, IN) for i in (inp([D]), ainp(), sinp([D, B]))] + [(o, OUT) for o in (out([D]), out(P2PKH), out(DATA))] + [(t, TX) for t in (T1, T2)]
SAME = [(a, b, PRIV) for a in KEYS for b in KEYS] + [(a, b, ADDR) for a in ADDRS for b in ADDRS] + [(a, b, PUB) for a in PUBS for b in PUBS] + [(a, b, NET) for a in map(network, NETS) for b in map(network, NETS)] \
    + [(a, b, INS) for a in (B, D, V) for b in (B, D, V)] + [(script(a), script(b), ('instructions',)) for a in ([], [D], [B, D]) for b in ([], [D], [B, D])] \
    + [(inp([D]), inp([D]), IN), (inp([D]), inp([B]), IN), (out([D]), out([D]), OUT), (out([D]), out([]), OUT), (T1, T1, TX)] + [(a, b, XPRV + ('fingerprint',)) for a in XPRIVS for b in XPRIVS] + [(a, b, XPUB + ('fingerprint',)) for a in XPUBS for b in XPUBS]
OBL = {
    'C33': [Obl(M, 'frozen', x=x, names=Const(n), stubs=ALL) for x, n in FROZEN] + [Obl(M, 'alike', x=x, y=y, names=Const(n), stubs=ALL) for x, y, n in SAME]
    + [Obl(M, 'script_copies', items=Seq(x), more=D) for x in ([], [D], [B, D], P2PKH, P2SH)]
    + [Obl(M, 'tx_copies', inputs=Seq([inp([D]), inp([])][:k]), outputs=Seq([out([D]), out([])][:j]), lock=U32) for k in (1, 2) for j in (1, 2)]
    + [Obl(M, 'multisig_copies', keys=Seq([Key(True)] * k), more=Key(True), stubs=ALL) for k in (1, 2)],
}

N64 = Int(0, 2 ** 64 - 1)
DATA20 = Bytes(20, 20)
SOME = [script(x) for x in ([], [D], [B], [B, D], P2PKH, P2SH)]
CASES = {
    'wif': KEYS, 'public': KEYS, 'address': KEYS[:3] + PUBS, 'sec': PUBS, 'text': ADDRS, 'hex': ADDRS[:2] + PUBS[:2] + SOME[:3] + [T1], 'id': [T1, T2], 'repr': ADDRS[:1] + [B, D] + SOME[:2],
    'varint': [Int()], 'int': [Int(0, 2 ** 24 - 1)], 'int4': [Int()], 'number': [Int(-2 ** 23, 2 ** 23)], 'base58': [Bytes(0, 0), Bytes(1, 1), Bytes(2, 2)], 'unbase58': [Const(x) for x in ('', '1', '3QJmnh', '13QJmnh', '1Wh4bh', '112edB6q', '5', 'Ix')], 'unnumber': [Bytes(k, k) for k in (0, 1, 2, 6)],
    'hashes': [Bytes()], 'opcode': [Int()], 'named': [Const(x) for x in ('OP_0', 'OP_DUP', 'OP_NOPE')], 'push': [Bytes()], 'read': [Bytes(k, k) for k in (0, 1, 2)],
    'bytes': KEYS[:2] + ADDRS + SOME + [B, D, V] + [inp([D]), inp([]), out([D]), T1, T2], 'compile': SOME, 'network': [Const(n) for n in ('livenet', 'testnet')],
    'unread': [Bytes(21, 21), Bytes(22)], 'unpriv': [Bytes(32, 32), Bytes(0, 31)], 'p2pk': ADDRS, 'p2sh': SOME[:4], 'redeem': [Seq([Key(True)]), Seq([Key(False), Key(True)])],
    'child': XPRIVS + XPUBS, 'unsigned': [inp([D]), ainp(), sinp([D])], 'uri': ADDRS, 'units': [Const(5), Const(10 ** 8)], 'verify': [script(x) for x in ([], [OPS['DUP']], [OPS['RETURN']], [OPS['HASH160']])],
}
PLAIN = {'varint', 'int', 'int4', 'base58', 'unbase58', 'number', 'unnumber'}
MIXED = [('address', 'public', k) for k in KEYS] + [('public', 'wif', k) for k in KEYS] + [('text', 'hex', a) for a in ADDRS] + [('hex', 'text', a) for a in ADDRS] + [('id', 'bytes', t) for t in (T1, T2)] + [('bytes', 'id', t) for t in (T1, T2)] \
    + [('repr', 'bytes', s) for s in SOME[:4]] + [('hex', 'bytes', s) for s in SOME] + [('unsigned', 'bytes', i) for i in (inp([D]), ainp(), sinp([D]))] + [('p2sh', 'bytes', s) for s in SOME[:4]]
ST = [([ainp()], 0), ([inp([D]), ainp()], 1), ([sinp([D, B])], 0)]
OBL['C40'] = [Obl(M, 'after', op=Const(op), x=x, y=y, stubs={} if op in PLAIN else ALL) for op, xs in CASES.items() for x in xs for y in xs] \
    + [Obl(M, 'again', op=Const(op), x=x, stubs={} if op in PLAIN else ALL) for op, xs in CASES.items() for x in xs] + [Obl(M, 'mixed', first=Const(f), op=Const(g), x=x, stubs=ALL) for f, g, x in MIXED] + [Obl(M, 'again', op=Const('unpub'), x=Bytes(k, k), stubs=ALL) for k in (33, 65)] \
    + [Obl(M, 'sign_after', t=tx(a, [out([D])]), u=tx(b, [out([])]), k=priv(), l=priv(), i=Const(i), j=Const(j), stubs=ALL) for a, i in ST for b, j in ST] \
    + [Obl(M, 'parsed_after', t=t, u=u, stubs=ALL) for t in (T1,) for u in (T1, tx([inp([])], [out([])]))]
OBL['C40'] += INT_LEMMAS + ROOT_LEMMAS + B58_LEMMAS
