from absint.oblig import *

import hashlib

M = 'spec_base58'
ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def known(data):
    b = data + hashlib.sha256(hashlib.sha256(data).digest()).digest()[:4]
    n, t = int.from_bytes(b, 'big'), ''
    while n:
        n, d = divmod(n, 58)
        t = ALPHABET[d] + t
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + t


PAYLOADS = [b'', b'\0', b'\0\0\0', b'\1', b'abc', b'\0' + bytes(range(20)), b'\x05' + b'\xff' * 20, b'\x80' + b'\1' * 33]


def near(t):
    out = [s + t for s in ' \t\n\r0OIl1\0\u00a0\u3000\uff11+-'] + [t + s for s in ' \n\0=0l1\u2003'] + [t[:3] + s + t[3:] for s in ' -,_\u200b'] + [t[1:], t[:-1], t[::-1], t + t, '0x' + t, 'bitcoin:' + t, t[1:] + t[:1]]
    for i in (0, 1, len(t) // 2, len(t) - 1):
        out += [t[:i] + c + t[i + 1:] for c in '0OIl|.' + ALPHABET[(ALPHABET.index(t[i]) + 1) % 58] + t[i].swapcase() if c != t[i]]
    return sorted(set(out) - {t})


OBL = {
    'C05': [Obl(M, 'encode', data=Bytes(k, k)) for k in (0, 1, 2, 3, 5)]
    + [Obl(M, 'decode', raw=Bytes(k, k)) for k in (0, 1, 2, 3)]
    + [Obl(M, 'decode_run', ones=Const(z), raw=Bytes(k, k), assume='letters') for z in (0, 1, 3) for k in (0, 6)]
    + [Obl(M, 'plain', data=Bytes(k, k)) for k in (0, 1, 2, 4, 6)] + [Obl(M, 'unplain_run', ones=Const(z), raw=Bytes(k, k), assume='letters') for z in (0, 1, 5) for k in (0, 1, 5)]
    + [Obl(M, 'unplain', raw=Bytes(k, k)) for k in (1, 2)] + [Obl(M, 'known', text=Const(known(d)), data=Const(d)) for d in PAYLOADS]
    + [Obl(M, 'near', text=Const(t)) for d in PAYLOADS for t in near(known(d)) if t not in [known(x) for x in PAYLOADS]]
    + [Obl(M, 'nonascii', text=Const(t)) for t in ('é', '1é', '\ud800', '0', 'I', 'O', 'l', ' ', '1111 1111', '\n')],
}
DEEP = {
    'C05': [Obl(M, 'encode', data=Bytes(k, k)) for k in (8, 21, 33, 34)]
    + [Obl(M, 'decode', raw=Bytes(k, k)) for k in (4, 5, 6)]
}
