"""secp256k1, for concretising terms (witness.py): independent of the analysed code."""
P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
     0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P)
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P)
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


_memo = {}


def mul(k, a):
    k %= N
    if (k, a) in _memo:
        return _memo[k, a]
    r, q, e = None, a, k
    while e:
        if e & 1:
            r = add(r, q)
        q = add(q, q)
        e >>= 1
    _memo[k, a] = r
    return r


_table = []


def table():
    if not _table:
        q = None
        for i in range(24):
            q = add(q, G)
            _table.append(q)
    return _table


def xs():
    """x coordinates: of small multiples of G, the smallest, and the largest ones"""
    out = [p[0] for p in table()]
    for start, step in ((1, 1), (P - 1, -1), (1 << 128, 1), (256, 1), (1 << 248, 1)):
        x, k = start, 0
        while k < 4:
            a = (x * x * x + 7) % P
            if pow(a, (P - 1) // 2, P) == 1:
                out.append(x)
                k += 1
            x += step
    return out


_xs = []


def pick_x(rnd):
    if not _xs:
        _xs.extend(xs())
    return rnd.choice(_xs)
