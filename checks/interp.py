import itertools

from absint.oblig import *
from absint.values import *
from absint.engine import cond_ge0
from absint.seqs import ELEM, LEN, termlen
from absint.witness import snenc
from checks.stubs import SN, SN_LEMMAS

M = 'spec_interp'
NEEDS = {109: 2, 110: 2, 111: 3, 112: 4, 113: 6, 114: 4, 116: 0, 117: 1, 118: 1, 119: 2, 120: 2, 123: 3, 124: 2, 125: 2, 130: 1}


def items(k, dom=Bytes):
    return Seq([dom() for _ in range(k)])


class Deep(Dom):
    """a stack of k items on top of any number of others"""

    def __init__(self, k, hi=900):
        self.k, self.hi = k, hi

    def text(self):
        return 'deep+%d' % self.k

    def make(self, eng, name):
        t = ('sym', name)
        ELEM[t] = lambda e, at: Sq('bytes', (('a', at, termlen(at)),))
        LEN.pop(t, None)
        n = termlen(t)
        eng.assume(cond_ge0(poly(n)))
        eng.assume(cond_ge0(padd(pconst(self.hi), poly(n), -1)))
        ps = tuple(('i', Bytes().make(eng, '%s_%d' % (name, i))) for i in range(self.k))
        return eng.st.alloc('list', eng.builtins['list'], (('s', t, n),) + ps)

    def samplers(self, name):
        t = ('sym', name)
        out = {t: lambda env, a: [bytes(env.rnd.randrange(256) for _ in range(env.rnd.randrange(6))) for _ in range(env.atom(('len', t)))],
               ('len', t): lambda env, a: env.rnd.randrange(5)}
        for i in range(self.k):
            out.update(Bytes().samplers('%s_%d' % (name, i)))
        return out


STACKS = lambda k: [items(j) for j in range(k + 1)] + [Deep(k)]
OBL = {
    'C18': [Obl(M, 'move', n=Const(n), stack=s, stubs=SN) for n in sorted(NEEDS) for s in STACKS(NEEDS[n])]
    + [Obl(M, 'alt', n=Const(n), stack=items(k), alt=items(j)) for n in (107, 108) for k in range(3) for j in range(3)]
    + [Obl(M, 'pick', n=Const(n), stack=items(k), flags=Const(f), stubs=SN) for n in (121, 122) for k in range(5) for f in (0, 64)],
    'C19': [Obl(M, 'unary', n=Const(n), stack=s, flags=Const(f), stubs=SN) for n in (139, 140, 143, 144, 145, 146) for s in STACKS(1) for f in (0, 64)]
    + [Obl(M, 'binary', n=Const(n), stack=s, flags=Const(f), stubs=SN) for n in (147, 148) + tuple(range(154, 165)) for s in STACKS(2) for f in (0, 64)]
    + [Obl(M, 'within', stack=s, flags=Const(f), stubs=SN) for s in STACKS(3) for f in (0, 64)]
    + [Obl(M, 'equal', n=Const(n), stack=s) for n in (135, 136) for s in STACKS(2)] + [Obl(M, 'digest', n=Const(n), stack=s) for n in range(166, 171) for s in STACKS(1)] + SN_LEMMAS,
}
TOPS = [items(0)] + [Seq([Bytes(k, k)]) for k in (0, 1, 2, 3)] + [Seq([Bytes(), Bytes(k, k)]) for k in (0, 1)]
OTHER = [80, 98, 101, 102, 137, 138] + list(range(186, 256))
DISABLED = (126, 127, 128, 129, 131, 132, 133, 134, 141, 142, 149, 150, 151, 152, 153)
NOPS = [97, 171] + [n for n in range(176, 186) if n != 177]


def ops(*ns):
    return Const([n if isinstance(n, tuple) else (n, None) for n in ns])


OBL['C20'] = [Obl(M, 'op', n=Const(n), stack=s, flags=Const(f)) for n in [0, 79] + list(range(81, 97)) + NOPS + [177] for s in (items(0), items(2), Deep(0)) for f in (0, 64, 128, 1023 - 512)] \
    + [Obl(M, 'push', n=Int(), data=Bytes(1, 75), stack=s, flags=Const(f), assume='fits_op') for s in (items(0), Deep(1)) for f in (0, 64)] \
    + [Obl(M, 'push', n=Const(n), data=Bytes(0, 256 ** k - 1), stack=s, flags=Const(f)) for n, k in ((76, 1), (77, 2), (78, 4)) for s in (items(0), Deep(1)) for f in (0, 64)] \
    + [Obl(M, 'push_skipped', n=Const(n), data=Bytes(0, 256 ** k - 1), flags=Const(f)) for n, k in ((76, 1), (77, 2), (78, 4)) for f in (0, 64)]
OBL['C21'] = [Obl(M, 'op', n=Const(n), stack=s, flags=Const(0)) for n in list(DISABLED) + OTHER for s in (items(0), items(3), Deep(2))] \
    + [Obl(M, 'skipped', n=Const(n), stack=s) for n in list(DISABLED) + OTHER for s in (items(0), items(2))]
OBL['C22'] = [Obl(M, 'cast', x=Bytes(k, k), assume='plain_truth') for k in range(6)] + [Obl(M, 'cast', x=Bytes(k, k), assume='starts') for k in (6, 7, 8, 20, 33)] \
    + [Obl(M, 'op', n=Const(n), stack=s, flags=Const(0), assume='plain_one') for n in (99, 100, 103, 104, 105, 106, 115) for s in TOPS]
OBL['C20'] += [Obl(M, 'cltv', stack=s, flags=Const(f), lock=Int(0, 2 ** 32 - 1), seq=Int(0, 2 ** 32 - 1), stubs=SN) for s in (items(0), items(1), items(2), Deep(1)) for f in (0, 128, 512, 512 + 64, 512 + 128)] + SN_LEMMAS
OBL['C21'] += [Obl(M, 'count', n=Const(n), k=Const(k), m=Const(m)) for n, k, m in ((81, 5, 200), (81, 5, 201), (81, 5, 202), (81, 300, 201), (80, 0, 201), (118, 0, 1), (116, 100, 101), (116, 100, 102), (116, 202, 0), (79, 300, 201), (81, 1000, 0), (81, 1001, 0), (81, 1002, 1))] \
    + [Obl(M, 'count_skipped', k=Const(k)) for k in (198, 199, 200, 250)] + [Obl(M, 'bytes_limit', k=Const(k), n=Const(n)) for k, n in ((19, 61), (19, 62), (19, 63), (20, 1), (1, 75))] \
    + [Obl(M, 'full', n=Const(n), k=Const(k), j=Const(j)) for n in (81, 0, 118) for k, j in ((998, 0), (999, 0), (1000, 0), (900, 99), (900, 100), (1, 998), (1, 999), (500, 500))]
COND = [99, 100, 103, 104, 81, 105, 126]
SCRIPTS = [x for k in (1, 2, 3, 4) for x in itertools.product(COND, repeat=k)]
NESTED = [(99, 99, 81, 103, 82, 104, 103, 83, 104), (99, 99, 81, 103, 82, 104, 103, 99, 83, 103, 84, 104, 104), (100, 81, 103, 82, 103, 83, 104), (99, 103, 103, 103, 103, 104), (99, 104, 104), (103, 104), (99, 81, 103, 106, 104),
          (99, 106, 103, 81, 104), (99, 101, 104), (99, 102, 104), (0, 99, 101, 104), (0, 99, 102, 104), (0, 99, 80, 98, 137, 138, 186, 255, 104), (0, 99, 99, 99, 104, 103, 106, 104, 104), (81, 99, 0, 99, 106, 104, 104),
          (0, 100, 0, 100, 81, 104, 104), (0, 99, 81, 99, 106, 103, 106, 104, 103, 82, 104), (99, 0, 105, 104), (99, 107, 104), (99, 108, 104), (99, 115, 104), (0, 99, 115, 105, 106, 107, 108, 109, 117, 118, 135, 136, 169, 104)]
OBL['C22'] += [Obl(M, 'run', ops=ops(*x), stack=Seq([Bytes(1, 1), Bytes(1, 1)]), flags=Const(0)) for x in SCRIPTS[:0] + NESTED] \
    + [Obl(M, 'run', ops=ops(*x), stack=s, flags=Const(0)) for x in SCRIPTS if len(x) < 4 or {99, 100} & set(x) and 104 in x for s in (items(0), Seq([Bytes(1, 1), Bytes(1, 1)])) if len(x) < 4 or s.elems]
SIGS = [(), (81,), (0,), (79,), (81, 0), (0, 81), (97,), (81, 97), (106,), (81, 99), (99, 81, 104), (81, 107), (81, 82, 83), (80,), (126,), (118,), (81, 118), (171, 81)]
PUBS = [(), (81,), (0,), (97,), (135,), (117,), (117, 117), (105,), (105, 81), (104,), (103, 104), (99, 81, 103, 0, 104), (108,), (106,), (118, 136), (126,), (116,), (81, 171), (80,), (116, 83, 135)]
REDEEM = [b'', b'\x51', b'\x00', b'\x75', b'\x75\x75', b'\x6a', b'\x63', b'\x01', b'\x05ab', b'\x4c', b'\x4d\x05', b'\x7e', b'\x87', b'\x76\x87', b'\x01\x07', b'\x01\x00', b'\x4c\x02ab\x75', b'\x50', b'\x63\x51\x67\x00\x68', b'\xff', b'\x74']
H20 = Bytes(20, 20)
FLAGS = (0, 1, 32, 33, 64, 65, 128, 511)
OBL['C23'] = [Obl(M, 'verify', impl=i, note=i[12:], sig=ops(*a), pub=ops(*b), flags=Const(f)) for i in ('impl_verify', 'impl_verify_again') for a in SIGS for b in PUBS for f in (0, 1, 32) if f != 32 and i == 'impl_verify' or b in ((81,), (135,), ())] \
    + [Obl(M, 'p2sh_own', sig=ops(*a), redeem=Const(r), flags=Const(f)) for r in REDEEM for a, f in (((), 1), ((81, 0), 1), ((0, 81), 1), ((81, 81), 33), ((81, 81), 0), ((81, 97), 1), ((97, 81), 33), ((81, 81), 65), ((81, 81), 511))] \
    + [Obl(M, 'p2sh', sig=ops(*a), redeem=Const(r), h=H20, flags=Const(f)) for r in (b'', b'\x51', b'\x00', b'\x75', b'\x76') for a in ((), (81, 0), (81, 97)) for f in (0, 1, 33)] \
    + [Obl(M, 'p2sh_raw', sig=ops(*a), h=H20, flags=Const(f)) for a in ((), (81, 118), (81, 97)) for f in (0, 1, 32)] \
    + [Obl(M, 'spend', a=Bytes(j, j), b=Bytes(k, k), pub=ops(*p), flags=Const(f), assume='plain_ab') for j in (0, 1) for k in (0, 1, 2) for p in ((), (135,), (136,), (136, 81), (117,), (105,), (124,), (99, 81, 103, 0, 104), (169, 117, 81), (116,)) for f in (0, 1, 64)] \
    + [Obl(M, 'hash_lock', x=Bytes(k, k), h=Bytes(32, 32), flags=Const(f)) for k in (0, 1, 32, 75) for f in (0, 1, 33)] \
    + [Obl(M, 'defaults', x=Bytes(k, k), assume='plain_x') for k in (0, 1, 2)] + [Obl(M, 'flag_values')] + OBL['C22'][:11]


def num(n):
    return Const(snenc(n))


MULTI = [[], [num(0)], [num(1)], [num(-1)], [num(21)], [num(0), num(0)], [Bytes(), num(0), num(0)], [Bytes(), num(0), num(21)], [num(1), num(0)], [num(-1), num(0)], [Bytes(), Bytes(), num(1), num(0)],
         [num(0), Bytes(), num(1)], [Bytes(), num(0), Bytes(), num(1)], [Bytes(), Bytes(), num(0), Bytes(), num(1)], [Bytes(), num(2), Bytes(), num(1)], [Bytes(), num(1), Bytes(), num(1)], [Bytes(), num(0), Bytes(), Bytes(), num(2)],
         [num(2), Bytes(), Bytes(), num(2)], [Bytes(), num(2), Bytes(), Bytes(), num(2)], [Bytes(), Bytes(), num(2), Bytes(), Bytes(), num(2)], [Bytes(), Bytes(), num(3), Bytes(), Bytes(), num(2)], [Bytes()] + [num(0)] + [Bytes()] * 20 + [num(20)],
         [Bytes()], [Bytes(), Bytes(), Bytes(0, 5)], [Bytes(), num(0), Const(b'\0')], [Bytes(), num(0), Const(b'\1\0')]]
OBL['C21'] += [Obl(M, 'multi_count', k=Const(k), extra=Const(e)) for k, e in ((0, 200), (0, 201), (1, 199), (1, 200), (16, 184), (16, 185), (17, 183), (17, 184), (20, 180), (20, 181))]
OBL['C23'] += [Obl(M, 'multisig', n=Const(n), stack=Seq(s), flags=Const(f), stubs=SN, assume='no_signatures') for n in (174, 175) for s in MULTI for f in (0, 16, 64)] \
    + [Obl(M, 'checksig_short', n=Const(n), stack=items(k)) for n in (172, 173) for k in (0, 1)]
OBL['C22'] += [Obl(M, 'cast', x=Bytes(2, 2), assume='leading_zero', note='leading zero')]
OBL['C23'] += [Obl(M, 'refusal_explained', n=Const(n), stack=Seq([Const(b'\x30'), Const(b'\x02')])) for n in (172, 173)] \
    + [Obl(M, 'refusal_explained', n=Const(n), stack=Seq([Const(b''), Const(b'\x30'), num(1), Const(b'\x02'), num(1)])) for n in (174, 175)]
U32 = Int(0, 2 ** 32 - 1)
OBL['C20'] += [Obl(M, 'lock_phase', phase=Const(p), nin=Const(n), lock=U32, seqs=Seq([U32] * 3)) for p in ('sig', 'pub', 'redeem') for n in range(3)] + [Obl(M, 'lock_none', phase=Const(p)) for p in ('sig', 'pub', 'redeem')]
SEQ_OPS = sorted(NEEDS) + [0, 81, 107, 108, 115, 135, 169]
PAIRS = [(a, b) for a in SEQ_OPS for b in SEQ_OPS if (a, b) != (169, 115)]
OBL['C18'] += [Obl(M, 'run', ops=ops(*x), stack=Seq([Bytes(1, 1), Bytes(0, 0), Bytes(1, 1)]), flags=Const(0)) for x in PAIRS] + SN_LEMMAS
OBL['C21'] += [Obl(M, 'count_each', a=Const(a), b=Const(b), again=Const(r)) for a, b, r in ((150, 150, 1), (201, 201, 1), (202, 0, 1), (0, 202, 1), (201, 201, 3))] \
    + [Obl(M, 'size_each', a=Const(a), b=Const(b)) for a, b in ((10000, 10000), (5300, 5300), (10001, 1), (1, 10001))] \
    + [Obl(M, f, n=Const(n), data=Bytes(lo, hi), **kw, flags=Const(0)) for n, hi in ((77, 65535), (78, 2 ** 20)) for lo, hi in ((0, 520), (521, hi)) for f, kw in (('push', dict(stack=items(0))), ('push', dict(stack=Deep(1))), ('push_skipped', {}))]
OBL['C22'] += [Obl(M, 'op', n=Const(n), stack=Seq([Bytes(k, k)]), flags=Const(f), assume='plain_start') for n in (99, 100, 105, 115) for k in (4, 5, 6, 9, 33) for f in (0, 64)]
OBL['C22'] += [Obl(M, 'run', ops=ops(n, 81, 103, 82, 104), stack=Seq([Bytes(), Bytes(k, k)]), flags=Const(f), assume='plain_top' if k < 4 else 'start_top') for n in (99, 100) for k in (0, 1, 2, 3, 4, 5, 6, 9, 33) for f in (0, 64)]
OBL['C20'] += [Obl(M, 'lock_missing', phase=Const(p), nin=Const(n), lock=U32) for p in ('sig', 'pub', 'redeem') for n in (1, 7)]
DEEP = {
    'C18': [Obl(M, 'run', ops=ops(*x), stack=Seq([Bytes(1, 1), Bytes(1, 1)]), flags=Const(0)) for x in itertools.product([0, 109, 110, 107, 108, 117, 118, 119, 120, 123, 124, 125, 135], repeat=3)]
    + [Obl(M, 'pick', n=Const(n), stack=items(k), flags=Const(f), stubs=SN) for n in (121, 122) for k in range(5, 12) for f in (0, 64)],
    'C22': [Obl(M, 'run', ops=ops(*x), stack=Seq([Bytes(1, 1), Bytes(1, 1)]), flags=Const(0)) for x in itertools.product([99, 100, 103, 104, 81], repeat=5)],
    'C23': [Obl(M, 'verify', sig=ops(*a), pub=ops(*b), flags=Const(f)) for a in SIGS for b in PUBS for f in FLAGS]
    + [Obl(M, 'p2sh_own', sig=ops(*a), redeem=Const(r), flags=Const(f)) for r in REDEEM for a in SIGS for f in FLAGS],
}
