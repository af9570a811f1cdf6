from absint.oblig import *
from absint import curve

from checks.stubs import ROOT, ROOT_LEMMAS
from checks.script import Named, Bare, DIRECT, VARS, PUSH, ANY, lists

M = 'spec_template'
PRIME = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f


class Key(Build):
    """a public key: any point of the curve"""

    def __init__(self, compressed, net='livenet'):
        Build.__init__(self, 'pubkey', x=Int(0, PRIME - 1), odd=Bool(), compressed=Const(compressed), net=Const(net))
        self.c, self.net = compressed, net

    def text(self):
        return ('' if self.net == 'livenet' else self.net + ' ') + ('key' if self.c else 'ukey')

    def samplers(self, name):
        return {('sym', name + '.x'): lambda env, a: curve.pick_x(env.rnd)}

    def make(self, eng, name):
        a = [self.doms[k].make(eng, name + '.' + k) for k in ('x', 'odd', 'compressed', 'net')]
        if not eng.truth(eng.call(eng.spec_fn('in_field'), a[:1])):
            raise Infeasible()
        return eng.call(eng.spec_fn('pubkey'), a)


def addr(net, script=False):
    return Named('%s %s address' % (net, 'script' if script else 'key'), 'script_address' if script else 'pk_address', h=Bytes(20, 20), net=Const(net))


NETS = ('livenet', 'testnet')
SIG = Bytes(1, 2 ** 32 - 1)
TWO = [Bare(), DIRECT]
OBL = {
    'C13': [Obl(M, 'classify', items=Seq(x)) for k in range(7) for x in lists(k, TWO) if k < 5 or sum(isinstance(d, Bare) for d in x) < 5]
    + [Obl(M, 'classify', items=Seq(x)) for k in (1, 2, 3) for x in lists(k, [Bare(), VARS[0], VARS[2]]) if len(set(map(id, x))) > 1 or k < 3]
    + [Obl(M, 'p2pk_out', address=addr(n, s)) for n in NETS for s in (False, True)]
    + [Obl(M, 'p2pk_in', key=Key(c), signature=SIG) for c in (True, False)]
    + [Obl(M, 'p2pk_in_key', key=Key(c), signature=SIG) for c in (True, False)]
    + [Obl(M, 'multisig_keys', keys=Seq(ks), m=Int(1, 16)) for ks in ([Key(True)], [Key(False), Key(True)], [Key(True)] * 3)]
    + [Obl(M, 'p2sh_out', items=Seq(x)) for k in (0, 1, 2) for x in lists(k, [Bare()] + PUSH[:2])]
    + [Obl(M, 'p2sh_in', items=Seq(x), signatures=Seq([SIG] * j)) for k in (1, 2) for x in lists(k, [Bare()] + PUSH[:2]) for j in (0, 1, 2)]
    + [Obl(M, 'p2sh_in_script', items=Seq(x), signature=SIG) for k in (1, 2) for x in lists(k, TWO)]
    + [Obl(M, 'op_return', data=SIG)]
    + [Obl(M, 'multisig', keys=Seq(ks), m=Int()) for ks in ([Key(True)], [Key(False), Key(True)], [Key(True)] * 3)],
}
DEEP = {
    'C13': [Obl(M, 'classify', items=Seq([Bare()] * k), seconds=300) for k in (5, 6)]
    + [Obl(M, 'classify', items=Seq(x), seconds=200) for x in lists(7, TWO) if sum(isinstance(d, Bare) for d in x) < 4]
    + [Obl(M, 'multisig', keys=Seq([Key(True)] * k), m=Int()) for k in (4, 8, 15, 16)]
}
for _o in OBL['C13'] + DEEP['C13']:
    _o.stubs = ROOT
OBL['C13'] += ROOT_LEMMAS
