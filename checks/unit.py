from absint.oblig import *

M = 'spec_unit'
AMOUNT = Int(-2 ** 51, 2 ** 51)
OBL = {
    'C35': [Obl(M, 'satoshis', impl=i, note=i[13:], n=AMOUNT) for i in ('impl_satoshis', 'impl_satoshis_named')]
    + [Obl(M, f, x=Float()) for f in ('bits', 'mbtc', 'btc')] + [Obl(M, 'whole', n=Int(-21 * 10 ** 6, 21 * 10 ** 6)), Obl(M, 'inverts', n=AMOUNT)]
    + [Obl(M, 'fiat', value=v, rate=r, assume='positive') for v in (Float(), Int(0, 10 ** 12)) for r in (Float(), Int(1, 10 ** 9))]
    + [Obl(M, 'at_rate', n=AMOUNT, rate=r) for r in (Float(), Int(0, 10 ** 9))] + [Obl(M, 'none'), Obl(M, 'texts', n=AMOUNT)],
}
