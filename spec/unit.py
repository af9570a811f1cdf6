"""Amounts."""
from bitforge import Unit

LIMIT = 2 ** 51


def show(u):
    return (u.satoshis, type(u.satoshis), u.bits, u.mbtc, u.btc)


def forms(n):
    return (n, int, n / 1e2, n / 1e5, n / 1e8)


def spec_satoshis(n):
    return forms(n)


def impl_satoshis(n):
    return show(Unit(n))


def impl_satoshis_named(n):
    return show(Unit(satoshis=n))


def near(x):
    try:
        return forms(round(x))
    except (ValueError, OverflowError):
        return 'refused'


def spec_bits(x):
    return near(x * 1e2)


def impl_bits(x):
    try:
        return show(Unit(bits=x))
    except (ValueError, OverflowError):
        return 'refused'


def spec_mbtc(x):
    return near(x * 1e5)


def impl_mbtc(x):
    try:
        return show(Unit(mbtc=x))
    except (ValueError, OverflowError):
        return 'refused'


def spec_btc(x):
    return near(x * 1e8)


def impl_btc(x):
    try:
        return show(Unit(btc=x))
    except (ValueError, OverflowError):
        return 'refused'


def spec_whole(n):
    return (n * 100, n * 100000, n * 100000000)


def impl_whole(n):
    return (Unit(bits=n).satoshis, Unit(mbtc=n).satoshis, Unit(btc=n).satoshis)


def spec_inverts(n):
    return (n, n, n)


def impl_inverts(n):
    u = Unit(satoshis=n)
    return (Unit(bits=u.bits).satoshis, Unit(mbtc=u.mbtc).satoshis, Unit(btc=u.btc).satoshis)


def spec_fiat(value, rate):
    try:
        return near(value / float(rate) * 1e8)
    except ZeroDivisionError:
        return 'refused'


def impl_fiat(value, rate):
    try:
        return show(Unit.from_fiat(value, rate))
    except (ValueError, OverflowError, ZeroDivisionError):
        return 'refused'


def positive(value, rate):
    return rate > 0


def spec_at_rate(n, rate):
    return n / 1e8 * rate


def impl_at_rate(n, rate):
    return Unit(satoshis=n).at_rate(rate)


def spec_none():
    raise ValueError()


def impl_none():
    return Unit()


def spec_texts(n):
    return (str(n) + ' satoshis', '<Unit: ' + str(n) + ' satoshis>')


def impl_texts(n):
    return (str(Unit(n)), repr(Unit(n)))
