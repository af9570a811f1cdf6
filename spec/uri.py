"""Payment URIs (BIP 21)."""
from urllib.parse import urlencode

from bitforge import Address, URI, Unit
from bitforge.errors import BitforgeError
from spec_address import show as show_address
from spec_template import pk_address, script_address

FIELDS = ('message', 'label', 'r')


def extras(u):
    return tuple(sorted(u.extras.items()))


def show(u):
    return (show_address(u.address), None if u.amount is None else u.amount.satoshis, tuple([getattr(u, f, None) for f in FIELDS]), extras(u))


def fields(items):
    """(known fields, others) of parameters; those without a value do not count"""
    d = {}
    for k, v in items:
        if len(v) > 0:
            d[k] = v
    known = tuple([d.get(f) for f in FIELDS])
    return known, tuple(sorted([(k, v) for k, v in d.items() if k not in FIELDS]))


# ------------------------------------------------------------------------ reading
def text_of(a, items, lead):
    q = urlencode(items)
    return lead + a.to_string() + ('?' + q if q else '')


def names(ks, vs):
    return list(zip(ks, vs))


def spec_read(a, lead, ks, vs):
    known, rest = fields(names(ks, vs))
    return (show_address(a), None, known, rest)


def impl_read(a, lead, ks, vs):
    return show(URI(text_of(a, names(ks, vs), lead)))


def spec_amount(a, text, satoshis, label):
    known, rest = fields([('label', label)])
    return (show_address(a), satoshis, known, rest)


def impl_amount(a, text, satoshis, label):
    return show(URI('bitcoin:' + a.to_string() + '?' + urlencode([('amount', text), ('label', label)])))


def impl_amount_last(a, text, satoshis, label):
    return show(URI('bitcoin:' + a.to_string() + '?' + urlencode([('label', label), ('amount', text)])))


def spec_bad_amount(a, text):
    return (False, 'refused')


def impl_bad_amount(a, text):
    t = 'bitcoin:' + a.to_string() + '?' + urlencode([('amount', text)])
    ok = URI.is_valid(t)
    try:
        URI(t)
    except (ValueError, OverflowError, BitforgeError):
        return (ok, 'refused')
    return (ok, 'accepted')


def spec_is_valid(a, ks, vs):
    return True


def impl_is_valid(a, ks, vs):
    return URI.is_valid(text_of(a, names(ks, vs), 'bitcoin:'))


def spec_bad_address(bad):
    return 'refused'


def impl_bad_address(bad):
    try:
        URI({'address': bad})
    except (BitforgeError, ValueError):
        return 'refused'
    return 'accepted'


def spec_bad_uri(text):
    return (False, 'refused')


def impl_bad_uri(text):
    ok = URI.is_valid(text)
    try:
        URI(text)
    except (ValueError, BitforgeError):
        return (ok, 'refused')
    return (ok, 'accepted')


def spec_params(a, ks, vs):
    d = {}
    for k, v in names(ks, vs):
        if len(v) > 0:
            d[k] = v
    d['address'] = a.to_string()
    return tuple(sorted(d.items()))


def impl_params(a, ks, vs):
    return tuple(sorted(URI.parse(text_of(a, names(ks, vs), 'bitcoin:')).items()))


# ------------------------------------------------------------------------ writing
def given(a, ks, vs):
    d = {'address': a.to_string()}
    for k, v in names(ks, vs):
        d[k] = v
    return d


def spec_from_dict(a, satoshis, ks, vs):
    d = dict(names(ks, vs))
    return (show_address(a), satoshis, tuple([d.get(f) for f in FIELDS]), tuple(sorted([(k, v) for k, v in d.items() if k not in FIELDS])))


def impl_from_dict(a, satoshis, ks, vs):
    d = given(a, ks, vs)
    if satoshis is not None:
        d['amount'] = satoshis
    return show(URI(d))


def decimal(n):
    """n satoshis in BTC, without needless zeros"""
    whole = str(n // 10 ** 8)
    part = str(n % 10 ** 8)
    part = ('0' * (8 - len(part)) + part).rstrip('0')
    return whole + ('.' + part if part else '')


def spec_write(a, satoshis, ks, vs):
    q = []
    for k, v in names(ks, vs):
        if k not in FIELDS or len(v) > 0:
            q.append((k, v))
    if satoshis is not None:
        q.append(('amount', decimal(satoshis)))
    q = urlencode(sorted(q))
    return 'bitcoin:' + a.to_string() + ('?' + q if q else '')


def impl_write(a, satoshis, ks, vs):
    d = given(a, ks, vs)
    if satoshis is not None:
        d['amount'] = satoshis
    return URI(d).to_uri()


def impl_write_repr(a, satoshis, ks, vs):
    d = given(a, ks, vs)
    if satoshis is not None:
        d['amount'] = satoshis
    t = repr(URI(d))
    return t[len('<URI: '):-1]


def spec_round(a, satoshis, ks, vs):
    known, rest = fields(names(ks, vs))
    return (show_address(a), satoshis, known, rest)


def impl_round(a, satoshis, ks, vs):
    d = given(a, ks, vs)
    if satoshis is not None:
        d['amount'] = satoshis
    return show(URI(URI(d).to_uri()))


def spec_missing(ks, vs):
    return ('refused', False)


def impl_missing(ks, vs):
    d = dict(names(ks, vs))
    ok = URI.is_valid(d)
    try:
        URI(d)
    except ValueError:
        return ('refused', ok)
    return ('accepted', ok)


def spec_not_a_uri(x):
    return ('refused', False)


def impl_not_a_uri(x):
    ok = URI.is_valid(x)
    try:
        URI(x)
    except ValueError:
        return ('refused', ok)
    return ('accepted', ok)


def spec_write_twice(a, satoshis, ks, vs):
    t = spec_write(a, satoshis, ks, vs)
    s = spec_from_dict(a, satoshis, ks, vs)
    return (t, t, s, s)


def impl_write_twice(a, satoshis, ks, vs):
    d = given(a, ks, vs)
    if satoshis is not None:
        d['amount'] = satoshis
    u = URI(d)
    before = show(u)
    t = u.to_uri()
    return (t, u.to_uri(), before, show(u))
