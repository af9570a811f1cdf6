"""WIF and address helpers of bitforge.utils.encoding."""
import hashlib

from bitforge.utils import encoding
from bitforge.utils.encoding import EncodingError


def text(data):
    return encoding.b2a_hashed_base58(data)


def payload(secret, compressed, prefix):
    if secret < 0 or secret >= 2 ** 256:
        raise OverflowError('secret')
    return prefix + secret.to_bytes(32, 'big') + (b'\x01' if compressed else b'')


def spec_wif(secret, compressed, prefix):
    return text(payload(secret, compressed, prefix))


def impl_wif(secret, compressed, prefix):
    return encoding.secret_exponent_to_wif(secret, compressed=compressed, wif_prefix=prefix)


def spec_wif_default(secret):
    return text(payload(secret, True, b'\x80'))


def impl_wif_default(secret):
    return encoding.secret_exponent_to_wif(secret)


def fields(data):
    """(prefix, secret, compressed) of a WIF payload"""
    if len(data) == 33:
        return data[:1], int.from_bytes(data[1:], 'big'), False
    if len(data) == 34 and data[33] == 1:
        return data[:1], int.from_bytes(data[1:33], 'big'), True
    raise EncodingError('WIF')


def spec_wif_parse(data):
    return fields(data)


def impl_wif_parse(data):
    return encoding.wif_to_tuple_of_prefix_secret_exponent_compressed(text(data))


def spec_wif_read(data, prefix):
    p, s, c = fields(data)
    if p != prefix:
        raise EncodingError('WIF')
    return ((s, c), s)


def impl_wif_read(data, prefix):
    t = text(data)
    return (encoding.wif_to_tuple_of_secret_exponent_compressed(t, allowable_wif_prefixes=[prefix]), encoding.wif_to_secret_exponent(t, allowable_wif_prefixes=[prefix]))


def spec_wif_live(data):
    return spec_wif_read(data, b'\x80')


def impl_wif_live(data):
    t = text(data)
    return (encoding.wif_to_tuple_of_secret_exponent_compressed(t), encoding.wif_to_secret_exponent(t))


def spec_wif_valid(data, prefix):
    return (len(data) == 33 or len(data) == 34 and data[33] == 1) and data[:1] == prefix


def impl_wif_valid(data, prefix):
    return encoding.is_valid_wif(text(data), allowable_wif_prefixes=[prefix])


def spec_text_valid(data):
    return True


def impl_text_valid(data):
    return encoding.is_hashed_base58_valid(text(data))


def spec_bad(wrong):
    return (False, False, False)


def impl_bad(wrong):
    return (encoding.is_hashed_base58_valid(wrong), encoding.is_valid_wif(wrong), encoding.is_valid_bitcoin_address(wrong))


def spec_bad_read(wrong):
    raise EncodingError('text')


def impl_bad_wif(wrong):
    return encoding.wif_to_secret_exponent(wrong)


def impl_bad_address(wrong):
    return encoding.bitcoin_address_to_hash160_sec(wrong)


def hash160(data):
    return hashlib.new('ripemd160', hashlib.sha256(data).digest()).digest()


def sec(x, y, compressed):
    if compressed:
        return (b'\x03' if y % 2 else b'\x02') + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def spec_pair(x, y, compressed, prefix):
    h = hash160(sec(x, y, compressed))
    return (sec(x, y, compressed), h, text(prefix + h))


def impl_pair(x, y, compressed, prefix):
    p = (x, y)
    return (encoding.public_pair_to_sec(p, compressed=compressed), encoding.public_pair_to_hash160_sec(p, compressed=compressed),
            encoding.public_pair_to_bitcoin_address(p, compressed=compressed, address_prefix=prefix))


def spec_pair_default(x, y):
    h = hash160(sec(x, y, True))
    return (sec(x, y, True), h, text(b'\x00' + h), text(b'\x00' + h))


def impl_pair_default(x, y):
    p = (x, y)
    h = encoding.public_pair_to_hash160_sec(p)
    return (encoding.public_pair_to_sec(p), h, encoding.public_pair_to_bitcoin_address(p), encoding.hash160_sec_to_bitcoin_address(h))


def spec_address(data):
    if len(data) != 21 or data[0] not in (0, 0x6f):
        raise EncodingError('address')
    return (data[1:], data[:1])


def impl_address(data):
    return encoding.bitcoin_address_to_hash160_sec_with_prefix(text(data))


def spec_address_net(data, prefix):
    if len(data) != 21 or data[:1] != prefix:
        raise EncodingError('address')
    return data[1:]


def impl_address_net(data, prefix):
    return encoding.bitcoin_address_to_hash160_sec(text(data), address_prefix=prefix)


def spec_address_live(data):
    return spec_address_net(data, b'\x00')


def impl_address_live(data):
    return encoding.bitcoin_address_to_hash160_sec(text(data))


def spec_address_valid(data, prefix):
    return len(data) == 21 and data[:1] == prefix


def impl_address_valid(data, prefix):
    return encoding.is_valid_bitcoin_address(text(data), allowable_prefixes=prefix)


def spec_address_valid_live(data):
    return len(data) == 21 and data[0] == 0


def impl_address_valid_live(data):
    return encoding.is_valid_bitcoin_address(text(data))
