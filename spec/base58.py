"""Base58Check text."""
import hashlib

from bitforge import encoding, utils
from bitforge.encoding import InvalidBase58h

ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
VALUE = {c: i for i, c in enumerate(ALPHABET.encode('ascii'))}


def checksum(data):
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()[:4]


def b58(data):
    zeros = 0
    for x in data:
        if x != 0:
            break
        zeros += 1
    n = int.from_bytes(data, 'big')
    text = ''
    while n > 0:
        text = ALPHABET[n % 58] + text
        n = n // 58
    return '1' * zeros + text


def spec_encode(data):
    return b58(data + checksum(data))


def impl_encode(data):
    return encoding.encode_base58h(data)


def ascii(raw):
    for x in raw:
        if x > 127:
            return None
    return raw.decode('ascii')


def spec_decode(raw):
    text = ascii(raw)
    if text is None:
        return None
    for x in raw:
        if x not in VALUE:
            raise InvalidBase58h(text)
    ones = 0
    for x in raw:
        if VALUE[x] != 0:
            break
        ones += 1
    n = 0
    for x in raw:
        n = n * 58 + VALUE[x]
    out = b''
    while n > 0:
        out = (n % 256).to_bytes(1, 'big') + out
        n = n // 256
    out = b'\x00' * ones + out
    if checksum(out[:-4]) != out[-4:]:
        raise InvalidBase58h(text)
    return out[:-4]


def impl_decode(raw):
    text = ascii(raw)
    if text is None:
        return None
    return encoding.decode_base58h(text)


def unb58(raw):
    ones = 0
    for x in raw:
        if VALUE[x] != 0:
            break
        ones += 1
    n = 0
    for x in raw:
        n = n * 58 + VALUE[x]
    out = b''
    while n > 0:
        out = (n % 256).to_bytes(1, 'big') + out
        n = n // 256
    return b'\x00' * ones + out


# ------------- longer texts: ones, then letters of one run of the alphabet
def letters(ones, raw):
    return all(65 <= x <= 72 for x in raw)


def spec_decode_run(ones, raw):
    out = unb58(b'1' * ones + raw)
    if checksum(out[:-4]) != out[-4:]:
        raise InvalidBase58h('1' * ones + raw.decode('ascii'))
    return out[:-4]


def impl_decode_run(ones, raw):
    return encoding.decode_base58h('1' * ones + raw.decode('ascii'))


# ----------------------------------------------------- without the checksum
def spec_plain(data):
    return b58(data)


def impl_plain(data):
    return utils.encoding.b2a_base58(data)


def spec_unplain_run(ones, raw):
    return unb58(b'1' * ones + raw)


def impl_unplain_run(ones, raw):
    return utils.encoding.a2b_base58('1' * ones + raw.decode('ascii'))


def spec_nonascii(text):
    raise InvalidBase58h(text)


def impl_nonascii(text):
    return encoding.decode_base58h(text)


# one or two characters of any kind, without the checksum
def spec_unplain(raw):
    if ascii(raw) is None:
        return None
    for x in raw:
        if x not in VALUE:
            raise utils.encoding.EncodingError('bad')
    return unb58(raw)


def impl_unplain(raw):
    text = ascii(raw)
    if text is None:
        return None
    try:
        return utils.encoding.a2b_base58(text)
    except utils.encoding.EncodingError:
        raise utils.encoding.EncodingError('bad')


# valid texts, and texts next to a valid one
def spec_known(text, data):
    return (data, True)


def impl_known(text, data):
    return (encoding.decode_base58h(text), utils.encoding.is_hashed_base58_valid(text))


def spec_near(text):
    raise InvalidBase58h(text)


def impl_near(text):
    return encoding.decode_base58h(text)
