"""Integers, script numbers, hexadecimal."""
import binascii

from bitforge import encoding
from bitforge.encoding import InvalidInteger, InvalidScriptNumber, InvalidMinimalScriptNumber, InvalidHex


# ---- variable-length integers (wire format)
def spec_varint(n):
    if n < 0 or n > 0xffffffffffffffff:
        raise InvalidInteger(n)
    if n < 253:
        return n.to_bytes(1, 'little')
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def impl_varint(n):
    return bytes(encoding.encode_varint(n))


# ---- fixed-width integers
def fixed(n, big, length):
    if n < 0 or n >= 256 ** length:
        raise InvalidInteger(n)
    return n.to_bytes(length, 'big' if big else 'little')


def spec_fixed_be(n, length):
    if n < 0 or n >= 256 ** length:
        raise InvalidInteger(n)
    return n.to_bytes(length, 'big')


def impl_fixed_be(n, length):
    return bytes(encoding.encode_int(n, length=length))


def spec_fixed_le(n, length):
    if n < 0 or n >= 256 ** length:
        raise InvalidInteger(n)
    return n.to_bytes(length, 'little')


def impl_fixed_le(n, length):
    return bytes(encoding.encode_int(n, big_endian=False, length=length))


def spec_decode_be(data):
    return int.from_bytes(data, 'big')


def impl_decode_be(data):
    return encoding.decode_int(data)


def spec_decode_le(data):
    return int.from_bytes(data, 'little')


def impl_decode_le(data):
    return encoding.decode_int(data, big_endian=False)


def spec_shortest_be(n):
    if n < 0:
        raise InvalidInteger(n)
    if n == 0:
        return b'\x00'
    k = 0
    m = n
    while m > 0:
        m = m // 256
        k += 1
    return n.to_bytes(k, 'big')


def impl_shortest_be(n):
    return bytes(encoding.encode_int(n))


def spec_shortest_le(n):
    return spec_shortest_be(n)[::-1]


def impl_shortest_le(n):
    return bytes(encoding.encode_int(n, big_endian=False))


# ---- script numbers
def spec_sn_encode(n):
    if n == 0:
        return b''
    m = n if n > 0 else -n
    k = 0
    r = m
    while r >= 128:
        r = r // 256
        k += 1
    # k+1 bytes hold the magnitude and leave the top bit for the sign
    out = m.to_bytes(k + 1, 'little')
    if n < 0:
        out = out[:-1] + (out[-1] + 128).to_bytes(1, 'little')
    return out


def impl_sn_encode(n):
    return bytes(encoding.encode_script_number(n))


def spec_sn_decode(data, minimal, size):
    if len(data) > size:
        raise InvalidScriptNumber(data)
    if len(data) == 0:
        return 0
    top = data[-1]
    if minimal and top in (0, 128):
        if len(data) == 1 or data[-2] < 128:
            raise InvalidMinimalScriptNumber(data)
    if top >= 128:
        return -int.from_bytes(data[:-1] + (top - 128).to_bytes(1, 'little'), 'little')
    return int.from_bytes(data, 'little')


def impl_sn_decode(data, minimal, size):
    return encoding.decode_script_number(data, f_require_minimal=minimal, size=size)


def spec_sn_default(data):
    return spec_sn_decode(data, False, 4)


def impl_sn_default(data):
    return encoding.decode_script_number(data)


def spec_sn_roundtrip(n):
    return n


def impl_sn_roundtrip(n):
    return encoding.decode_script_number(encoding.encode_script_number(n), f_require_minimal=True, size=10)


# ---- hexadecimal
def spec_hex(data):
    return data


def impl_hex(data):
    return encoding.decode_hex(encoding.encode_hex(data))


def spec_hex_text(data):
    return data.hex()


def impl_hex_text(data):
    return encoding.encode_hex(data).decode('ascii')


def spec_unhex(string):
    try:
        return binascii.unhexlify(string)
    except ValueError:
        raise InvalidHex(string)


def impl_unhex(string):
    return encoding.decode_hex(string)


# ---- hashes
def spec_hashes(data):
    import hashlib
    return (hashlib.sha256(data).digest(), hashlib.sha1(data).digest(), hashlib.new('ripemd160', data).digest(),
            hashlib.new('ripemd160', hashlib.sha256(data).digest()).digest())


def impl_hashes(data):
    return encoding.sha256(data), encoding.sha1(data), encoding.ripemd160(data), encoding.hash160(data)
