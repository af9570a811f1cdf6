"""Reading from and writing to a buffer."""
from bitforge.encoding import encode_varint
from bitforge.tools import Buffer


def spec_read(data, n):
    if n > len(data):
        raise Buffer.InsufficientData(len(data), n)
    return (data[:n], bytes, data[n:])


def impl_read(data, n):
    b = Buffer(data)
    r = b.read(n)
    return (r, type(r), bytes(b))


def spec_read_two(data, n, m):
    return (data[:n], data[n:n + m], data[n + m:])


def impl_read_two(data, n, m):
    b = Buffer(data)
    x = b.read(n)
    return (x, b.read(m), bytes(b))


def enough(data, n, m):
    return n + m <= len(data)


def spec_read_short(data, n):
    return ('refused', data)


def impl_read_short(data, n):
    b = Buffer(data)
    try:
        return b.read(n)
    except Buffer.InsufficientData:
        return ('refused', bytes(b))


def short(data, n):
    return n > len(data)


def spec_read_varint(data):
    if len(data) < 1:
        raise Buffer.InsufficientData(0, 1)
    k = data[0]
    if k < 253:
        return (k, data[1:])
    n = 2 if k == 253 else 4 if k == 254 else 8
    if len(data) - 1 < n:
        raise Buffer.InsufficientData(0, n)
    return (int.from_bytes(data[1:n + 1], 'little'), data[n + 1:])


def impl_read_varint(data):
    b = Buffer(data)
    n = b.read_varint()
    return (n, bytes(b))


def spec_varint_inverts(n, rest):
    return (n, rest)


def impl_varint_inverts(n, rest):
    b = Buffer(encode_varint(n) + rest)
    k = b.read_varint()
    return (k, bytes(b))


def spec_write(a, b, c):
    return (a + b + c, len(a) + len(b) + len(c))


def impl_write(a, b, c):
    x = Buffer(a)
    x.write(b)
    x.write(bytearray(c))
    return (bytes(x), len(x))


def spec_write_read(a, b):
    return (a, b, True)


def impl_write_read(a, b):
    x = Buffer()
    x.write(a)
    x.write(b)
    p = x.read(len(a))
    return (p, x.read(len(b)), not x)
