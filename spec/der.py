"""Strict DER signatures (BIP 66)."""
from bitforge.signature import *
from bitforge import signature


def natural(s, start, n):
    """the n bytes of s at start are a positive integer in its shortest form"""
    if n == 0 or s[start] > 127:
        return False
    return n == 1 or s[start] != 0 or s[start + 1] > 127


def spec_valid(s):
    n = len(s)
    if n < 9 or n > 73:
        return False
    if s[0] != 0x30 or s[1] != n - 3:
        return False
    r = s[3]
    if r > n - 6:
        return False
    if s[5 + r] != n - 7 - r:
        return False
    if s[2] != 2 or s[4 + r] != 2:
        return False
    return natural(s, 4, r) and natural(s, 6 + r, n - 7 - r)


def impl_valid(s):
    return validate_signature(s)


def spec_valid_r(s, r):
    return spec_valid(s)


def impl_valid_r(s, r):
    return validate_signature(s)


def of_r(s, r):
    return len(s) >= 4 and s[3] == r


def long_r(s):
    return len(s) >= 4 and s[3] >= 72


def spec_flags():
    return (1, 2, 3, 128)


def impl_flags():
    return (SIGHASH_ALL, SIGHASH_NONE, SIGHASH_SINGLE, SIGHASH_ANYONECANPAY)
