"""The curve: square roots and points."""
from bitforge import utils
from bitforge.utils import ecdsa, numbertheory

P = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f


def spec_lift_x(x, even):
    a = (x * x * x + 7) % P
    b = numbertheory.modular_sqrt(a, P)
    if (b % 2 == 0) == even:
        return (x, b)
    return (x, P - b)


def impl_lift_x(x, even):
    return ecdsa.public_pair_for_x(utils.generator_secp256k1, x, even)


def spec_sqrt(a):
    if pow(a, (P - 1) // 2, P) != 1:
        return 0
    return pow(a, (P + 1) // 4, P)


def impl_sqrt(a):
    return numbertheory.modular_sqrt(a, P)
