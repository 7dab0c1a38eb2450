from . import opsb


def run(c):
    opsb.run(c, "c06_", ("std", "nostd", "libm"))
    c.bound("round trip: every finite double of either sign (exponent and leading zeros of subnormals split into cases, fraction bits symbolic)")
    c.bound("products and quotients: every fraction, exponents from a grid of 64 and both signs, subnormal second operand of every magnitude")
