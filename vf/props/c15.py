"""C15: exactly the well-formed quantities of the right dimension deserialize, to the right value."""
from . import gen, serb


def run(c):
    c.params["digits"] = 3 if c.thorough else 2
    serb.run(c, {"int-token": 1})
    c.bound("texts: a number followed by up to 6 (thorough 7) arbitrary bytes over alphabets of up to 20 characters; up to three units with symbols from 12 and exponents from 11; one unit with any exponent of up to 2 (thorough 3) digits; exponents of up to 21 digits with 2 or 3 of them arbitrary; vector texts with up to 9 arbitrary bytes around the components")
    c.bound("numbers: all bit patterns of f32 and f64; values are compared for unit factors that are powers of two")
    gen.run(c, ["symbols"], names=False)
