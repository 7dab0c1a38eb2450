from . import opsb


def run(c):
    c.params["c07_bits"] = 10 if c.thorough else 8
    c.params["c07_den"] = 6 if c.thorough else 4
    c.params["c07_num"] = 8 if c.thorough else 4
    opsb.run(c, "c07_", ("rational",), opts={"div-enum": 8})
    c.bound(f"numerators: every signed number of {c.params['c07_bits']} bits; denominators 1 to {c.params['c07_den']} and six pairs of up to 10 that share factors (construction: -32 to 31)")
    c.bound("powi: numerators of 4 bits, denominators 1 to 4, exponents from -4 to 3; ten bases with 47 exponents from -2^31 to 2^31 - 1; integers (denominator 1) over the full 64 bits")
