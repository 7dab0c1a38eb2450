from . import gen, macb

E = ["c10_any", "c10_names", "c10_many", "c10_unit", "c10_constant", "c10_prefixed"]


def run(c):
    c.params["exp_bits"] = c.params["rat_bits"] = 24 if c.thorough else 12
    macb.run(c, {"int": E, "rational": E}, rejects=E)
    c.bound("annotated units (plain, with prefixes and aliases) and constants whose definition and annotation have symbolic exponents of %d bits for each of the base dimensions" % c.params["exp_bits"])
    c.bound("annotations and definitions over up to nine base dimensions, one exponent of each symbolic")
    c.bound("annotations naming any of: every name of one or two letters in a system with five dimensions; base and derived dimensions, units, constants, undefined names")
    gen.run(c, ["dims"], accept=True, names=False)
