from . import gen, macb

TWO = [f"c08_two_{k}" for k in ("unit_0", "unit_1", "unit_2", "unit_3", "unit_4", "const_0", "const_3", "dim_0", "dim_1", "dim_4")]
SMALL = ["c08_three_unit", "c08_three_dim", "c08_six_unit", "c08_six_dim", "c08_flat_unit", "c08_flat_dim", "c08_flat_const",
         "c08_written_exponent", "c08_float_literal", "c08_unusual",
         "c08_edge_sum", "c08_edge_quotient", "c08_edge_power"]
DEEP = ["c08_deep_unit_0", "c08_deep_unit_1", "c08_deep_unit_2", "c08_deep_unit_3", "c08_deep_unit_4", "c08_deep_dim_0", "c08_deep_dim_3", "c08_deep_const_2"]


def run(c):
    if c.thorough:
        c.params["digits"] = 3
    c.params["exp_bits"] = c.params["rat_bits"] = 16 if c.thorough else 12
    plan = {"int": ["c08_int_literal"] + TWO + SMALL, "rational": ["c08_int_literal", "c08_rational_exponent"] + TWO[::3] + SMALL}
    if c.thorough:
        plan = {k: DEEP + v for k, v in plan.items()}
        plan["rational"] += [x for x in TWO if x not in plan["rational"]]
    macb.run(c, plan, factors=True)
    c.bound("expressions of one unit, constant or dimension definition: two factors of all four forms (name or literal, power, parenthesised product or quotient, parenthesised power), three factors of the two plain forms, four and six plain factors; thorough: three factors of all forms")
    c.bound("operators *, / and juxtaposition; atoms rotate through unit, constant, base unit, dimensionless unit and literal (dimensions: base and derived ones and 1); all values of the literals and of the factors of the named units; exponents of %d bits, either sign; rational exponents with numerators -8..7 and denominators 1..8" % c.params["exp_bits"])
    c.bound("integer literals of up to %d symbolic digits with or without underscore; decimal literals of any positive finite value" % c.params.get("digits", 2))
    c.bound("exponents at the ends of their range: sums and quotients of any two 64-bit exponents, powers of any 64-bit exponent to twelve powers: exact or refused")
    gen.run(c, ["values", "dims"])
