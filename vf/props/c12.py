from . import gen, macb

N = ["c12_nested_dim", "c12_nested_unit", "c12_nested_constant"]
E = ["c12_any_c", "c12_any_d", "c12_any_a", "c12_any_b"] + [f"c12_one_{i}" for i in range(4)] + ["c12_symbols", "c12_two_a", "c12_two_b", "c12_two_c", "c12_two_d", "c12_types", "c12_attributes"] + N + [f"c12_anysym_{i}{j}" for i in range(4, -1, -1) for j in range(5)]
T = [f"c12_t_two_{i}" for i in (9, 10, 11, 21, 22, 14, 16, 18, 13, 5, 15, 17, 1, 2, 3)]


def run(c):
    plan = {"int": E, "rational": ["c12_any_b", "c12_two_a", "c12_two_c", "c12_types", "c12_attributes"] + N}
    if c.thorough:
        plan["rational"] = E
        plan["int"] = T + E
        c.bound("two further statements of 15 and 20 kinds whose names, references, base dimensions and symbols are each any letter")
    macb.run(c, plan, rejects=E + T)
    c.bound("a well-formed system of 12 statements and one or two further statements out of 23 kinds, with names, references, symbols and base dimensions that coincide with each other and with the system's in every way the menus allow, before or after the system")
    c.bound("one further statement of any kind whose name, reference, base dimension and symbol are each any string of one or two letters")
    c.bound("two units whose symbols are any strings of one to three letters, each with one of five sets of prefixes (none to all sixteen)")
    c.bound("0 to 3 quantity types and dimension types; symbols against symbols made by prefixes; 14 combinations of attributes")
    c.bound("one factor (a number, a name of each kind, an undefined name or the definition's own) at each place of eight nested expressions of a dimension, unit or constant")
    gen.run(c, ["dims"], accept=True, names=False)
