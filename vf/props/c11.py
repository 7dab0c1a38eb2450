from . import gen, macb

E = ["c11_explicit_unit", "c11_metric_unit", "c11_metric_base", "c11_explicit_base", "c11_both", "c11_aliases", "c11_any_unit", "c11_any_base"]


def run(c):
    plan = {"int": E, "rational": ["c11_both", "c11_aliases", "c11_any_unit", "c11_explicit_base"]}
    if c.thorough:
        plan["int"] = [f"c11_explicit_three_{i}" for i in range(8)] + E
        plan["rational"] = E
    macb.run(c, plan, factors=True)
    c.bound("metric_prefixes with none, any one or any two prefixes skipped and up to two aliases; any two (thorough: three) explicit prefixes in any order in one or two attributes, with or without aliases and symbol; both kinds of attribute together; base units and derived units; every factor of the unit")
    c.bound("a unit and an alias with any names of one and two letters and any one-letter symbol, four pairs of prefixes")
    gen.run(c, ["values", "symbols"])
