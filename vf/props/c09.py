from . import gen, macb

ANY = ["c09_any_dim_names", "c09_any_dims", "c09_any_constants", "c09_any_units", "c09_any_names"]
Q = ANY + ["c09_graph_mixed", "c09_graph_dims", "c09_graph_units", "c09_permute_first", "c09_permute_middle", "c09_permute_last", "c09_generated"]
PAIRS = [f"c09_pairs_{k}_{i}" for k in ("mixed", "dims") for i in range(5)]


def run(c):
    plan = {"int": Q, "rational": ANY[1:4:2] + ["c09_graph_dims", "c09_permute_first", "c09_generated"]}
    if c.thorough:
        plan["int"] = ["c09_permute_seven"] + PAIRS + Q
        plan["rational"] = Q
    g = [x for x in plan["int"] if "graph" in x or "pairs" in x or x in ANY[1:4]]
    macb.run(c, plan, rejects=g, factors=True)
    c.bound("four definitions (units, units and constants, dimensions) with one reference each: to any of the four, a base name or an undefined name; thorough: three definitions with two references each")
    c.bound("three definitions each of whose references is any name of one or two letters; a chain of four definitions with any distinct names of one or two letters")
    c.bound("every order of five (thorough: seven) out of eight statements of a system with dimensions, prefixed and aliased units, constants and annotations, base units before or after; all factors symbolic")
    gen.run(c, ["values", "dims"], accept=r"Unresolvable definition|Undefined identifier")
