#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
SE = "symbolic execution of the compiled code (LLVM IR) with z3 deciding every assertion; counterexamples replayed natively"
TY = "SMT (z3) over symbolic dimension vectors: acceptance and result dimensions of every impl and method of the expanded code, constant expressions proved by symbolic execution; counterexamples compiled by rustc"
CHECKS = {
    "C01": (TY, "all dimension vectors; every operator, operand form and storage type in three feature configurations"),
    "C02": (TY, "all dimension vectors; every operator, operand form and storage type in three feature configurations"),
    "C03": (SE, "all operators, operand forms and storage types, all bit patterns of the operands"),
    "C04": (SE + "; " + TY, "all numbers for a fixed set of unit factors spread over the double range"),
    "C05": (SE + "; " + TY, "all numbers for a fixed set of unit factors"),
    "C06": (SE, "all finite doubles; products and quotients of all pairs"),
    "C07": (SE, "all numerators and denominators of stated bit widths, exponents of bounded size; overflow with full-width numbers"),
    "C08": (SE, "expression shapes up to stated sizes; all literal values, factors and exponents of stated widths"),
    "C09": (SE, "definition graphs of up to four definitions; every order of five statements (thorough: seven); all factors"),
    "C10": (SE, "all exponents of stated width"),
    "C11": (SE, "all pairs (thorough: triples) of prefixes, all skip lists of up to two; all factors"),
    "C12": (SE, "one or two further statements of 23 kinds in a system of twelve, names from stated sets"),
    "C13": (SE + "; " + TY, "every name, dimension and symbol of an independently written SI table; all numbers in front of a symbol"),
    "C14": (SE, "all bit patterns of the stored value; grids of dimensions in three unit systems"),
    "C15": (SE, "texts of bounded length and shape with symbolic characters; all numbers"),
    "C16": (SE, "all bit patterns of the stored value; grids of dimensions in three unit systems"),
    "C17": (SE + "; " + TY, "all bit patterns; float functions are uninterpreted"),
    "C18": (SE + "; " + TY, "all bit patterns of all components"),
    "C19": (SE, "all bit patterns of both bounds, all outputs of the generator up to three words per path"),
    "C20": (SE, "all bit patterns of all storage types; four dimensions each"),
    "C21": (SE + "; " + TY, "all bit patterns; sums of up to 4 items"),
    "C22": (SE + "; " + TY, "both configurations decided against one reference: integer exponents of stated widths in definitions, all i64 dimension vectors in types"),
}
NA = []
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": NA}
for p, (t, n) in sorted(CHECKS.items()):
    m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                        "technique": t, "level": "model_checking", "level_note": n})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
