from . import opsb


def run(c):
    opsb.run(c, "c03_")
    c.bound("every operator, operand form and storage type is one harness entry; operand values are unconstrained (all bit patterns)")
    c.bound("dimensions are fixed per entry (the stored value does not depend on the const parameter; C01/C02 range over dimensions)")
    c.assume("floating-point addition, multiplication, division are uninterpreted functions of their operand bits; equality up to NaN payload")
    c.assume("LLVM IR produced by the repository's rustc at opt-level 1 represents the code; code generation below IR is trusted")
