"""C14: Debug shows the stored value and the right unit."""
from . import gen, serb


def run(c):
    serb.run(c, {"float-classes": 1})
    c.bound("dimensions: grids of up to 100 exponent triples in three unit systems (base units in every order, with coherent derived, prefixed, scaled, symbolless and dimensionless units), fractional exponents of denominators 2, 3, 5, 10; exponents between -130 and 12")
    c.bound("stored values: all bit patterns of f32, f64, Vec2, DVec2, Vec3, DVec3, and a storage type showing the format options passed on (precision, width, sign)")
    gen.run(c, ["debug"], names=False)
