"""C16: deserializing what serializing wrote gives the quantity back."""
from . import gen, serb


def run(c):
    serb.run(c, {"float-classes": 1})
    c.bound("dimensions: grids of up to 100 exponent triples in three unit systems, fractional exponents of denominators 2, 3, 10")
    c.bound("stored values: all bit patterns of f32, f64 and of the components of Vec2, DVec2, Vec3, DVec3 (NaN comes back as NaN)")
    gen.run(c, ["roundtrip"], opts={"float-classes": 1})
