"""C19: random quantities are the storage type's samples."""
from . import serb


def run(c):
    c.params["rounds"] = 12 if c.thorough else 4
    serb.run(c, {})
    c.bound("bounds of the range: all pairs of f32 and of f64 bit patterns; in addition 169 concrete pairs with all arithmetic concrete; the words the generator gives are symbolic, up to three of them per path (rejection sampling needing more is outside the bound)")
    c.bound(f"range set-up loops of the number's own sampler of up to {c.params['rounds']} rounds with symbolic bounds (1000 times as many with concrete ones); one sampler used twice, gen_range, ranges turned into samplers, an iterator of samples")
