from . import opsb, tyspec


def run(c):
    opsb.run(c, "c18_", ("std", "rational"))
    tyspec.run(c, "C18", ("std", "rational"))
