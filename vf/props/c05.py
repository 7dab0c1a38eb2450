from . import opsb, tyspec


def run(c):
    opsb.run(c, "c05_")
    tyspec.run(c, "C05")
