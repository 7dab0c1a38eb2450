from . import opsb, tyspec


def run(c):
    opsb.run(c, "c21_")
    tyspec.run(c, "C21")
