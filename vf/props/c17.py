from . import opsb, tyspec


def run(c):
    opsb.run(c, "c17_")
    tyspec.run(c, "C17")
