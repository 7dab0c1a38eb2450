from . import opsb, tyspec


def run(c):
    opsb.run(c, "c04_")
    tyspec.run(c, "C04")
