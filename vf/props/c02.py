from . import tyspec
def run(c):
    tyspec.run(c, "C02")
